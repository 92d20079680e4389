package main

import (
	"bytes"
	"context"
	_ "embed"
	"errors"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// border.txt holds the documented border of Germany (latitude, longitude).
//
//go:embed border.txt
var borderText string

var borderPoints = func() [][2]float64 {
	var ps [][2]float64
	for _, l := range strings.Split(strings.TrimSpace(borderText), "\n") {
		var p [2]float64
		_, err := fmt.Sscan(l, &p[0], &p[1])
		must(err)
		ps = append(ps, p)
	}
	return ps
}()

// scratch makes a directory for one case.
func scratch() (string, func()) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "case-")
	must(err)
	return dir, func() { os.RemoveAll(dir) }
}

const nobodyID = 65534

func nobody() *syscall.SysProcAttr {
	return &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobodyID, Gid: nobodyID}}
}

// give lets the unprivileged user have a scratch directory.
func give(dir string) {
	filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err == nil {
			os.Lchown(p, nobodyID, nobodyID)
		}
		return nil
	})
}

// tempDir is where radolan2png may keep temporary files.
func tempDir() string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		return os.TempDir()
	}
	d := filepath.Join(base, "tmp")
	if os.Mkdir(d, 0o777) == nil {
		must(os.Chmod(d, 0o777))
	}
	return d
}

var probe struct {
	sync.Once
	ok bool
}

// unprivileged says whether radolan2png can be run as a user who owns nothing
// but the scratch directory of the case, so that a changed one can reach
// nothing else.
func unprivileged(bins ...string) bool {
	probe.Do(func() {
		if os.Geteuid() != 0 {
			return
		}
		dir, done := scratch()
		defer done()
		give(dir)
		must(os.WriteFile(filepath.Join(dir, "closed"), nil, 0))
		test := ": >new && ! cat closed 2>/dev/null"
		for _, b := range bins {
			test += " && test -x '" + b + "'"
		}
		cmd := exec.Command("/bin/sh", "-c", test)
		cmd.Dir = dir
		cmd.SysProcAttr = nobody()
		probe.ok = cmd.Run() == nil
	})
	return probe.ok
}

type cliResult struct {
	code           int
	stdout, stderr string
}

// cliCPU is the CPU time in seconds after which a conversion counts as hanging
// (the largest ones here take about one).
const cliCPU = 40

func unprivilegedCLI() bool {
	self, err := os.Executable()
	must(err)
	return unprivileged(os.Getenv("VERIF_CLI"), self)
}

// runCLI runs radolan2png in dir, optionally under a file size limit (in 512
// byte blocks).
func runCLI(dir string, fsize int, args ...string) cliResult {
	return runCLIwith(dir, fsize, nil, args...)
}

// runCLIwith also feeds standard input; fsize is in 512 byte blocks or, if less
// than -1, the limit is -2-fsize bytes.
func runCLIwith(dir string, fsize int, stdin io.Reader, args ...string) cliResult {
	bin := os.Getenv("VERIF_CLI")
	if bin == "" {
		fatal("VERIF_CLI is not set")
	}
	plain := unprivilegedCLI()
	self, err := os.Executable()
	must(err)
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	limits := fmt.Sprintf("ulimit -t %d; ", cliCPU)
	if fsize >= 0 { // blocks
		limits += fmt.Sprintf("ulimit -f %d; ", fsize)
	}
	cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", limits + `exec "$0" "$@"`, bin}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "TMPDIR="+tempDir(), "HOME="+dir)
	if plain {
		give(dir)
		cmd.SysProcAttr = nobody()
	}
	var fed sync.WaitGroup
	if stdin != nil {
		pr, pw, err := os.Pipe()
		must(err)
		if plain {
			must(pr.Chown(nobodyID, nobodyID)) // may be opened again by name
		}
		cmd.Stdin = pr
		fed.Add(1)
		go func() {
			io.Copy(pw, stdin) // ends early if the program does
			pw.Close()
			fed.Done()
		}()
		defer fed.Wait()
		defer pr.Close()
	}
	if fsize < -1 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("VERIF_FSIZE=%d", -2-fsize))
		cmd.Args = append([]string{"/bin/sh", "-c", limits + `exec "$0" "$@"`, self, bin}, args...)
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err = cmd.Run()
	if ps := cmd.ProcessState; ps != nil && ps.UserTime()+ps.SystemTime() > (cliCPU-2)*time.Second {
		panic(fmt.Sprintf("radolan2png does not end: it was stopped after %d s of CPU time", cliCPU))
	}
	if ctx.Err() != nil {
		fatal("radolan2png does not end within 200 s")
	}
	r := cliResult{0, out.String(), errb.String()}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			fatal("cannot run radolan2png: %v", err)
		}
		r.code = ee.ExitCode()
		if r.code == 0 {
			r.code = -1
		}
	}
	return r
}

// completePNG decodes a file that must consist of exactly one PNG.
func completePNG(path string) (image.Image, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, fmt.Errorf("no output: %v", err)
	}
	rd := bytes.NewReader(b)
	img, err := png.Decode(rd)
	if err != nil {
		return nil, fmt.Errorf("output is not a complete PNG: %v", err)
	}
	if !bytes.HasSuffix(b, []byte("\x00\x00\x00\x00IEND\xae\x42\x60\x82")) || bytes.Count(b, []byte("IEND\xae\x42\x60\x82")) != 1 {
		return nil, fmt.Errorf("output does not end with the PNG's end (%d bytes)", len(b))
	}
	return img, nil
}

// ---------------------------------------------------------------- C20

// unitGradient is the documented gradient of a model.
func (m *Model) unitGradient() gradient {
	switch m.unit() {
	case uMM:
		_, _, interval, _ := m.wantMeta()
		g := gradient{"heat", 0.1, 200, "log"}
		if interval <= time.Hour {
			g.Max = 100
		} else if interval >= 7*24*time.Hour {
			g.Max = 400
		}
		return g
	case uKM:
		return gradient{"gray", 0, 15, "id"}
	case uMPS:
		return gradient{"radial", -31.5, 31.5, "log"}
	}
	return gradient{"heat", 1, 75, "id"}
}

// shows says whether a colour stands for a pixel value.
func (g *gradient) shows(w want, got color.RGBA, exact bool) error {
	if w.nan {
		return g.check(math.NaN(), got)
	}
	if exact && float64(float32(w.v)) == w.v { // no rounding anywhere
		return g.check(w.v, got)
	}
	// the value is stored in single precision
	var err error
	for _, v := range []float64{w.v, w.v - w.tol - 1e-9, w.v + w.tol + 1e-9, float64(float32(w.v))} {
		if err = g.check(v, got); err == nil {
			return nil
		}
	}
	return g.check(w.v, got)
}

var (
	yellow = color.RGBA{255, 255, 0, 255}
	green  = color.RGBA{51, 255, 34, 255}
)

func rgba8(c color.Color) color.RGBA {
	r, g, b, a := c.RGBA()
	return color.RGBA{byte(r >> 8), byte(g >> 8), byte(b >> 8), byte(a >> 8)}
}

type overlay struct {
	w, h           int
	g              *gridDef
	border, nearBy []bool // certain border pixels; pixels within one of a border point
}

// pixel is the pixel of a place; sure is false near pixel boundaries and
// outside of the image.
func (ov *overlay) pixel(lat, lon float64) (x, y int, sure bool) {
	fx, fy := ov.g.project(ov.w, ov.h, lat, lon)
	x, y = int(math.Floor(fx)), int(math.Floor(fy))
	const eps = 1e-5
	sure = x >= 0 && y >= 0 && x < ov.w && y < ov.h &&
		fx-float64(x) > eps && fx-float64(x) < 1-eps && fy-float64(y) > eps && fy-float64(y) < 1-eps
	return
}

func newOverlay(g *gridDef, w, h int) *overlay {
	ov := &overlay{w: w, h: h, g: g, border: make([]bool, w*h), nearBy: make([]bool, w*h)}
	for _, p := range borderPoints {
		x, y, sure := ov.pixel(p[0], p[1])
		if sure {
			ov.border[y*w+x] = true
		}
		for dy := -1; dy <= 1; dy++ {
			for dx := -1; dx <= 1; dx++ {
				fx, fy := ov.g.project(w, h, p[0], p[1])
				qx, qy := int(math.Floor(fx+float64(dx)*1e-4)), int(math.Floor(fy+float64(dy)*1e-4))
				if qx == -1 { // drawn at the edge by truncation
					qx = 0
				}
				if qy == -1 {
					qy = 0
				}
				if qx >= 0 && qy >= 0 && qx < w && qy < h {
					ov.nearBy[qy*w+qx] = true
				}
			}
		}
	}
	return ov
}

// meshAllowed says whether the pixel is on the mesh: some place of the pixel
// (one pixel around) is within a mesh step (0.1 degrees) of a whole degree.
func (ov *overlay) meshAllowed(x, y int) bool {
	lat0, lon0, lat1, lon1 := 90.0, 180.0, -90.0, -180.0
	for _, dx := range []float64{-0.3, 1.3} {
		for _, dy := range []float64{-0.3, 1.3} {
			lat, lon := ov.g.unproject(ov.w, ov.h, float64(x)+dx, float64(y)+dy)
			lat0, lat1 = math.Min(lat0, lat), math.Max(lat1, lat)
			lon0, lon1 = math.Min(lon0, lon), math.Max(lon1, lon)
		}
	}
	const step = 0.101
	if lat1 < 46-step || lat0 > 55+step || lon1 < 1-step || lon0 > 16+step {
		return false
	}
	hasWhole := func(a, b float64) bool { return math.Floor(b+step) >= math.Ceil(a-step) }
	return hasWhole(lat0, lat1) || hasWhole(lon0, lon1)
}

// meshDrawn insists on every line of the mesh: all of its points, in steps of
// 0.1 degrees, are green. Lines may be a step off.
func (ov *overlay) meshDrawn(at func(x, y int) color.RGBA) error {
	line := func(name string, fixed float64, from, to float64, place func(fixed, moving float64) (lat, lon float64)) error {
		var why error
		for _, d := range []float64{0, 0.1, -0.1} {
			ok := true
			for i := 0; ; i++ {
				v := from + float64(i)/10
				if v > to+1e-9 {
					break
				}
				lat, lon := place(fixed+d, v)
				x, y, sure := ov.pixel(lat, lon)
				if sure && at(x, y) != green {
					ok = false
					if why == nil {
						why = fmt.Errorf("mesh line %s: pixel (%d, %d) at latitude %.1f, longitude %.1f is %v", name, x, y, lat, lon, at(x, y))
					}
					break
				}
			}
			if ok {
				return nil
			}
		}
		return why
	}
	for n := 46; n < 55; n++ {
		if err := line(fmt.Sprintf("%d N", n), float64(n), 1, 15.9, func(f, v float64) (float64, float64) { return f, v }); err != nil {
			return err
		}
	}
	for e := 1; e < 16; e++ {
		if err := line(fmt.Sprintf("%d E", e), float64(e), 46, 54.9, func(f, v float64) (float64, float64) { return v, f }); err != nil {
			return err
		}
	}
	return nil
}

func checkDrawing(m *Model, o *Obs) error {
	dir, done := scratch()
	defer done()
	must(os.WriteFile(filepath.Join(dir, "in"), m.Bytes(), 0o644))
	r := runCLI(dir, -1, "in", "out.png")
	if r.code != 0 {
		return fmt.Errorf("exit status %d for a readable composite: %.300s", r.code, r.stderr)
	}
	return checkPicture(m, filepath.Join(dir, "out.png"), o)
}

// checkPicture compares a written picture with the composite.
func checkPicture(m *Model, path string, o *Obs) error {
	img, err := completePNG(path)
	if err != nil {
		return err
	}
	_, dy, first := m.layers()
	if img.Bounds() != image.Rect(0, 0, m.W, dy) {
		return fmt.Errorf("image has bounds %v, want %dx%d", img.Bounds(), m.W, dy)
	}
	_, _, interval, format := m.wantMeta()
	g := refGrid(m.W, dy, format)
	grad := m.unitGradient()
	exact := m.Prec == 0 || m.Enc == "rl"
	var ov *overlay
	if g != nil {
		ov = newOverlay(g, m.W, dy)
	}
	at := func(x, y int) color.RGBA { return rgba8(img.At(x, y)) }
	drawn := map[color.RGBA]int{}
	for y := 0; y < dy; y++ {
		row := m.plainRow(first(0) + y)
		for x, w := range row {
			c := at(x, y)
			if ov != nil && ov.border[y*m.W+x] && c != yellow && c != green {
				return fmt.Errorf("pixel (%d, %d) on the border is %v", x, y, c)
			}
			err := grad.shows(w, c, exact)
			if err == nil {
				continue
			}
			if ov == nil || c != yellow && c != green {
				return fmt.Errorf("product %s (%s, interval %v): pixel (%d, %d): %v", m.Product, unitName[m.unit()], interval, x, y, err)
			}
			if c == yellow && !ov.nearBy[y*m.W+x] {
				return fmt.Errorf("pixel (%d, %d) is drawn as border", x, y)
			}
			if c == green && !ov.meshAllowed(x, y) {
				return fmt.Errorf("pixel (%d, %d) is drawn as mesh", x, y)
			}
			drawn[c]++
		}
	}
	if ov != nil {
		if err := ov.meshDrawn(at); err != nil {
			return err
		}
		o.Label("grid %s", g.name)
		o.Label("with overlay")
		if drawn[green] > 0 && drawn[yellow] > 0 {
			o.NT()
		}
	}
	o.Label("%s gradient to %v", unitName[m.unit()], float64(grad.Max))
	if m.W > 1 && dy > 1 {
		o.NT()
	}
	return nil
}

// namedCase is a set of conversions running at the same time in one directory.
type namedCase struct {
	Jobs []namedJob
}

type namedJob struct {
	M       *Model // nil: the input of the first job
	In, Out string // below the directory
	AbsIn   bool
	AbsOut  bool
	Old     int // length of an existing output; -1: none
}

func checkNamed(cs namedCase, o *Obs) error {
	dir, done := scratch()
	defer done()
	arg := func(name string, abs bool) string {
		if abs {
			return filepath.Join(dir, name)
		}
		if strings.HasPrefix(name, "-") {
			return "./" + name
		}
		return name
	}
	files := map[string][]byte{}
	for _, j := range cs.Jobs {
		if j.M != nil {
			files[j.In] = j.M.Bytes()
		}
		if j.Old >= 0 {
			files[j.Out] = bytes.Repeat([]byte("old "), j.Old)
		}
		must(os.MkdirAll(filepath.Dir(filepath.Join(dir, j.Out)), 0o755))
	}
	for name, b := range files {
		must(os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755))
		must(os.WriteFile(filepath.Join(dir, name), b, 0o644))
	}
	results := make([]cliResult, len(cs.Jobs))
	panics := make([]any, len(cs.Jobs))
	var wg sync.WaitGroup
	for i, j := range cs.Jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[i] = recover() }()
			results[i] = runCLI(dir, -1, arg(j.In, j.AbsIn), arg(j.Out, j.AbsOut))
		}()
	}
	wg.Wait()
	for i, j := range cs.Jobs {
		what := fmt.Sprintf("conversion %d of %d, %q to %q", i+1, len(cs.Jobs), j.In, j.Out)
		if panics[i] != nil {
			return fmt.Errorf("%s: %v", what, panics[i])
		}
		if results[i].code != 0 {
			return fmt.Errorf("%s: exit status %d for a readable composite: %.300s", what, results[i].code, results[i].stderr)
		}
		m := j.M
		if m == nil {
			m = cs.Jobs[0].M
		}
		if err := checkPicture(m, filepath.Join(dir, j.Out), &Obs{}); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if j.M != nil {
			if b, err := os.ReadFile(filepath.Join(dir, j.In)); err != nil || !bytes.Equal(b, files[j.In]) {
				return fmt.Errorf("%s: the input was changed", what)
			}
		}
		delete(files, j.Out)
		if ext := filepath.Ext(j.Out); ext != ".png" {
			o.Label("output name without .png")
		}
	}
	// nothing else appears
	wanted := map[string]bool{}
	for _, j := range cs.Jobs {
		wanted[filepath.Join(dir, j.In)], wanted[filepath.Join(dir, j.Out)] = true, true
	}
	must(filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err == nil && !st.IsDir() && !wanted[p] {
			wanted["surplus"] = true
		}
		return err
	}))
	if wanted["surplus"] {
		return fmt.Errorf("%d conversions left further files", len(cs.Jobs))
	}
	o.Label("%d at once", len(cs.Jobs))
	o.NT()
	return nil
}

func genNamed(t *rapid.T) namedCase {
	name := func(what string, used map[string]bool) string {
		for {
			n := rapid.OneOf(
				rapid.SampledFrom([]string{"a", "out.png", "in.bin", "raa01-rx_10000-latest-dwd---bin", "-", "-o", "--help", "-h.png", "a b.png", " ", "%s%d.png", "ü.png", "x.PNG", "x.jpg", "x.png.tmp", "x.tar.bz2", "sub/dir/p.png", "sub/x", ".hidden", "*.png", "'q\"", "C:\\x.png", "stdin", "a.gz"}),
				rapid.StringMatching(`[a-z0-9._ %-]{1,12}`),
				rapid.Map(rapid.IntRange(100, 200), func(n int) string { return strings.Repeat("n", n) }),
			).Draw(t, what)
			if n != "." && n != ".." && n != "sub" && !used[n] {
				used[n] = true
				return n
			}
		}
	}
	used := map[string]bool{}
	cs := namedCase{}
	n := 1
	if chance(t, "several", 60) {
		n = rapid.IntRange(2, 6).Draw(t, "n")
	}
	for i := 0; i < n; i++ {
		j := namedJob{AbsIn: chance(t, "absIn", 25), AbsOut: chance(t, "absOut", 25), Old: -1}
		if i > 0 && chance(t, "sameInput", 25) {
			j.In = cs.Jobs[0].In
		} else {
			j.In = name("in", used)
			o := GenOpts{Local: -1}
			if chance(t, "grid", 10) {
				o = GenOpts{Shape: gridShapes[rapid.IntRange(0, 1).Draw(t, "shape")]}
			}
			j.M = genDrawing(t, o)
		}
		j.Out = name("out", used)
		if chance(t, "old", 30) {
			j.Old = rapid.IntRange(0, 9000).Draw(t, "old")
		}
		cs.Jobs = append(cs.Jobs, j)
	}
	return cs
}

// colourful content: values over the range of the unit's gradient
func genDrawing(t *rapid.T, o GenOpts) *Model {
	o.Known = true
	if o.Products == nil && chance(t, "byUnit", 60) {
		o.Products = [][]string{{"RX", "WX", "FX", "EX"}, {"RW", "SF", "RY", "D2"}, {"W1", "W2", "W3", "W4"}, {"PE"}, {"PR", "PD", "PV"}}[rapid.IntRange(0, 4).Draw(t, "unit")]
	}
	m := genModel(t, o)
	if m.unit() == uMM && chance(t, "interval", 70) {
		iv := rapid.SampledFrom([]int{0, 5, 59, 60, 61, 120, 1440, 9999}).Draw(t, "int")
		if strings.HasPrefix(m.Product, "W") {
			iv = rapid.SampledFrom([]int{0, 5, 6, 7, 144, 1007, 1008, 1009, 4320}).Draw(t, "int")
		}
		m.dropField("INT")
		m.Fields = append(m.Fields, Field{"INT", fmt.Sprintf("%4d", iv)})
	}
	if m.Enc != "rl" && chance(t, "precision", 70) {
		m.dropField("PR")
		m.Prec = rapid.SampledFrom([]int{-1, -2, 0}).Draw(t, "prec")
		m.Fields = append(m.Fields, Field{"PR", fmt.Sprintf(" E%+03d", m.Prec)})
	}
	return m
}

func init() {
	register(&Prop{
		ID:     "C20",
		CLI:    true,
		Rule:   "random composites of every unit, encoding, interval and version converted by the radolan2png binary; small ones without projection, local pictures, and all recognised grids at one or two sizes, some at half the pixel size; every pixel of the PNG is compared with the reference gradient (channels at most 1 apart) or must be a border or mesh pixel of the independently projected overlay, every border point and every mesh line (possibly one 0.1 degree step off) must be drawn, the mesh over the border. Non-trivial: more than one row and column; grids: both overlay colours appear. Distinct by case content.",
		Assume: []string{"overlay points within 1e-5 pixels of a pixel boundary may be drawn on either side, points less than one pixel left of or above the image may be drawn at its edge", "the reference has its own copy of the border coordinates"},
		Sections: []Section{
			Rand("small", 1600, 25000, func(t *rapid.T) *Model { return genDrawing(t, GenOpts{Local: -1}) }, checkDrawing),
			Rand("local", 24, 400, func(t *rapid.T) *Model { return genDrawing(t, GenOpts{Local: 1, Products: localProducts}) }, checkDrawing),
			Enum("grids", func(tier string, yield func(*Model) bool) {
				n, group := 0, 0
				for _, s := range gridShapes {
					for k := 1; k <= 4; k *= 2 {
						for _, vs := range []int{3, 5} {
							if refGrid(s[0], s[1], vs) == nil && k > 1 {
								continue
							}
							group++
							for i, p := range []string{"RX", "RW", "PE", "PR"} {
								n++
								if tier == "quick" && k > 1 && i != group%4 { // one of each size
									continue
								}
								m := &Model{Product: p, Stamp: "282105", WMO: "10000", MMYY: "0716", W: s[0] * k, H: s[1] * k, BYPad: 7, Seed: uint64(n + 1), Mode: "plain", Prec: -1, Enc: "le"}
								m.Fields = []Field{{"VS", fmt.Sprintf("%2d", vs)}, {"PR", " E-01"}, {"INT", "  60"}, {"GP", fmt.Sprintf("%4dx%4d", m.H, m.W)}}
								if n%2 == 0 {
									m.Enc = "sb"
								}
								if !yield(m) {
									return
								}
							}
						}
					}
				}
			}, checkDrawing),
			Enum("fine", func(tier string, yield func(*Model) bool) {
				for n, s := range [][2]int{{1100, 1200}, {1100, 1200}, {920, 920}, {1800, 1800}, {900, 900}, {900, 1100}, {1400, 1500}, {2200, 2400}} {
					if tier == "quick" && n > 3 {
						return
					}
					m := &Model{Product: "RX", Stamp: "282105", WMO: "10000", MMYY: "0716", W: s[0] * 2, H: s[1] * 2, BYPad: 8, Seed: uint64(n + 1), Mode: "plain", Prec: -1, Enc: "sb"}
					m.Fields = []Field{{"VS", fmt.Sprintf("%2d", 5-2*min(n, 1))}, {"PR", " E-01"}, {"INT", "   5"}, {"GP", fmt.Sprintf("%4dx%4d", m.H, m.W)}}
					if !yield(m) {
						return
					}
				}
			}, checkDrawing),
			Rand("named", 250, 5000, genNamed, checkNamed),
			Rand("gridsRandom", 60, 1200, func(t *rapid.T) *Model {
				s := gridShapes[rapid.IntRange(0, len(gridShapes)-1).Draw(t, "grid")]
				return genDrawing(t, GenOpts{Shape: s})
			}, checkDrawing),
		},
	})
}

// ---------------------------------------------------------------- C21

type cliCase struct {
	Kind   string
	File   []byte // input, if it is a file
	M      *Model `json:",omitempty"` // input, if File is not given
	Cut    int    // bytes of M missing at the end
	Input  string // "file", "stdin", "missing", "dir", "missingdir", "closed" (no permission)
	Chunks []int  // sizes of the pieces of a piped input
	Output string // "new", "existing", "long", "nodir", "dir", "full", "limit", "end", "input", "link", "dangling", "readonly", "closeddir", "closednew" (no permission)
	Limit  int    // file size limit in 512 byte blocks; "end": in bytes below the size of the complete output
	Good   bool   // the input can be converted
	W, H   int
}

func checkCLI(cs cliCase, o *Obs) error {
	dir, done := scratch()
	defer done()
	in := filepath.Join(dir, "in")
	file := cs.File
	if cs.M != nil {
		_, _, n := cs.M.Split()
		file = cs.M.Bytes()
		if cs.Cut > 0 {
			file = file[:n-cs.Cut]
		}
	}
	stdin := func() io.Reader { return nil }
	switch cs.Input {
	case "file":
		must(os.WriteFile(in, file, 0o644))
	case "stdin":
		must(os.Symlink("/proc/self/fd/0", in))
		stdin = func() io.Reader { return &scriptReader{data: file, d: Delivery{FailAt: -1, Chunks: cs.Chunks}} }
	case "closed":
		must(os.WriteFile(in, file, 0o644))
		must(os.Chmod(in, 0))
	case "dir":
		must(os.Mkdir(in, 0o755))
	case "missingdir":
		in = filepath.Join(dir, "no", "such", "file")
	}
	out := filepath.Join(dir, "out.png")
	target := out
	old := []byte("previous content of the output file\n")
	past := time.Unix(1400000000, 0)
	fsize := -1
	switch cs.Output {
	case "existing", "long":
		if cs.Output == "long" {
			old = bytes.Repeat(old, 3000)
		}
		must(os.WriteFile(out, old, 0o640))
		must(os.Chtimes(out, past, past))
	case "readonly":
		must(os.WriteFile(out, old, 0o444))
		must(os.Chtimes(out, past, past))
	case "closeddir", "closednew":
		target = filepath.Join(dir, "closed")
		must(os.Mkdir(target, 0o755))
		out = filepath.Join(target, "out.png")
		if cs.Output == "closeddir" {
			must(os.WriteFile(out, old, 0o640))
			must(os.Chtimes(out, past, past))
		}
		must(os.Chmod(target, 0o555))
	case "nodir":
		out = filepath.Join(dir, "no", "out.png")
	case "dir":
		must(os.Mkdir(out, 0o755))
	case "full":
		fsize = 0
	case "limit":
		fsize = cs.Limit
	case "end":
		whole := filepath.Join(dir, "out.png")
		if r := runCLIwith(dir, -1, stdin(), in, whole); r.code == 0 {
			st, err := os.Stat(whole)
			if err != nil {
				return fmt.Errorf("exit status 0, but no output: %v", err)
			}
			fsize = -2 - max(0, int(st.Size())-cs.Limit)
			must(os.Remove(whole))
		}
	case "input":
		out = in
		if cs.Input == "file" {
			old = file
			must(os.Chtimes(out, past, past))
		}
	case "link":
		target = filepath.Join(dir, "target")
		must(os.WriteFile(target, old, 0o640))
		must(os.Chtimes(target, past, past))
		must(os.Symlink("target", out))
	case "dangling":
		target = filepath.Join(dir, "target")
		must(os.Symlink("target", out))
	}
	var mode os.FileMode
	if st, err := os.Stat(out); err == nil {
		mode = st.Mode()
	}
	r := runCLIwith(dir, fsize, stdin(), in, out)
	what := fmt.Sprintf("input %s (%s), output %s", cs.Input, cs.Kind, cs.Output)
	o.Label("%s / %s", cs.Kind, cs.Output)
	o.NT()

	if !cs.Good {
		if r.code == 0 {
			return fmt.Errorf("%s: exit status 0", what)
		}
		if strings.TrimSpace(r.stderr) == "" {
			return fmt.Errorf("%s: exit status %d without a message on standard error", what, r.code)
		}
		switch cs.Output {
		case "existing", "long", "input", "link", "readonly", "closeddir":
			if cs.Output == "input" && cs.Input != "file" {
				break
			}
			b, err := os.ReadFile(out)
			if err != nil || !bytes.Equal(b, old) {
				return fmt.Errorf("%s: exit status %d, but the existing output was changed (%d bytes, %v)", what, r.code, len(b), err)
			}
			if st, err := os.Stat(out); err != nil || !st.ModTime().Equal(past) {
				return fmt.Errorf("%s: exit status %d, but the existing output was written", what, r.code)
			}
			if st, err := os.Stat(out); err != nil || st.Mode() != mode {
				return fmt.Errorf("%s: exit status %d, but the mode of the existing output was changed from %v", what, r.code, mode)
			}
		case "dangling":
			if _, err := os.Lstat(target); err == nil {
				return fmt.Errorf("%s: exit status %d, but an output file was created", what, r.code)
			}
		case "new", "limit", "full", "closednew":
			if _, err := os.Lstat(out); err == nil {
				return fmt.Errorf("%s: exit status %d, but an output file was created", what, r.code)
			}
		}
		// nothing else appears either
		names, err := filepath.Glob(filepath.Join(dir, "*"))
		must(err)
		for _, n := range names {
			if n != in && n != out && n != target {
				return fmt.Errorf("%s: exit status %d, but file %s was created", what, r.code, filepath.Base(n))
			}
		}
		return nil
	}
	switch cs.Output {
	case "closednew":
		if r.code != 0 {
			return nil
		}
		if probe.ok {
			return fmt.Errorf("%s: exit status 0 although the output cannot be created", what)
		}
	case "nodir", "dir", "full":
		if r.code == 0 {
			return fmt.Errorf("%s: exit status 0 although the output cannot be written", what)
		}
		return nil
	}
	if r.code != 0 {
		switch cs.Output {
		case "limit", "end":
			o.Label("limit hit")
			return nil
		case "input", "readonly", "closeddir": // may refuse
			return nil
		}
		return fmt.Errorf("%s: exit status %d: %.300s", what, r.code, r.stderr)
	}
	img, err := completePNG(out)
	if err != nil {
		return fmt.Errorf("%s: exit status 0, but %v", what, err)
	}
	if img.Bounds() != image.Rect(0, 0, cs.W, cs.H) {
		return fmt.Errorf("%s: image has bounds %v, want %dx%d", what, img.Bounds(), cs.W, cs.H)
	}
	return nil
}

func genCLI(t *rapid.T) cliCase {
	cs := cliCase{Input: "file"}
	bad := true
	switch rapid.IntRange(0, 12).Draw(t, "kind") {
	case 12:
		if !unprivilegedCLI() {
			cs.Input, cs.Kind = "missing", "missing"
			break
		}
		cs.File, cs.Input, cs.Kind = genModel(t, GenOpts{Known: true}).Bytes(), "closed", "unreadable"
	case 0:
		cs.Input, cs.Kind = pick(t, "absent", "missing", "missingdir"), "missing"
	case 1:
		cs.Input, cs.Kind = "dir", "directory"
	case 2, 3:
		r := genReject(t)
		cs.File, cs.Kind = r.File, "malformed"
	case 4, 5:
		m := genModel(t, GenOpts{Known: true})
		f, h, n := m.Split()
		cs.File, cs.Kind = f[:rapid.OneOf(rapid.IntRange(0, n-1), rapid.IntRange(h, n-1), rapid.IntRange(max(h, n-3), n-1)).Draw(t, "cut")], "truncated"
	case 6, 7:
		m := genModel(t, GenOpts{Local: -1, Products: []string{genUnknownProduct(t)}})
		if chance(t, "grid", 20) {
			m = genModel(t, GenOpts{Products: []string{genUnknownProduct(t)}, Shape: [2]int{115, 115}})
		}
		cs.File, cs.Kind = m.Bytes(), "unknown unit"
	default:
		o := GenOpts{Known: true, Local: -1}
		if chance(t, "large", 40) {
			o.Shape = pick(t, "shape", [2]int{115, 115}, [2]int{225, 225}, [2]int{200, 120}, [2]int{300, 100})
		}
		m := genModel(t, o)
		_, dy, _ := m.layers()
		cs.File, cs.Kind, cs.Good, cs.W, cs.H = m.Bytes(), "good", true, m.W, dy
		bad = false
	}
	if cs.Input == "file" && chance(t, "pipe", 15) {
		cs.Input = "stdin"
		cs.Chunks = genDelivery(t).Chunks
	}
	outs := []string{"new", "new", "existing", "existing", "long", "nodir", "dir", "full", "limit", "input", "link", "dangling", "readonly", "closeddir", "closednew"}
	if cs.Input == "stdin" {
		outs = []string{"new", "existing", "long", "limit", "link", "dangling"}
	}
	if !bad {
		outs = append(outs, "end", "end", "end")
	}
	cs.Output = rapid.SampledFrom(outs).Draw(t, "output")
	if cs.Output == "limit" {
		cs.Limit = rapid.IntRange(0, 40).Draw(t, "limit")
		if !cs.Good {
			cs.Limit = 100000
		}
	}
	if cs.Output == "end" {
		cs.Limit = rapid.OneOf(rapid.IntRange(1, 30), rapid.IntRange(1, 5000), rapid.IntRange(0, 1)).Draw(t, "below")
	}
	return cs
}

// largeCLI enumerates conversions with outputs of megabytes.
func largeCLI(tier string, yield func(cliCase) bool) {
	i := 0
	n := 2
	if tier == "thorough" {
		n = 8
	}
	shapes := [][2]int{{1100, 1200}, {2200, 2400}, {920, 920}, {1800, 1800}, {9999, 400}, {300, 9999}, {2800, 3000}, {1800, 2200}}
	for _, s := range shapes[:n] {
		for _, enc := range []string{"le", "sb"} {
			for _, kind := range []string{"good", "truncated", "unknown unit"} {
				outs := []string{"new", "existing", "full", "limit", "end", "end", "link", "input"}
				for _, out := range outs {
					i++
					if kind != "good" && (i%4 > 0 || out == "end" || out == "limit") {
						continue
					}
					p := pickAt(i, "RX", "RW", "PE", "PR")
					if kind == "unknown unit" {
						p = "QX"
					}
					cs := cliCase{Kind: "large " + kind, M: largeModel(enc, p, s[0], s[1], uint64(i)), Input: "file", Output: out, Good: kind == "good", W: s[0], H: s[1]}
					cs.M.Mode = "plain"
					switch {
					case kind == "truncated":
						cs.Cut = []int{1, 2, s[0], s[0]*s[1]/2 + 1}[i%4]
					case out == "limit":
						cs.Limit = []int{100, 1000, 2048, 4096}[i%4]
					case out == "end":
						cs.Limit = []int{1, 12, 4096, 40000}[i%4]
					}
					if out == "new" && i%2 == 0 {
						cs.Input = "stdin"
						cs.Chunks = [][]int{nil, {4096}, {65536, 1}}[i/2%3]
					}
					if !yield(cs) {
						return
					}
				}
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:     "C21",
		CLI:    true,
		Rule:   "random pairs of an input (missing, directory, without read permission, broken composites of every kind C07 generates, truncated, uncatalogued product, good) and an output (absent, existing, existing and longer than any PNG, the input itself, in a missing directory, a directory, one to which no byte can be written, limited to 0-40 blocks of file size, read-only, in a read-only directory) for the radolan2png binary, run in a scratch directory: exit status, standard error, the output before and after, completeness of the PNG. Every case is non-trivial; distinct by case content.",
		Assume: []string{"write faults are those of missing or wrong directories and of a file size limit", "the checks run as root, so permission failures are not generated"},
		Sections: []Section{
			Rand("faults", 6000, 80000, genCLI, checkCLI),
			Enum("large", largeCLI, checkCLI),
		},
	})
}
