package main

import (
	"bytes"
	"fmt"
	"image/color"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C23

type reportCase struct {
	M *Model
	// the usage cases: arguments
	Args []string
}

var extentRE = regexp.MustCompile(`([0-9]+(?:\.[0-9]+)?)\s*km\D+?([0-9]+(?:\.[0-9]+)?)\s*km`)

func checkReport(cs reportCase, o *Obs) error {
	dir, done := scratch()
	defer done()
	in, old := cs.M.Bytes(), []byte("previous content")
	must(os.WriteFile(filepath.Join(dir, "in"), in, 0o644))
	if cs.Args != nil { // too few arguments
		must(os.WriteFile(filepath.Join(dir, "out.png"), old, 0o644))
		r := runCLI(dir, -1, cs.Args...)
		if !strings.Contains(strings.ToLower(r.stdout+r.stderr), "usage") {
			return fmt.Errorf("arguments %q: no usage is shown: %.300q", cs.Args, r.stdout+r.stderr)
		}
		names, err := filepath.Glob(filepath.Join(dir, "*"))
		must(err)
		if len(names) != 2 {
			return fmt.Errorf("arguments %q: files were created: %v", cs.Args, names)
		}
		for name, want := range map[string][]byte{"in": in, "out.png": old} {
			if b, err := os.ReadFile(filepath.Join(dir, name)); err != nil || !bytes.Equal(b, want) {
				return fmt.Errorf("arguments %q: file %s was changed", cs.Args, name)
			}
		}
		o.Label("usage with %d arguments", len(cs.Args))
		o.NT()
		return nil
	}
	m := cs.M
	c, err := m.parse()
	if err != nil {
		return err
	}
	r := runCLI(dir, -1, "in", "out.png")
	if r.code != 0 {
		return fmt.Errorf("exit status %d for a readable composite: %.300s", r.code, r.stderr)
	}
	text := r.stdout
	_, forecast, _, format := m.wantMeta()
	for _, w := range []string{m.Product, unitName[m.unit()], forecast.Format("2006-01-02"), forecast.Format("15:04")} {
		if !strings.Contains(text, w) {
			return fmt.Errorf("product %s in %s for %v: %q is not reported: %q", m.Product, unitName[m.unit()], forecast, w, text)
		}
	}
	_, dy, _ := m.layers()
	g := refGrid(m.W, dy, format)
	found := extentRE.FindStringSubmatch(text)
	if g == nil {
		if found != nil {
			return fmt.Errorf("%dx%d pixels without projection, but an extent is reported: %q", m.W, dy, text)
		}
		o.Label("without grid")
	} else {
		if found == nil {
			return fmt.Errorf("%s grid: no extent is reported: %q", g.name, text)
		}
		x, err1 := strconv.ParseFloat(found[1], 64)
		y, err2 := strconv.ParseFloat(found[2], 64)
		wx, wy := c.Rx*float64(c.Dx), c.Ry*float64(c.Dy)
		if err1 != nil || err2 != nil || !near(x, wx, 0.51) || !near(y, wy, 0.51) || !near(x, float64(g.w), 2) || !near(y, float64(g.h), 2) {
			return fmt.Errorf("%s grid of %v km * %v km is reported as %q", g.name, wx, wy, text)
		}
		o.Label("%s grid", g.name)
	}
	if _, ok := m.field("VV"); ok {
		o.Label("with lead time")
	}
	o.Label("unit %s", unitName[m.unit()])
	o.NT()
	return nil
}

// ---------------------------------------------------------------- C24

type sameCase struct {
	M    *Model
	File []byte // an equivalent file
	How  []string
}

func checkSame(cs sameCase, o *Obs) error {
	a, err := cs.M.parse()
	if err != nil {
		return err
	}
	b, err := parseBytes(cs.File)
	if err := cs.M.accepted(b, err); err != nil {
		return fmt.Errorf("equivalent file (%s): %v", strings.Join(cs.How, ", "), err)
	}
	if cs.M.Enc == "sb" && strings.Contains(strings.Join(cs.How, ","), "two bytes") { // computed differently, perhaps
		if err := nearPlane(a.PlainData, b.PlainData); err != nil {
			return fmt.Errorf("equivalent files give different composites (%s): %v", strings.Join(cs.How, ", "), err)
		}
		for z := range b.DataZ {
			if z >= len(a.DataZ) {
				break
			}
			if err := nearPlane(a.DataZ[z], b.DataZ[z]); err != nil {
				return fmt.Errorf("equivalent files give different composites (%s): layer %d: %v", strings.Join(cs.How, ", "), z, err)
			}
		}
		b = shallow(b)
		b.PlainData, b.DataZ, b.Data = a.PlainData, a.DataZ, a.Data
	}
	if err := sameComposite(a, b); err != nil {
		return fmt.Errorf("equivalent files give different composites (%s): %v (headers %q, %q)", strings.Join(cs.How, ", "), err, cs.M.Header(len(cs.M.Payload())), cs.File[:headerLen(cs.File)])
	}
	for _, h := range cs.How {
		o.Label("%s", h)
	}
	o.Label("enc %s", cs.M.Enc)
	if len(cs.How) > 1 {
		o.NT()
	}
	return nil
}

func shallow(c *radolan.Composite) *radolan.Composite {
	d := *c
	return &d
}

// nearPlane compares up to rounding of single precision.
func nearPlane(a, b [][]float32) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d rows != %d", len(a), len(b))
	}
	for y := range a {
		if len(a[y]) != len(b[y]) {
			return fmt.Errorf("row %d: %d pixels != %d", y, len(a[y]), len(b[y]))
		}
		for x := range a[y] {
			v, w := float64(a[y][x]), float64(b[y][x])
			if !near(v, w, 4e-7*(math.Abs(v)+65)) {
				return fmt.Errorf("pixel (%d, %d): %v != %v", x, y, v, w)
			}
		}
	}
	return nil
}

// splitRuns writes a row differently.
func splitRuns(t *rapid.T, r Row, w int, levels int) Row {
	n := Row{Line: genLineNo(t), Off: r.Off}
	if r.Empty || r.NoOff { // nothing but gaps
		switch rapid.IntRange(0, 2).Draw(t, "gapRow") {
		case 0:
			n.Empty = true
		case 1:
			n.NoOff = true
		default:
			n.Off = rapid.IntRange(0, w).Draw(t, "gapOff")
		}
		return n
	}
	put := func(k int, l byte) {
		if k == 0 && l == 10 {
			return
		}
		n.Runs = append(n.Runs, byte(k<<4)|l)
	}
	if len(n.Runs) == 0 && n.Off > 0 && chance(t, "offsetAsGaps", 40) { // part of the offset as gaps
		less := rapid.IntRange(0, min(n.Off, 60)).Draw(t, "less")
		n.Off -= less
		for less > 0 {
			k := min(less, rapid.IntRange(1, 15).Draw(t, "gap"))
			put(k, 0)
			less -= k
		}
	}
	gap := func(l byte) bool { return l == 0 || int(l) > levels }
	used := n.Off
	for _, b := range n.Runs {
		used += int(b >> 4)
	}
	for i, b := range r.Runs {
		k, l := int(b>>4), b&15
		used += k
		if k == 0 && chance(t, "dropEmpty", 50) {
			continue
		}
		if gap(l) && chance(t, "otherGap", 50) { // another level without a value
			l = 0
			if levels < 15 && chance(t, "high", 50) {
				l = byte(rapid.IntRange(levels+1, 15).Draw(t, "gapLevel"))
			}
		}
		for k > 1 && chance(t, "split", 30) {
			p := rapid.IntRange(1, k-1).Draw(t, "part")
			put(p, l)
			k -= p
		}
		if chance(t, "emptyRun", 10) {
			put(0, byte(rapid.IntRange(0, 15).Draw(t, "emptyLevel")))
		}
		if k > 0 || b != 10 {
			put(k, l)
		}
		_ = i
	}
	if used < w && chance(t, "trailingGap", 30) {
		put(rapid.IntRange(0, min(15, w-used)).Draw(t, "tail"), 0)
	}
	return n
}

var someNumber = []string{"%4d", "%d", " %d", "%03d", " %03d", "%04d"}

// genSame draws a composite and an equivalent file of it.
func genSame(t *rapid.T) sameCase {
	o := GenOpts{MaxPix: 60}
	if chance(t, "grid", 5) {
		o.Shape = pick(t, "shape", [2]int{225, 225}, [2]int{115, 115}, [2]int{275, 300})
	}
	m := genModel(t, o)
	cs := sameCase{M: m}
	n := m.clone()
	how := func(s string) { cs.How = append(cs.How, s) }
	if chance(t, "order", 50) && len(n.Fields) > 1 {
		n.Fields = rapid.Permutation(n.Fields).Draw(t, "newOrder")
		n.BYPos = rapid.IntRange(0, len(n.Fields)).Draw(t, "newBY")
		how("field order")
	}
	if chance(t, "wmo", 40) {
		n.WMO = fmt.Sprintf("%05d", rapid.IntRange(0, 99999).Draw(t, "newWMO"))
		how("WMO number")
	}
	if chance(t, "pad", 40) {
		n.BYPad = rapid.IntRange(1, 12).Draw(t, "newPad")
		n.BYZero = chance(t, "newZero", 40)
		for i, f := range n.Fields {
			switch f.K {
			case "INT", "VV", "VS":
				n.Fields[i].V = fmt.Sprintf(rapid.SampledFrom(someNumber).Draw(t, "fmt"), atoi(f.V))
			case "PR":
				n.Fields[i].V = fmt.Sprintf(pick(t, "prfmt", " E%+03d", " E%d", " E %d", "  E%+02d ", " E%+05d"), n.Prec)
				if n.Prec == 0 && chance(t, "minusZero", 40) {
					n.Fields[i].V = " E-00"
				}
			}
		}
		how("padding")
	}
	if chance(t, "defaults", 40) {
		for _, d := range []Field{{"INT", "   0"}, {"VV", " 000"}, {"VS", " 0"}, {"PR", " E+00"}} {
			v, ok := n.field(d.K)
			switch {
			case !ok && chance(t, "write", 50):
				n.Fields = append(n.Fields, d)
				how("explicit " + d.K)
			case ok && d.K != "PR" && atoi(v) == 0 || ok && d.K == "PR" && n.Prec == 0:
				if chance(t, "omit", 50) {
					n.dropField(d.K)
					how("implicit " + d.K)
				}
			}
		}
		n.BYPos = min(n.BYPos, len(n.Fields))
	}
	if chance(t, "strange", 30) {
		at := rapid.IntRange(0, len(n.Fields)).Draw(t, "at")
		f := Field{pick(t, "k", "QQ", "U", "ZZZ", "MS", "SW", "MF", "HK"), pick(t, "v", " 5x 5", "  7", "<boo>", " 03", "  0.5", " 900x 900", "4711")}
		if chance(t, "longField", 15) {
			f.V = " <" + strings.Repeat(pick(t, "piece", "boo,", "ros 12,", "."), rapid.IntRange(20, 1500).Draw(t, "pieces")) + ">"
		}
		if _, ok := n.field(f.K); !ok {
			n.Fields = append(n.Fields[:at:at], append([]Field{f}, n.Fields[at:]...)...)
			how("field without meaning")
		}
	}
	if !n.Local && chance(t, "dims", 30) {
		_, gp := n.field("GP")
		n.dropField("GP")
		n.dropField("BG")
		f := Field{"GP", fmt.Sprintf(pick(t, "gp", "%4dx%4d", "%dx%d", " %dx%d", "%5dx%5d", "%9dx%9d", " %dx%4d   ", "%06dx%06d"), n.H, n.W)}
		if gp && n.W < 1000 && n.H < 1000 {
			f = Field{"BG", fmt.Sprintf("%03d%03d", n.H, n.W)}
		}
		n.Fields = append(n.Fields, f)
		n.BYPos = min(n.BYPos, len(n.Fields))
		how("dimensions")
	}
	if chance(t, "content", 60) {
		switch n.Enc {
		case "rl":
			rows := make([]Row, 0, n.H)
			for i := 0; i < n.H; i++ {
				r := *n.row(i)
				if i < 40 {
					r = splitRuns(t, r, n.W, len(n.Levels))
				}
				rows = append(rows, r)
			}
			n.Rows = rows
			how("runs")
		case "sb":
			k := n.W * n.H
			codes := make([]uint16, k)
			for i := range codes {
				if codes[i] = m.code(i) & 0xFF; codes[i] == 250 {
					codes[i] = 0x29C4
				}
			}
			n.Enc, n.Codes = "le", codes
			how("two bytes per pixel")
		default:
			k := n.W * n.H
			codes := make([]uint16, k)
			seed := rapid.Uint64().Draw(t, "bits")
			for i := range codes {
				z := mix(seed, i)
				codes[i] = m.code(i) ^ uint16(z)&0x9000
				if codes[i]&0x2000 != 0 {
					codes[i] ^= uint16(z>>16) & 0xDFFF
				}
			}
			n.Codes = codes
			how("unused bits")
		}
	}
	n.Trailer = m.Trailer
	if chance(t, "surplus", 50) {
		n.Trailer = rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "trailer")
		if chance(t, "much", 10) {
			n.Trailer = bytes.Repeat(n.Trailer, 400)
		}
		how("surplus bytes")
	}
	cs.File = n.Bytes()
	return cs
}

// ---------------------------------------------------------------- C25

type placeCase struct {
	M      *Model
	Points [][2]F // positions in pixels
	Lines  uint64 `json:",omitempty"` // if set also along rows, columns and the diagonal
}

// points yields the positions to look at, row by row.
func (cs *placeCase) points(yield func(px, py float64) bool) {
	for _, p := range cs.Points {
		if !yield(float64(p[0]), float64(p[1])) {
			return
		}
	}
	if cs.Lines == 0 {
		return
	}
	w, h := cs.M.W, cs.M.H
	z := mix(cs.Lines, 0)
	row := int(z>>1) % h
	cols := []int{0, 1, w - 1, int(z>>20) % w, 1000 % w}
	at := func(x, y int) bool {
		v := mix(z, x^y<<16)
		return yield(float64(x)+float64(v%97+2)/100, float64(y)+float64(v>>8%97+2)/100)
	}
	for y := 0; y < h; y++ {
		if y < 2 || y == h-1 || y == row {
			for x := 0; x < w; x++ {
				if !at(x, y) {
					return
				}
			}
		}
		for _, x := range append([]int{y % w}, cols...) {
			if !at(x, y) {
				return
			}
		}
	}
}

func checkPlace(cs placeCase, o *Obs) error {
	m := cs.M
	_, _, _, format := m.wantMeta()
	g := refGrid(m.W, m.H, format)
	if g == nil {
		fatal("no grid for %dx%d version %d", m.W, m.H, format)
	}
	c, err := m.parse()
	if err != nil {
		return err
	}
	img := vis.Image(func(v float64) color.RGBA {
		b := math.Float32bits(float32(v))
		return color.RGBA{byte(b >> 16), byte(b >> 8), byte(b), 255}
	}, c, 0)
	row, rowAt := []want(nil), -1
	for px, py := range cs.points {
		x, y := int(math.Floor(px)), int(math.Floor(py))
		lat, lon := g.unproject(m.W, m.H, px, py)
		fx, fy := c.Project(lat, lon)
		qx, qy := int(math.Floor(fx)), int(math.Floor(fy))
		w := want{nan: true}
		if x >= 0 && y >= 0 && x < m.W && y < m.H {
			if rowAt != y {
				row, rowAt = m.plainRow(y), y
			}
			w = row[x]
			o.Label("inside")
			if !w.nan {
				o.NT()
			}
		} else {
			o.Label("outside")
		}
		if got := c.At(qx, qy); !w.ok(got) {
			return fmt.Errorf("%s grid %dx%d: the value at %v N, %v E (position %v, %v) is %v, encoded there is %v", g.name, m.W, m.H, lat, lon, fx, fy, got, w)
		}
		if x >= 0 && y >= 0 && x < m.W && y < m.H {
			b := math.Float32bits(c.At(qx, qy))
			if got := rgba8(img.At(qx, qy)); !w.nan && got != (color.RGBA{byte(b >> 16), byte(b >> 8), byte(b), 255}) {
				return fmt.Errorf("%s grid %dx%d: the image shows something else at %v N, %v E", g.name, m.W, m.H, lat, lon)
			}
		}
	}
	o.Label("%s, enc %s", g.name, m.Enc)
	return nil
}

func genPlace(t *rapid.T, size int) placeCase {
	s := rapid.SampledFrom(gridShapes).Draw(t, "shape")
	switch size {
	case 1:
		k := rapid.IntRange(1, 2).Draw(t, "k")
		s[0], s[1] = s[0]<<k, s[1]<<k
	case 2: // pixels of half a km
		s[0], s[1] = s[0]<<3, s[1]<<3
	}
	if size == 2 && chance(t, "de1200", 40) {
		s = [2]int{2200, 2400}
	}
	m := genModel(t, GenOpts{Local: -1, Known: true, Shape: s, MaxPix: 1, Products: nil})
	if s == [2]int{2200, 2400} && chance(t, "wgs84", 70) {
		m.setField("VS", pick(t, "vs5", " 5", " 5", " 6", "5"))
	}
	if v, ok := m.field("VS"); ok && atoi(v) >= 5 && refGrid(s[0], s[1], atoi(v)) == nil {
		m.setField("VS", fmt.Sprintf("%2d", rapid.IntRange(0, 4).Draw(t, "vs")))
	}
	if m.Enc == "rl" { // rows that differ
		m.Rows = nil
		for i := 0; i < 97; i++ {
			z := mix(7, i)
			r := Row{Line: 40, Off: int(z % 60)}
			for x := r.Off; x+15 < m.W; {
				k := int(z>>8)%15 + 1
				z = mix(z, x)
				r.Runs = append(r.Runs, byte(k<<4)|byte(z>>40)&15)
				x += k
			}
			m.Rows = append(m.Rows, r)
		}
	}
	cs := placeCase{M: m}
	n := rapid.IntRange(1, 30).Draw(t, "points")
	for i := 0; i < n; i++ {
		x, y := rapid.IntRange(-2, m.W+1).Draw(t, "x"), rapid.IntRange(-2, m.H+1).Draw(t, "y")
		switch rapid.IntRange(0, 5).Draw(t, "where") {
		case 0:
			x = pick(t, "xEdge", -1, 0, m.W-1, m.W)
		case 1:
			y = pick(t, "yEdge", -1, 0, m.H-1, m.H)
		}
		fx, fy := rapid.IntRange(1, 99).Draw(t, "fx"), rapid.IntRange(1, 99).Draw(t, "fy")
		cs.Points = append(cs.Points, [2]F{F(float64(x) + float64(fx)/100), F(float64(y) + float64(fy)/100)})
	}
	return cs
}

func init() {
	register(&Prop{
		ID:     "C23",
		CLI:    true,
		Rule:   "random composites of every product, unit and lead time, on every grid and none, converted by the radolan2png binary; and every grid in sizes of 4 km to half a km per pixel in several versions; the program's standard output is searched for product label, unit, date and time of the forecast and (exactly with a projection) the extent in km, compared with what the library reports; and calls with no or one argument in a directory with input and output files. Every case is non-trivial; distinct by case content.",
		Assume: []string{"only the presence of the facts is checked, not the wording (the extent is recognised as two numbers followed by km)"},
		Sections: []Section{
			Rand("report", 1600, 25000, func(t *rapid.T) reportCase {
				o := GenOpts{Known: true, Local: -1}
				if chance(t, "grid", 15) {
					o.Shape = rapid.SampledFrom(gridShapes).Draw(t, "shape")
				}
				m := genModel(t, o)
				if chance(t, "farAhead", 10) {
					m.dropField("VV")
					m.Fields = append(m.Fields, Field{"VV", fmt.Sprintf(" %d", rapid.IntRange(1000, 9999).Draw(t, "lead"))})
				}
				return reportCase{M: m}
			}, checkReport),
			Rand("local", 24, 300, func(t *rapid.T) reportCase { return reportCase{M: genModel(t, GenOpts{Local: 1})} }, checkReport),
			Enum("grids", func(tier string, yield func(reportCase) bool) {
				for _, s := range gridShapes {
					for k := 1; k <= 8; k *= 2 {
						for _, vs := range []int{0, 4, 5, 6} {
							if k == 8 && tier == "quick" && vs%5 != 0 || k == 8 && vs >= 5 && refGrid(s[0], s[1], vs) == nil {
								continue
							}
							m := tiny("WN")
							m.Enc, m.W, m.H, m.Codes = "sb", s[0]*k, s[1]*k, []uint16{70, 71, 250}
							m.setField("GP", fmt.Sprintf("%4dx%4d", m.H, m.W))
							m.setField("VS", fmt.Sprintf("%2d", vs))
							if !yield(reportCase{M: m}) {
								return
							}
						}
					}
				}
			}, checkReport),
			Enum("usage", func(tier string, yield func(reportCase) bool) {
				for _, a := range [][]string{{}, {"in"}, {"out.png"}, {"missing"}, {""}, {"-h"}, {"--help"}} {
					if !yield(reportCase{M: tiny("RX"), Args: a}) {
						return
					}
				}
			}, checkReport),
		},
	})
	register(&Prop{
		ID:     "C24",
		Rule:   "random composites, each with a second file that differs in a random selection of what the format gives no meaning: order of fields, padding of numbers, WMO number, fields without meaning, default values written or omitted, GP or BG, unused flag bits and the remaining bits of no-data pixels, one or two bytes per pixel, the way a run-length row is cut into offset and runs, levels without a value, line numbers, bytes behind the data. Both parse to equal composites. Non-trivial: at least two of these at once. Distinct by case content.",
		Assume: []string{"the same restrictions on headers and rows as for C05 and C06"},
		Sections: []Section{
			Rand("equivalent", 16000, 300000, genSame, checkSame),
		},
	})
	register(&Prop{
		ID:     "C25",
		Rule:   "random composites of all encodings on all recognised grids (up to 8 times the smallest size, pixels of half a km; every grid, size, encoding and version enumerated) and random positions in and around the grid; the position's coordinates are computed by the independent inverse, projected by the code and the value at that pixel compared with what the file encodes for the row and column there (and the rendered image with it), NaN outside. Non-trivial: a point inside with a value. Distinct by case content.",
		Assume: []string{"positions nearer than 0.01 pixels to a pixel boundary are not generated"},
		Sections: []Section{
			Rand("places", 300, 6000, func(t *rapid.T) placeCase { return genPlace(t, 0) }, checkPlace),
			Rand("large", 40, 800, func(t *rapid.T) placeCase { return genPlace(t, 1) }, checkPlace),
			Enum("sizes", func(tier string, yield func(placeCase) bool) {
				n := 0
				for _, s := range gridShapes {
					for k := 0; s[0]<<k <= 3000; k++ {
						for _, enc := range []string{"le", "sb", "rl"} {
							for _, vs := range []string{" 3", " 5"} {
								w, h := s[0]<<k, s[1]<<k
								if refGrid(w, h, atoi(vs)) == nil || tier == "quick" && w*h > 1<<22 && n%4 > 0 {
									n++
									continue
								}
								n++
								m := largeModel(enc, pickAt(n/5, "RX", "PG", "RW", "WX", "FZ", "EX", "PX"), w, h, uint64(n))
								m.setField("VS", vs)
								cs := placeCase{M: m, Lines: uint64(n)}
								for i := 0; i < 60; i++ {
									z := mix(uint64(n), i)
									cs.Points = append(cs.Points, [2]F{F(float64(int(z>>1)%w) + float64(z%97+2)/100), F(float64(int(z>>33)%h) + float64(z>>8%97+2)/100)})
								}
								if !yield(cs) {
									return
								}
							}
						}
					}
				}
			}, checkPlace),
			Rand("fine", 16, 200, func(t *rapid.T) placeCase { return genPlace(t, 2) }, checkPlace),
		},
	})
}
