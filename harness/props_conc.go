package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"image/color"
	"math"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C22

// interleaveCase parses several inputs at the same time. Every read of every
// parser waits for its turn; the turns are given in a drawn order.
type interleaveCase struct {
	Inputs   []input
	Schedule []int
	Rounds   int
}

type input struct {
	M       *Model
	Cut     int // keep this many bytes only (-1: all)
	Archive []*Model
	D       Delivery
}

type outcome struct {
	cs  []*radolan.Composite
	err error
}

func (in *input) bytes() []byte {
	if in.Archive != nil {
		a := archiveCase{Format: 1, Cut: -1, TarCut: -1}
		for _, m := range in.Archive {
			a.Entries = append(a.Entries, archiveEntry{M: m, Name: "e"})
		}
		b, _, _ := a.tarBytes()
		z, _ := bzCompress(b, BzOpts{Level: 1})
		return z
	}
	b := in.M.Bytes()
	if in.Cut >= 0 && in.Cut < len(b) {
		b = b[:in.Cut]
	}
	return b
}

func (in *input) parse(data []byte, onRead func()) (out outcome) {
	rd := &scriptReader{data: data, d: in.D, onRead: onRead}
	if in.Archive != nil {
		out.cs, out.err = radolan.NewComposites(rd)
		return
	}
	c, err := radolan.NewComposite(rd)
	if err == nil || errors.Is(err, radolan.ErrUnknownUnit) {
		out.cs = []*radolan.Composite{c}
	}
	out.err = err
	return
}

func sameOutcome(a, b outcome) error {
	if (a.err == nil) != (b.err == nil) || errors.Is(a.err, radolan.ErrUnknownUnit) != errors.Is(b.err, radolan.ErrUnknownUnit) {
		return fmt.Errorf("error %v, but %v alone", a.err, b.err)
	}
	if len(a.cs) != len(b.cs) {
		return fmt.Errorf("%d composites, but %d alone", len(a.cs), len(b.cs))
	}
	if len(a.cs) > 1 { // order of equal forecast times is free
		for i := range a.cs {
			if !a.cs[i].ForecastTime.Equal(b.cs[i].ForecastTime) {
				return fmt.Errorf("composite %d: forecast time %v, but %v alone", i, a.cs[i].ForecastTime, b.cs[i].ForecastTime)
			}
		}
		return nil
	}
	for i := range a.cs {
		if err := sameComposite(a.cs[i], b.cs[i]); err != nil {
			return fmt.Errorf("composite %d: %v", i, err)
		}
	}
	return nil
}

func checkInterleaved(cs interleaveCase, o *Obs) error {
	n := len(cs.Inputs)
	data := make([][]byte, n)
	alone := make([]outcome, n)
	for i := range cs.Inputs {
		data[i] = cs.Inputs[i].bytes()
		alone[i] = cs.Inputs[i].parse(data[i], nil)
		if m := cs.Inputs[i].M; m != nil && cs.Inputs[i].Cut < 0 {
			if len(alone[i].cs) != 1 {
				return fmt.Errorf("input %d: %v", i, alone[i].err)
			}
			if err := m.checkPlain(alone[i].cs[0]); err != nil {
				return fmt.Errorf("input %d alone: %v", i, err)
			}
		}
	}
	got := make([]outcome, n)
	type event struct {
		who  int
		done bool
	}
	events := make(chan event)
	turn := make([]chan struct{}, n)
	panics := make([]error, n)
	for i := range cs.Inputs {
		turn[i] = make(chan struct{})
		go func(i int) {
			defer func() {
				if p := recover(); p != nil {
					panics[i] = fmt.Errorf("panic: %v", p)
				}
				events <- event{i, true}
			}()
			got[i] = cs.Inputs[i].parse(data[i], func() {
				events <- event{i, false}
				<-turn[i]
			})
		}(i)
	}
	// all parsers run until they read or end; then one gets its turn
	waiting := make([]bool, n)
	live, running, step, switches, last := n, n, 0, 0, -1
	for live > 0 {
		for running > 0 {
			e := <-events
			running--
			if e.done {
				live--
			} else {
				waiting[e.who] = true
			}
		}
		if live == 0 {
			break
		}
		k := 0
		if len(cs.Schedule) > 0 {
			k = cs.Schedule[step%len(cs.Schedule)]
		}
		step++
		for i := 0; i < n; i++ {
			if j := (k + i) % n; waiting[j] {
				waiting[j] = false
				running++
				if j != last {
					switches++
				}
				last = j
				turn[j] <- struct{}{}
				break
			}
		}
	}
	for i := range got {
		if panics[i] != nil {
			return fmt.Errorf("input %d of %d parsed interleaved: %v", i, n, panics[i])
		}
		if err := sameOutcome(got[i], alone[i]); err != nil {
			return fmt.Errorf("input %d of %d parsed interleaved: %v", i, n, err)
		}
	}
	if switches > n+2 {
		o.NT()
	}
	o.Label("parsers %d", n)
	return nil
}

func genInput(t *rapid.T, archives bool) input {
	in := input{Cut: -1, D: genDelivery(t)}
	if archives && chance(t, "archive", 15) {
		for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
			in.Archive = append(in.Archive, genModel(t, GenOpts{Known: true, Local: -1, MaxPix: 10, Small: true}))
		}
		return in
	}
	in.M = genModel(t, GenOpts{Local: -1, MaxPix: 30})
	if chance(t, "cutShort", 10) {
		in.Cut = rapid.IntRange(0, len(in.M.Bytes())-1).Draw(t, "cut")
	}
	if len(in.D.Chunks) == 0 {
		in.D.Chunks = []int{rapid.IntRange(5, 60).Draw(t, "chunk")}
	}
	return in
}

// historyCase is a sequence of operations; composites that were returned
// earlier must not change.
type historyCase struct {
	Ops []histOp
}

type histOp struct {
	Kind string // parse, dummy, archive, bad, project, read, image, rate
	In   *input `json:",omitempty"`
	On   int    // composite to work on
	A, B F
	I, J int
}

func checkHistory(cs historyCase, o *Obs) error {
	var live, snaps []*radolan.Composite
	var lists, copies [][]*radolan.Composite // results of archives
	add := func(c *radolan.Composite) {
		live = append(live, c)
		snaps = append(snaps, snapshot(c))
	}
	presetRates := func() [4]float64 {
		return [4]float64{radolan.PrecipitationRate(radolan.Aniol80, 31.5), radolan.PrecipitationRate(radolan.Doelling98, 31.5),
			radolan.PrecipitationRate(radolan.JossWaldvogel70, 31.5), radolan.PrecipitationRate(radolan.MarshallPalmer55, 31.5)}
	}
	rates := presetRates()
	parses := 0
	for i, op := range cs.Ops {
		switch op.Kind {
		case "parse", "archive", "bad":
			data := op.In.bytes()
			out := op.In.parse(data, nil)
			again := op.In.parse(data, nil)
			if err := sameOutcome(out, again); err != nil {
				return fmt.Errorf("step %d: parsed twice: %v", i, err)
			}
			for _, c := range out.cs {
				add(c)
			}
			lists = append(lists, out.cs)
			copies = append(copies, append([]*radolan.Composite{}, out.cs...))
			parses++
			if op.Kind == "parse" {
				if len(out.cs) != 1 {
					return fmt.Errorf("step %d: %v", i, out.err)
				}
				if err := op.In.M.checkPlain(out.cs[0]); err != nil {
					return fmt.Errorf("step %d: %v", i, err)
				}
				if err := op.In.M.checkMeta(out.cs[0]); err != nil {
					return fmt.Errorf("step %d: %v", i, err)
				}
			}
		case "dummy":
			s := gridShapes[op.I%len(gridShapes)]
			c := radolan.NewDummy("WX", op.J, s[0], s[1])
			add(c)
			g := refGrid(s[0], s[1], op.J)
			if c.HasProjection != (g != nil) {
				return fmt.Errorf("step %d: HasProjection of %dx%d version %d is %v", i, s[0], s[1], op.J, c.HasProjection)
			}
			if g != nil {
				x, y := c.Project(float64(op.A), float64(op.B))
				wx, wy := g.project(s[0], s[1], float64(op.A), float64(op.B))
				if !near(x, wx, 1e-6*(1+math.Abs(wx))) || !near(y, wy, 1e-6*(1+math.Abs(wy))) {
					return fmt.Errorf("step %d: Project gives (%v, %v), want (%v, %v)", i, x, y, wx, wy)
				}
			}
		case "rate":
			zr := radolan.NewZR(100+math.Abs(float64(op.A)), 1.1+math.Abs(float64(op.B))/100)
			radolan.Reflectivity(zr, radolan.PrecipitationRate(zr, 20))
		}
		if len(live) > 0 {
			c := live[op.On%len(live)]
			switch op.Kind {
			case "project":
				c.Project(float64(op.A), float64(op.B))
			case "read":
				c.At(op.I, op.J)
				c.AtZ(op.J, op.I, op.On)
			case "image":
				vis.Image(vis.Heatmap(0.1, 100, vis.Log), c, op.I%(c.Dz+1))
				vis.Image(func(v float64) color.RGBA { return color.RGBA{byte(v), 1, 2, 3} }, c, 0)
			}
		}
		for k := range live {
			if err := sameComposite(live[k], snaps[k]); err != nil {
				return fmt.Errorf("step %d (%s) changed composite %d: %v", i, op.Kind, k, err)
			}
		}
		for k := range lists {
			for n := range lists[k] {
				if lists[k][n] != copies[k][n] {
					return fmt.Errorf("step %d (%s) replaced composite %d of an earlier result", i, op.Kind, n)
				}
			}
		}
		if presetRates() != rates {
			return fmt.Errorf("step %d (%s) changed a predefined Z-R relationship", i, op.Kind)
		}
		o.Label("%s", op.Kind)
	}
	if parses >= 2 && len(cs.Ops) >= 4 {
		o.NT()
	}
	return nil
}

// atOnce runs all functions concurrently and returns an error of one.
func atOnce(fs []func() error) error {
	errs := make([]error, len(fs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					errs[i] = fmt.Errorf("panic: %v", p)
				}
			}()
			<-start
			errs[i] = fs[i]()
		}()
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

// mixedCase has independent tasks, each of which knows its right result, run at
// the same time.
type mixedCase struct {
	Tasks []task
	Times int // how often every task is done in a row
}

type task struct {
	Parse   *Model      `json:",omitempty"`
	Image   *imageCase  `json:",omitempty"`
	Grid    *gridCase   `json:",omitempty"`
	Project *projCase   `json:",omitempty"`
	Res     *resCase    `json:",omitempty"`
	Preset  *presetCase `json:",omitempty"`
	ZR      *zrCase     `json:",omitempty"`
}

func (k *task) kind() string {
	switch {
	case k.Parse != nil:
		return "parse"
	case k.Image != nil:
		return "image"
	case k.Grid != nil:
		return "grid"
	case k.Project != nil:
		return "project"
	case k.Res != nil:
		return "resolution"
	case k.Preset != nil:
		return "preset"
	}
	return "zr"
}

func (k *task) do() error {
	o := &Obs{}
	switch k.kind() {
	case "parse":
		c, err := k.Parse.parse()
		if err != nil {
			return err
		}
		if err := k.Parse.checkMeta(c); err != nil {
			return err
		}
		if err := k.Parse.checkPlain(c); err != nil {
			return err
		}
		return k.Parse.checkLayers(c)
	case "image":
		return checkImage(*k.Image, o)
	case "grid":
		return checkGrid(*k.Grid, o)
	case "project":
		return checkProjection(*k.Project, o)
	case "resolution":
		return checkRes(*k.Res, o)
	case "preset":
		return checkPreset(*k.Preset, o)
	}
	return checkZR(*k.ZR, o)
}

func (cs *mixedCase) run() error {
	var fs []func() error
	for i := range cs.Tasks {
		fs = append(fs, func() error {
			for j := 0; j < max(1, cs.Times); j++ {
				if err := cs.Tasks[i].do(); err != nil {
					return fmt.Errorf("task %d (%s) of %d at the same time: %v", i, cs.Tasks[i].kind(), len(cs.Tasks), err)
				}
			}
			return nil
		})
	}
	return atOnce(fs)
}

func checkMixed(cs mixedCase, o *Obs) error {
	if len(cs.Tasks) > 1 {
		o.NT()
	}
	for i := range cs.Tasks {
		o.Label("%s", cs.Tasks[i].kind())
	}
	return cs.run()
}

// checkCold does the same in a fresh process that has not called the library before.
func checkCold(cs mixedCase, o *Obs) error {
	if len(cs.Tasks) > 1 {
		o.NT()
	}
	for i := range cs.Tasks {
		o.Label("%s", cs.Tasks[i].kind())
	}
	b, err := json.Marshal(cs)
	must(err)
	self, err := os.Executable()
	must(err)
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self)
	cmd.Env = append(os.Environ(), "VERIF_COLD=1", "GORACE=halt_on_error=1 exitcode=66")
	cmd.Stdin = bytes.NewReader(b)
	out, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		fatal("tasks do not end within 120 s")
	}
	if err == nil {
		return nil
	}
	text := string(out)
	var ee *exec.ExitError
	if !errors.As(err, &ee) {
		fatal("cannot run the tasks: %v", err)
	}
	switch {
	case ee.ExitCode() == 1:
		return fmt.Errorf("first use of the library: %s", tail(text, 3000))
	case ee.ExitCode() == 66 && strings.Contains(text, "DATA RACE"):
		return fmt.Errorf("first use of the library: data race detected:\n%s", tail(text, 3000))
	case concurrentMap(text):
		return fmt.Errorf("first use of the library: %s", tail(text, 3000))
	}
	fatal("tasks: %v: %s", err, tail(text, 3000))
	return nil
}

// concurrentMap recognises the runtime's own race detection.
func concurrentMap(text string) bool {
	return strings.Contains(text, "fatal error: concurrent map")
}

// coldMain is the fresh process.
func coldMain() int {
	limitMemory()
	var cs mixedCase
	if err := json.NewDecoder(os.Stdin).Decode(&cs); err != nil {
		fmt.Println(err)
		return 3
	}
	if err := cs.run(); err != nil {
		fmt.Println(err)
		return 1
	}
	return 0
}

func genMixed(most int) func(*rapid.T) mixedCase {
	return func(t *rapid.T) mixedCase {
		cs := mixedCase{Times: rapid.IntRange(1, 3).Draw(t, "times")}
		focus := rapid.IntRange(0, 9).Draw(t, "focus") // often all of one kind
		for i := rapid.IntRange(2, most).Draw(t, "tasks"); i > 0; i-- {
			kind := focus
			if kind > 6 {
				kind = rapid.IntRange(0, 6).Draw(t, "kind")
			}
			var k task
			switch kind {
			case 0:
				o := GenOpts{Local: -1, MaxPix: 60}
				if chance(t, "grid", 25) {
					o.Shape = rapid.SampledFrom(gridShapes).Draw(t, "shape")
					o.MaxPix = 1
				}
				k.Parse = genModel(t, o)
			case 1:
				im := genImage(rapid.SampledFrom([]int{-1, -1, 0}).Draw(t, "image"))(t)
				k.Image = &im
			case 2:
				g := gridCase{Product: genAnyProduct(t), Format: rapid.IntRange(0, 7).Draw(t, "format")}
				g.W, g.H = genShape(t, false)
				g.Points = genPoints(t, rapid.IntRange(1, 5).Draw(t, "n"))
				k.Grid = &g
			case 3, 4:
				p := genProj(t, rapid.Bool().Draw(t, "wgs"))
				p.Parsed = false
				k.Project = &p
			case 5:
				r := resCase{Product: genAnyProduct(t), Format: rapid.IntRange(0, 7).Draw(t, "format")}
				r.W, r.H = genShape(t, false)
				p := genPoints(t, 2)
				r.A, r.B = p[0], p[1]
				k.Res = &r
			default:
				k.Preset = &presetCase{rapid.SampledFrom(sortedKeys(presets)).Draw(t, "relation"), rapid.IntRange(-500, 900).Draw(t, "dbz")}
			}
			cs.Tasks = append(cs.Tasks, k)
		}
		return cs
	}
}

// sharedCase has several goroutines work on the same composite while others
// parse, without any schedule.
type sharedCase struct {
	M       *Model
	Others  []*Model
	Readers int
	Seed    uint64
}

func checkShared(cs sharedCase, o *Obs) error {
	c, err := cs.M.parse()
	if err != nil {
		return err
	}
	snap := snapshot(c)
	heat := vis.Heatmap(-20, 60, vis.Id)
	points := make([][2]float64, 40)
	for i := range points {
		points[i] = [2]float64{45 + float64(mix(cs.Seed, i)%1000)/100, 2 + float64(mix(cs.Seed, i+999)%1500)/100}
	}
	type res struct {
		proj [][2]float64
		vals []float32
		pix  [][]byte
		rate []float64
	}
	work := func() (r res) {
		for _, p := range points {
			x, y := c.Project(p[0], p[1])
			r.proj = append(r.proj, [2]float64{x, y})
			v := c.At(int(p[0]*7)%(c.Dx+2)-1, int(p[1]*7)%(c.Dy+2)-1)
			r.vals = append(r.vals, v, c.AtZ(0, 0, int(p[0])%(c.Dz+1)))
			r.rate = append(r.rate, radolan.PrecipitationRate(radolan.Aniol80, v))
		}
		for z := -1; z <= min(c.Dz, 2); z++ {
			r.pix = append(r.pix, vis.Image(heat, c, z).Pix)
			r.pix = append(r.pix, vis.Image(vis.HeatmapReflectivity, c, z).Pix)
			r.pix = append(r.pix, vis.Image(vis.HeatmapRadialVelocity, c, z).Pix)
		}
		return
	}
	same := func(a, b res) error {
		for i := range a.proj {
			if !same64(a.proj[i][0], b.proj[i][0]) || !same64(a.proj[i][1], b.proj[i][1]) {
				return fmt.Errorf("Project(%v) is %v, alone %v", points[i], b.proj[i], a.proj[i])
			}
		}
		for i := range a.vals {
			if !same32(a.vals[i], b.vals[i]) {
				return fmt.Errorf("reading gives %v, alone %v", b.vals[i], a.vals[i])
			}
		}
		for i := range a.rate {
			if !same64(a.rate[i], b.rate[i]) {
				return fmt.Errorf("rate %v, alone %v", b.rate[i], a.rate[i])
			}
		}
		for i := range a.pix {
			if !bytes.Equal(a.pix[i], b.pix[i]) {
				return fmt.Errorf("image %d differs from the one drawn alone", i)
			}
		}
		return nil
	}
	var fs []func() error
	run := func(f func() error) { fs = append(fs, f) }
	results := make([]res, cs.Readers)
	for i := range results {
		run(func() error {
			results[i] = work()
			return nil
		})
	}
	for i := range cs.Others {
		m := cs.Others[i]
		run(func() error {
			d, err := m.parse()
			if err != nil {
				return err
			}
			if err := m.checkMeta(d); err != nil {
				return err
			}
			if err := m.checkPlain(d); err != nil {
				return err
			}
			return nil
		})
		run(func() error {
			_, dy, _ := m.layers()
			_, _, _, format := m.wantMeta()
			d := radolan.NewDummy(m.Product, format, m.W, dy)
			g := refGrid(m.W, dy, format)
			for _, p := range points {
				x, y := d.Project(p[0], p[1])
				wx, wy := math.NaN(), math.NaN()
				if g != nil {
					wx, wy = g.project(m.W, dy, p[0], p[1])
				}
				if !near(x, wx, 1e-6*(1+math.Abs(wx))) || !near(y, wy, 1e-6*(1+math.Abs(wy))) {
					return fmt.Errorf("blank composite %dx%d version %d projects %v to (%v, %v), want (%v, %v)", m.W, dy, format, p, x, y, wx, wy)
				}
			}
			return nil
		})
	}
	err = atOnce(fs)
	alone := work()
	for i := range results {
		if err == nil {
			err = same(alone, results[i])
		}
	}
	if err != nil {
		return fmt.Errorf("%d readers, %d other parsers: %v", cs.Readers, len(cs.Others), err)
	}
	if err := sameComposite(c, snap); err != nil {
		return fmt.Errorf("composite changed by concurrent use: %v", err)
	}
	o.Label("projection %v", c.HasProjection)
	if cs.Readers >= 2 {
		o.NT()
	}
	return nil
}

func init() {
	register(&Prop{
		ID:     "C22",
		Race:   true,
		Rule:   "2-5 parsers (composites, truncated composites, archives) whose every read waits for its turn in a random schedule, compared with parsing alone; random histories of parsing, blank composites, projecting, reading, rendering and conversions where every composite returned earlier is compared with a deep copy after every step; 2-8 goroutines reading, projecting and rendering one composite while others parse, compared with one goroutine. A quarter of the same searches runs in a build with the race detector. Non-trivial: more turns change hands than parsers + 2; histories with at least two parses and four steps; at least two readers. Distinct by case content.",
		Assume: []string{"the free-running section relies on the Go scheduler and the race detector; its interleavings are sampled, not enumerated"},
		Sections: []Section{
			Rand("interleaved", 4000, 60000, func(t *rapid.T) interleaveCase {
				cs := interleaveCase{}
				for i := rapid.IntRange(2, 5).Draw(t, "parsers"); i > 0; i-- {
					cs.Inputs = append(cs.Inputs, genInput(t, true))
				}
				for i := rapid.IntRange(1, 20).Draw(t, "turns"); i > 0; i-- {
					cs.Schedule = append(cs.Schedule, rapid.IntRange(0, 4).Draw(t, "turn"))
				}
				return cs
			}, checkInterleaved),
			Rand("history", 2400, 40000, func(t *rapid.T) historyCase {
				cs := historyCase{}
				for i := rapid.IntRange(2, 12).Draw(t, "steps"); i > 0; i-- {
					op := histOp{Kind: pick(t, "kind", "parse", "parse", "parse", "archive", "bad", "dummy", "dummy", "project", "read", "image", "rate")}
					switch op.Kind {
					case "parse":
						in := genInput(t, false)
						in.Cut = -1
						op.In = &in
					case "bad":
						in := genInput(t, false)
						in.Cut = rapid.IntRange(0, len(in.M.Bytes())-1).Draw(t, "badCut")
						op.In = &in
					case "archive":
						in := input{Cut: -1, D: Delivery{FailAt: -1}}
						for j := rapid.IntRange(1, 4).Draw(t, "n"); j > 0; j-- {
							in.Archive = append(in.Archive, genModel(t, GenOpts{Known: true, Local: -1, MaxPix: 10, Small: true}))
						}
						op.In = &in
					}
					op.On = rapid.IntRange(0, 20).Draw(t, "on")
					op.A, op.B = F(rapid.Float64Range(45, 56).Draw(t, "a")), F(rapid.Float64Range(2, 17).Draw(t, "b"))
					op.I, op.J = rapid.IntRange(0, 8).Draw(t, "i"), rapid.IntRange(0, 8).Draw(t, "j")
					cs.Ops = append(cs.Ops, op)
				}
				return cs
			}, checkHistory),
			Rand("shared", 600, 10000, func(t *rapid.T) sharedCase {
				o := GenOpts{MaxPix: 20, Local: -1}
				switch rapid.IntRange(0, 9).Draw(t, "what") {
				case 0, 1, 2:
					o.Shape = gridShapes[rapid.IntRange(0, len(gridShapes)-1).Draw(t, "grid")]
				case 3:
					o.Local = 1
				}
				cs := sharedCase{M: genModel(t, o), Readers: rapid.IntRange(2, 8).Draw(t, "readers"), Seed: rapid.Uint64().Draw(t, "seed")}
				for i := rapid.IntRange(0, 4).Draw(t, "others"); i > 0; i-- {
					oo := GenOpts{Local: -1, MaxPix: 20}
					if chance(t, "othersGrid", 20) {
						oo.Shape = rapid.SampledFrom(gridShapes).Draw(t, "otherShape")
					}
					cs.Others = append(cs.Others, genModel(t, oo))
				}
				return cs
			}, checkShared),
			Rand("mixed", 1600, 30000, genMixed(8), checkMixed),
			Rand("cold", 480, 6000, genMixed(6), checkCold),
		},
	})
}
