package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"
	"unsafe"

	"gitlab.cs.fau.de/since/radolan"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C02

type accessCase struct {
	M   *Model
	Pos [][3]int
}

var extremes = []int{-1, math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32, -2, 1 << 32, -(1 << 32), 1 << 31, 1 << 62, -(1 << 62)}

func genIndex(t *rapid.T, n int) int {
	switch rapid.IntRange(0, 3).Draw(t, "ik") {
	case 0:
		return rapid.SampledFrom(extremes).Draw(t, "ix")
	case 1:
		return rapid.SampledFrom([]int{0, n - 1, n, n + 1, 2 * n, -n, -n - 1}).Draw(t, "in")
	case 2:
		return rapid.IntRange(0, max(0, n-1)).Draw(t, "ii")
	}
	return rapid.IntRange(-3, min(max(n, 0), 1<<30)+3).Draw(t, "ir")
}

func checkAccess(cs accessCase, o *Obs) error {
	m := cs.M
	c, err := m.parse()
	if err != nil {
		return err
	}
	if c.Dx <= 0 || c.Dy <= 0 || c.Dz <= 0 {
		return fmt.Errorf("dimensions %dx%dx%d are not positive", c.Dx, c.Dy, c.Dz)
	}
	if c.Px != m.W || c.Py != m.H {
		return fmt.Errorf("plain dimensions %dx%d, want %dx%d", c.Px, c.Py, m.W, m.H)
	}
	if len(c.PlainData) != c.Py {
		return fmt.Errorf("plain data has %d rows, want %d", len(c.PlainData), c.Py)
	}
	for y, r := range c.PlainData {
		if len(r) != c.Px {
			return fmt.Errorf("plain row %d has %d values, want %d", y, len(r), c.Px)
		}
	}
	if len(c.DataZ) != c.Dz {
		return fmt.Errorf("%d layers, want %d", len(c.DataZ), c.Dz)
	}
	for z, l := range c.DataZ {
		if len(l) != c.Dy {
			return fmt.Errorf("layer %d has %d rows, want %d", z, len(l), c.Dy)
		}
		for y, r := range l {
			if len(r) != c.Dx {
				return fmt.Errorf("layer %d row %d has %d values, want %d", z, y, len(r), c.Dx)
			}
		}
	}
	if len(c.Data) != c.Dy {
		return fmt.Errorf("data has %d rows, want %d", len(c.Data), c.Dy)
	}
	for y := range c.Data {
		if len(c.Data[y]) != c.Dx {
			return fmt.Errorf("data row %d has %d values, want %d", y, len(c.Data[y]), c.Dx)
		}
		if &c.Data[y][0] != &c.DataZ[0][y][0] {
			return fmt.Errorf("data row %d is not the storage of layer 0", y)
		}
	}
	if &c.Data[0] != &c.DataZ[0][0] {
		return fmt.Errorf("the data view and layer 0 have their own lists of rows")
	}
	// pixels must not share storage with each other
	type row struct {
		at   uintptr
		z, y int
	}
	var rows []row
	for z := range c.DataZ {
		for y := range c.DataZ[z] {
			rows = append(rows, row{uintptr(unsafe.Pointer(&c.DataZ[z][y][0])), z, y})
		}
	}
	sort.Slice(rows, func(i, j int) bool { return rows[i].at < rows[j].at })
	for i := 1; i < len(rows); i++ {
		if rows[i].at < rows[i-1].at+uintptr(4*c.Dx) {
			return fmt.Errorf("row %d of layer %d shares its storage with row %d of layer %d", rows[i].y, rows[i].z, rows[i-1].y, rows[i-1].z)
		}
	}
	// accessors against the stored data, inside and around the volume
	check := func(x, y, z int) error {
		want := radolan.NaN
		if x >= 0 && y >= 0 && z >= 0 && x < c.Dx && y < c.Dy && z < c.Dz {
			want = c.DataZ[z][y][x]
			o.Label("inside")
		} else {
			o.Label("outside")
		}
		if got := c.AtZ(x, y, z); !same32(got, want) {
			return fmt.Errorf("AtZ(%d, %d, %d) = %v, want %v (dimensions %dx%dx%d)", x, y, z, got, want, c.Dx, c.Dy, c.Dz)
		}
		if z == 0 {
			if got := c.At(x, y); !same32(got, want) {
				return fmt.Errorf("At(%d, %d) = %v, want %v (dimensions %dx%dx%d)", x, y, got, want, c.Dx, c.Dy, c.Dz)
			}
		}
		return nil
	}
	// the accessors read the stored value: mark every voxel with its own number
	if c.Dx*c.Dy*c.Dz <= 1<<24 {
		n := float32(0)
		for z := range c.DataZ {
			for y := range c.DataZ[z] {
				for x := range c.DataZ[z][y] {
					n++
					c.DataZ[z][y][x] = n
				}
			}
		}
		n = 0
		for z := 0; z < c.Dz; z++ {
			for y := 0; y < c.Dy; y++ {
				for x := 0; x < c.Dx; x++ {
					n++
					if got := c.AtZ(x, y, z); got != n {
						return fmt.Errorf("AtZ(%d, %d, %d) does not read the stored value", x, y, z)
					}
					if z == 0 && (c.At(x, y) != n || c.Data[y][x] != n) {
						return fmt.Errorf("At(%d, %d) or Data[%d][%d] does not read the stored value of layer 0", x, y, y, x)
					}
				}
			}
		}
	}
	for _, p := range cs.Pos {
		if err := check(p[0], p[1], p[2]); err != nil {
			return err
		}
	}
	for z := -1; z <= c.Dz; z++ {
		for y := -1; y <= c.Dy; y++ {
			for _, x := range []int{-1, 0, c.Dx - 1, c.Dx} {
				if err := check(x, y, z); err != nil {
					return err
				}
			}
		}
		for x := -1; x <= c.Dx; x++ {
			for _, y := range []int{-1, 0, c.Dy - 1, c.Dy} {
				if err := check(x, y, z); err != nil {
					return err
				}
			}
		}
	}
	o.Label("enc %s", m.Enc)
	o.Label("layers %d", c.Dz)
	if m.W != m.H && m.W > 1 && m.H > 1 {
		o.NT()
	}
	return nil
}

type dummyCase struct {
	Product string
	Format  int
	W, H    int
	Pos     [][3]int
}

func genDim(t *rapid.T) int {
	return rapid.OneOf(rapid.IntRange(0, 1600), rapid.IntRange(-5, 5), rapid.SampledFrom([]int{900, 920, 460, 450, 1100, 1200, 1400, 1500, 225, 115, 1 << 20, -900}), rapid.SampledFrom(extremes)).Draw(t, "dim")
}

func checkDummyAccess(cs dummyCase, o *Obs) error {
	c := radolan.NewDummy(cs.Product, cs.Format, cs.W, cs.H)
	if c == nil {
		return fmt.Errorf("NewDummy returned nil")
	}
	if c.Product != cs.Product || c.Format != cs.Format || c.Dx != cs.W || c.Dy != cs.H {
		return fmt.Errorf("blank composite is %q %d %dx%d, want %q %d %dx%d", c.Product, c.Format, c.Dx, c.Dy, cs.Product, cs.Format, cs.W, cs.H)
	}
	for _, p := range append(cs.Pos, [3]int{0, 0, 0}, [3]int{cs.W - 1, cs.H - 1, 0}, [3]int{-1, -1, -1}) {
		if v := c.AtZ(p[0], p[1], p[2]); !isNaN32(v) {
			return fmt.Errorf("AtZ%v of a blank composite is %v", p, v)
		}
		if v := c.At(p[0], p[1]); !isNaN32(v) {
			return fmt.Errorf("At%v of a blank composite is %v", p, v)
		}
	}
	if cs.W > 0 && cs.H > 0 {
		o.NT()
	}
	return nil
}

func genPos(t *rapid.T, w, h, d int) [][3]int {
	n := rapid.IntRange(0, 20).Draw(t, "npos")
	var ps [][3]int
	for i := 0; i < n; i++ {
		ps = append(ps, [3]int{genIndex(t, w), genIndex(t, h), genIndex(t, d)})
	}
	return ps
}

func init() {
	register(&Prop{
		ID:   "C02",
		Rule: "random well-formed composites (product, encoding, shape, optional header fields in any order, pixel content, local pictures with 1 or 12 layers) with random and boundary positions; every position of a one-pixel frame around the volume is also read, and every voxel is marked and read back; composites of millions of pixels; for mutated and malformed inputs that parsing accepts nonetheless, the structure and the accessors are checked too. Non-trivial: width != height, both above 1 (so that a mix-up shows); for blank composites: positive dimensions; for mutants: accepted. Distinct by case content.",
		Sections: []Section{
			Rand("parsed", 5000, 80000, func(t *rapid.T) accessCase {
				m := genModel(t, GenOpts{})
				dz, dy, _ := m.layers()
				return accessCase{m, genPos(t, m.W, dy, dz)}
			}, checkAccess),
			Rand("local", 40, 600, func(t *rapid.T) accessCase {
				m := genModel(t, GenOpts{Local: 1})
				dz, dy, _ := m.layers()
				return accessCase{m, genPos(t, m.W, dy, dz)}
			}, checkAccess),
			Enum("large", func(tier string, yield func(accessCase) bool) {
				large(5, "le", "sb", "rl")(tier, func(m *Model) bool { return yield(accessCase{M: m}) })
			}, checkAccess),
			Rand("blank", 10000, 200000, func(t *rapid.T) dummyCase {
				cs := dummyCase{Product: rapid.SampledFrom(knownProducts).Draw(t, "p"), Format: rapid.IntRange(-1, 9).Draw(t, "f"), W: genDim(t), H: genDim(t)}
				cs.Pos = genPos(t, cs.W, cs.H, 1)
				return cs
			}, checkDummyAccess),
			mutantSection(),
		},
	})
}

// ---------------------------------------------------------------- C03 C04 C05

func checkDecode(m *Model, o *Obs) error {
	c, err := m.parse()
	if err != nil {
		return err
	}
	if err := m.checkPlain(c); err != nil {
		return err
	}
	if !m.Local {
		if err := m.checkLayers(c); err != nil {
			return err
		}
	}
	o.Label("unit %s", unitName[m.unit()])
	o.Label("precision %d", m.Prec)
	if m.Local {
		o.Label("local picture")
	}
	if m.Enc == "rl" {
		multi, chain, edge := false, false, false
		for i := range m.Rows {
			r := &m.Rows[i]
			if len(r.Runs) > 1 {
				multi = true
			}
			if r.Off >= 239 && !r.Empty && !r.NoOff {
				chain = true
			}
			sum := r.Off
			for _, b := range r.Runs {
				sum += int(b >> 4)
			}
			if sum == m.W && len(r.Runs) > 0 {
				edge = true
			}
		}
		if multi {
			o.Label("several runs in a row")
			if len(m.Levels) > 0 {
				o.NT()
			}
		}
		if chain {
			o.Label("offset chain")
		}
		if edge {
			o.Label("run ends at the right edge")
		}
		o.Label("levels %02d", len(m.Levels))
		return nil
	}
	classes := map[string]bool{}
	for k := 0; k < m.W*m.H && k < 5000; k++ {
		c := m.code(k)
		if m.Enc == "sb" {
			if c&0xFF == 250 {
				classes["no-data"] = true
			} else {
				classes["value"] = true
			}
			continue
		}
		switch {
		case c&0x2000 != 0 && c&0x4000 != 0:
			classes["no-data and negative"] = true
		case c&0x2000 != 0:
			classes["no-data"] = true
		case c&0x4000 != 0:
			classes["negative"] = true
		default:
			classes["value"] = true
		}
		if c&0x9000 != 0 {
			classes["other flags"] = true
		}
	}
	for k := range classes {
		o.Label("has %s", k)
	}
	if len(classes) > 1 && m.H > 1 {
		o.NT()
	}
	return nil
}

// codesModel has every code of the encoding once, in a w x h grid.
func codesModel(enc, product string, prec, w, h, start int, withPR bool) *Model {
	m := &Model{Product: product, Stamp: "282105", WMO: "10000", MMYY: "0716", Enc: enc, W: w, H: h, BYPad: 7, Prec: prec}
	m.Fields = []Field{{"VS", " 3"}, {"SW", "   2.13.1"}}
	if withPR {
		m.Fields = append(m.Fields, Field{"PR", fmt.Sprintf(" E%+03d", prec)})
	}
	m.Fields = append(m.Fields, Field{"INT", "   5"}, Field{"GP", fmt.Sprintf("%4dx%4d", h, w)}, Field{"MS", " 66<boo,ros>"})
	m.Mode = "seq"
	m.Codes = make([]uint16, w*h)
	for i := range m.Codes {
		m.Codes[i] = uint16(start + i)
	}
	return m
}

// a compact case for the exhaustive code sweeps
type sweepCase struct {
	Enc, Product string
	Prec         int
	HasPrec      bool
	W, H, Start  int
}

func checkSweep(cs sweepCase, o *Obs) error {
	return checkDecode(codesModel(cs.Enc, cs.Product, cs.Prec, cs.W, cs.H, cs.Start, cs.HasPrec), o)
}

func sweepEnum(enc string, shapes [][2]int) func(string, func(sweepCase) bool) {
	return func(tier string, yield func(sweepCase) bool) {
		for _, p := range []string{"FX", "RW", "PE", "PR", "QZ"} {
			for prec := -5; prec <= 5; prec++ {
				for i, s := range shapes {
					if tier == "quick" && i > 0 && prec != -1 && prec != 0 {
						continue
					}
					if !yield(sweepCase{enc, p, prec, true, s[0], s[1], 37 * i}) {
						return
					}
				}
			}
			if !yield(sweepCase{enc, p, 0, false, shapes[0][0], shapes[0][1], 0}) {
				return
			}
		}
		// every product label
		for _, p := range knownProducts {
			for _, prec := range []int{-1, 0, -2} {
				if !yield(sweepCase{enc, p, prec, true, 71, 64, 4000}) {
					return
				}
			}
		}
	}
}

const decodeRule = "exhaustive sweeps of every code under precisions -5..5 (and without precision field) for a product of every unit, every product label over a code window, and random composites (product, precision, shape, header field order, pixel content, local pictures, rows that end near a multiple of 4096 bytes, composites of millions of pixels) decoded and compared pixel by pixel with the reference model. "

func init() {
	register(&Prop{
		ID:   "C03",
		Rule: decodeRule + "Non-trivial: more than one class of codes (plain, no-data, negative, other flags) and more than one row. Distinct by case content.",
		Sections: []Section{
			Enum("codes", sweepEnum("le", [][2]int{{256, 256}, {1024, 64}, {64, 1024}, {4096, 16}, {16, 4096}}), checkSweep),
			Rand("random", 8000, 150000, func(t *rapid.T) *Model { return genModel(t, GenOpts{Enc: "le"}) }, checkDecode),
			Rand("local", 30, 500, func(t *rapid.T) *Model { return genModel(t, GenOpts{Enc: "le", Local: 1}) }, checkDecode),
			Rand("wide", 60, 1500, func(t *rapid.T) *Model { return genModel(t, GenOpts{Enc: "le", Big: true, Local: -1}) }, checkDecode),
			Enum("buffer", edgeRows("le"), checkDecode),
			Enum("large", large(8, "le"), checkDecode),
			Rand("largeRandom", 24, 400, genLarge("le"), checkDecode),
		},
	})
	register(&Prop{
		ID:   "C04",
		Rule: decodeRule + "Non-trivial: both no-data and other codes and more than one row. Distinct by case content.",
		Sections: []Section{
			Enum("codes", sweepEnum("sb", [][2]int{{16, 16}, {256, 3}, {3, 256}, {64, 12}, {7, 111}}), checkSweep),
			Rand("random", 12000, 200000, func(t *rapid.T) *Model { return genModel(t, GenOpts{Enc: "sb"}) }, checkDecode),
			Rand("local", 30, 500, func(t *rapid.T) *Model { return genModel(t, GenOpts{Enc: "sb", Local: 1}) }, checkDecode),
			Rand("wide", 60, 1500, func(t *rapid.T) *Model { return genModel(t, GenOpts{Enc: "sb", Big: true, Local: -1}) }, checkDecode),
			Enum("buffer", edgeRows("sb"), checkDecode),
			Enum("large", large(14, "sb"), checkDecode),
			Rand("largeRandom", 24, 400, genLarge("sb"), checkDecode),
		},
	})
	register(&Prop{
		ID:     "C05",
		Rule:   "sweeps over every offset for row widths around the 239-pixel offset limit, every run byte under every level count 0..16, and random composites whose rows are random segmentations into offset chains and runs (empty rows, zero-length runs, runs up to exactly the right edge, rows longer than the 4096 byte read buffer or ending near a multiple of it, composites of millions of pixels), decoded and compared pixel by pixel with the reference model. Non-trivial: a row with several runs and a non-empty level list. Distinct by case content.",
		Assume: []string{"line number and run bytes never equal the newline byte 0x0A: rows are newline terminated, so such rows are not expressible"},
		Sections: []Section{
			Enum("offsets", func(tier string, yield func(*Model) bool) {
				for _, w := range []int{1, 2, 3, 14, 15, 16, 17, 40, 238, 239, 240, 241, 254, 255, 256, 460, 477, 478, 479, 480, 720, 900, 956, 1400} {
					for _, lv := range []int{6, 12} {
						m := rlModel("PG", w, w+1, lv)
						for off := 0; off <= w; off++ {
							r := Row{Line: byte(off%200 + 11), Off: off}
							left := w - off
							// runs of varied length up to the edge
							for k := off; left > 0 && len(r.Runs) < 90; k++ {
								n := min(left, k%15+1)
								r.Runs = append(r.Runs, byte(n<<4|(k%(lv+3))&15))
								left -= n
							}
							m.Rows = append(m.Rows, r)
						}
						if !yield(m) {
							return
						}
					}
				}
			}, checkDecode),
			Enum("runbytes", func(tier string, yield func(*Model) bool) {
				for lv := 0; lv <= 17; lv++ {
					for _, p := range []string{"PG", "PR", "PE", "PY", "QZ"} {
						m := rlModel(p, 40, 0, lv)
						for b := 0; b < 256; b++ {
							if b == 10 {
								continue
							}
							m.Rows = append(m.Rows, Row{Line: byte(b) | 0x10, Off: b % 11, Runs: []byte{byte(b), 0x11}})
						}
						m.H = len(m.Rows)
						m.setField("BG", fmt.Sprintf("%03d%03d", m.H, m.W))
						if !yield(m) {
							return
						}
					}
				}
			}, checkDecode),
			Rand("random", 15000, 250000, func(t *rapid.T) *Model { return genModel(t, GenOpts{Enc: "rl"}) }, checkDecode),
			Rand("grid", 1500, 20000, func(t *rapid.T) *Model {
				return genModel(t, GenOpts{Enc: "rl", Shape: pick(t, "shape", [2]int{460, 20}, [2]int{460, 460}, [2]int{900, 5}, [2]int{480, 7}, [2]int{241, 9})})
			}, checkDecode),
			Rand("local", 40, 600, func(t *rapid.T) *Model { return genModel(t, GenOpts{Enc: "rl", Local: 1}) }, checkDecode),
			Rand("wide", 100, 2000, func(t *rapid.T) *Model { return genModel(t, GenOpts{Enc: "rl", Big: true, Local: -1}) }, checkDecode),
			Enum("buffer", edgeRows("rl"), checkDecode),
			Enum("large", large(14, "rl"), checkDecode),
			Rand("largeRandom", 24, 400, genLarge("rl"), checkDecode),
		},
	})
}

func rlModel(product string, w, h, levels int) *Model {
	m := &Model{Product: product, Stamp: "262115", WMO: "10000", MMYY: "0616", Enc: "rl", W: w, H: h, BYPad: 5}
	for i := 0; i < levels; i++ {
		m.Levels = append(m.Levels, fmt.Sprintf("%5.1f", -31.5+float64(i)*9.3))
	}
	m.Fields = []Field{{"LV", fmt.Sprintf("%2d%s", levels, strings.Join(m.Levels, ""))}, {"CS", "0"}, {"MX", " 0"}, {"MS", " 88<boo,ros> are used, "}}
	if w <= 999 && h <= 999 {
		m.Fields = append(m.Fields, Field{"BG", fmt.Sprintf("%03d%03d", h, w)})
	} else {
		m.Fields = append(m.Fields, Field{"GP", fmt.Sprintf("%4dx%4d", h, w)})
	}
	return m
}

// ---------------------------------------------------------------- C06

type headerCase struct {
	M    *Model
	Zone int // offset of the process time zone in minutes
}

func (m *Model) wantMeta() (capture, forecast time.Time, interval time.Duration, format int) {
	var d, h, mi, mo, y int
	fmt.Sscanf(m.Stamp, "%2d%2d%2d", &d, &h, &mi)
	fmt.Sscanf(m.MMYY, "%2d%2d", &mo, &y)
	if y >= 85 {
		y -= 100
	}
	capture = time.Date(2000+y, time.Month(mo), d, h, mi, 0, 0, time.UTC)
	forecast = capture
	if v, ok := m.field("VV"); ok {
		forecast = capture.Add(time.Duration(atoi(v)) * time.Minute)
	}
	if v, ok := m.field("INT"); ok {
		interval = time.Duration(atoi(v)) * time.Minute
		switch m.Product {
		case "W1", "W2", "W3", "W4":
			interval *= 10
		}
	}
	if v, ok := m.field("VS"); ok {
		format = atoi(v)
	}
	return
}

func atoi(s string) int {
	n := 0
	neg := false
	for _, c := range trimSpace(s) {
		switch {
		case c == '-':
			neg = true
		case c >= '0' && c <= '9':
			n = n*10 + int(c-'0')
		}
	}
	if neg {
		return -n
	}
	return n
}

const clock = "2006-01-02 15:04:05"

func (m *Model) checkMeta(c *radolan.Composite) error {
	capture, forecast, interval, format := m.wantMeta()
	dz, dy, _ := m.layers()
	switch {
	case c.Product != m.Product:
		return fmt.Errorf("product %q, want %q", c.Product, m.Product)
	case !c.CaptureTime.Equal(capture):
		return fmt.Errorf("capture time %v, want %v", c.CaptureTime, capture)
	case !c.ForecastTime.Equal(forecast):
		return fmt.Errorf("forecast time %v, want %v", c.ForecastTime, forecast)
	case c.CaptureTime.Format(clock) != capture.Format(clock) || c.ForecastTime.Format(clock) != forecast.Format(clock):
		return fmt.Errorf("capture and forecast time %v, %v are not given in UTC (%v, %v)", c.CaptureTime, c.ForecastTime, capture, forecast)
	case c.Interval != interval:
		return fmt.Errorf("interval %v, want %v", c.Interval, interval)
	case c.Px != m.W || c.Py != m.H:
		return fmt.Errorf("plain dimensions %dx%d, want %dx%d", c.Px, c.Py, m.W, m.H)
	case c.Dx != m.W || c.Dy != dy || c.Dz != dz:
		return fmt.Errorf("dimensions %dx%dx%d, want %dx%dx%d", c.Dx, c.Dy, c.Dz, m.W, dy, dz)
	case c.Format != format:
		return fmt.Errorf("format version %d, want %d", c.Format, format)
	}
	return nil
}

func withZone(minutes int, f func() error) error {
	old := time.Local
	defer func() { time.Local = old }()
	time.Local = time.FixedZone("VRF", minutes*60)
	return f()
}

func checkHeader(cs headerCase, o *Obs) error {
	return withZone(cs.Zone, func() error {
		m := cs.M
		c, err := m.parse()
		if err != nil {
			return err
		}
		if err := m.checkMeta(c); err != nil {
			return fmt.Errorf("%v (header %q)", err, m.Header(len(m.Payload())))
		}
		if m.H*m.W <= 4096 { // precision and levels show in the data
			if err := m.checkPlain(c); err != nil {
				return fmt.Errorf("%v (header %q)", err, m.Header(len(m.Payload())))
			}
		}
		n := 0
		for _, f := range m.Fields {
			switch f.K {
			case "VV", "INT", "VS", "PR", "LV", "GP", "BG":
				o.Label("field %s", f.K)
				n++
			}
		}
		if n >= 3 {
			o.NT()
		}
		if m.BYPos > 0 {
			o.Label("BY not first")
		}
		if strings.HasPrefix(m.Product, "W") {
			o.Label("W product")
		}
		return nil
	})
}

// tiny is a 1x2 composite to carry a header.
func tiny(product string, fs ...Field) *Model {
	m := &Model{Product: product, Stamp: "282105", WMO: "10000", MMYY: "0716", Enc: "le", W: 2, H: 1, BYPad: 7, Codes: []uint16{100, 200}}
	m.Fields = append([]Field{{"GP", "   1x   2"}}, fs...)
	return m
}

// hollow is a run-length composite of empty rows: any dimensions, few bytes.
func hollow(product string, w, h int, dim Field, fs ...Field) *Model {
	m := &Model{Product: product, Stamp: "282105", WMO: "10000", MMYY: "0716", Enc: "rl", W: w, H: h, BYPad: 7, Levels: []string{"  1.0"}, Rows: []Row{{Empty: true}}}
	m.Fields = append([]Field{{"LV", " 1  1.0"}, dim}, fs...)
	return m
}

type valuelessCase struct {
	M   *Model
	Key string
	At  int // position among the fields, len(Fields) for the end of the header
}

// checkValueless puts a field without value into the header: the composite is
// rejected, or everything that field describes is as if it were absent.
func checkValueless(cs valuelessCase, o *Obs) error {
	m := cs.M.clone()
	m.dropField(cs.Key)
	at := min(cs.At, len(m.Fields))
	fs := append([]Field{}, m.Fields[:at]...)
	fs = append(fs, Field{cs.Key, ""})
	fs = append(fs, m.Fields[at:]...)
	full := m.clone()
	full.Fields = fs
	full.BYPos = m.BYPos
	if at == len(m.Fields) {
		o.Label("at the end")
		o.NT()
		if full.BYPos > at { // BY would come last
			full.BYPos = 0
		}
	} else if full.BYPos > at {
		full.BYPos++
	}
	o.Label("key %s", cs.Key)
	h := full.Header(len(full.Payload()))
	c, err := radolan.NewComposite(bytes.NewReader(full.Bytes()))
	if err != nil && !errors.Is(err, radolan.ErrUnknownUnit) {
		o.Label("rejected")
		return nil
	}
	o.Label("accepted")
	capture, _, _, _ := m.wantMeta()
	switch cs.Key {
	case "VV":
		if !c.ForecastTime.Equal(capture) {
			return fmt.Errorf("valueless VV gives forecast time %v for capture time %v (header %q)", c.ForecastTime, capture, h)
		}
	case "INT":
		if c.Interval != 0 {
			return fmt.Errorf("valueless INT gives interval %v (header %q)", c.Interval, h)
		}
	case "VS":
		if c.Format != 0 {
			return fmt.Errorf("valueless VS gives format version %d (header %q)", c.Format, h)
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C06",
		Rule: "random well-formed headers (any product, date 1985-2068, lead time, interval, dimensions, version, precision, levels, optional fields present or not, shuffled and padded differently, process time zone varied) on small composites, plus sweeps over every day of 2000-2068, every minute of a day, every lead time 0-999, interval 0-9999, version 0-99, product label and many dimensions, and headers that end near a multiple of 4096 bytes. Non-trivial: at least three meaningful optional fields in the header. Distinct by case content.",
		Assume: []string{"header fields are separated by upper case keys (the format's own convention), so values contain no upper case letters except the exponent marker",
			"two-digit years 85-99 are those of the last century; 69-84 are not generated",
			"product labels equal to a field name (BY, GP, BG, VV, VS, LV, E0-E9) are not generated"},
		Sections: []Section{
			Rand("random", 20000, 400000, func(t *rapid.T) headerCase {
				return headerCase{genModel(t, GenOpts{MaxPix: 150}), rapid.SampledFrom([]int{0, 60, 120, -300, 345, 840, -720}).Draw(t, "zone")}
			}, checkHeader),
			Enum("days", func(tier string, yield func(headerCase) bool) {
				for d := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC); d.Year() <= 2068; d = d.AddDate(0, 0, 1) {
					k := int(d.Unix() / 86400)
					m := tiny("FZ", Field{"VV", fmt.Sprintf(" %03d", k%121)}, Field{"INT", "   5"})
					m.setTime(d.Add(time.Duration(k*37%1440) * time.Minute))
					if !yield(headerCase{m, k%3*60 - 60}) {
						return
					}
				}
			}, checkHeader),
			Enum("minutes", func(tier string, yield func(headerCase) bool) {
				for i := 0; i < 1440; i++ {
					for k, d := range []time.Time{time.Date(2016, 7, 28, 0, 0, 0, 0, time.UTC), time.Date(2024, 2, 29, 0, 0, 0, 0, time.UTC), time.Date(2019, 12, 31, 0, 0, 0, 0, time.UTC),
						time.Date(2021, 3, 28, 0, 0, 0, 0, time.UTC), time.Date(2021, 10, 31, 0, 0, 0, 0, time.UTC)} {
						m := tiny("RX")
						m.setTime(d.Add(time.Duration(i) * time.Minute))
						m.WMO = fmt.Sprintf("%05d", i*69%100000)
						if !yield(headerCase{m, k * 60}) {
							return
						}
					}
				}
			}, checkHeader),
			Enum("numbers", func(tier string, yield func(headerCase) bool) {
				for i := 0; i < 10000; i++ {
					ps := []string{"SF", "W1", "W2", "W3", "W4", "WX", "WN", "RW"}
					m := tiny(ps[i%len(ps)], Field{"INT", fmt.Sprintf("%4d", i)})
					if i%3 == 0 { // an interval directly after a text
						m.Fields = append([]Field{{"MS", " 10<boo,ros>"}}, m.Fields...)
					}
					if !yield(headerCase{m, 0}) {
						return
					}
				}
				for i := 0; i < 1000; i++ {
					for _, f := range []string{" %03d", "%4d", "%d"} {
						if !yield(headerCase{tiny("FX", Field{"VV", fmt.Sprintf(f, i)}, Field{"MF", " 00000002"}), 60}) {
							return
						}
					}
				}
				for i := 1000; i <= 2880; i++ { // two days
					if !yield(headerCase{tiny("RQ", Field{"VV", fmt.Sprintf("%4d", i)}), 0}) {
						return
					}
				}
				for i := 0; i < 100; i++ {
					for j, p := range []string{"RX", "WN", "RY", "FZ"} {
						if !yield(headerCase{tiny(p, Field{"VS", fmt.Sprintf(pickAt(j, "%2d", "%02d", " %d", "%3d"), i)}), 0}) {
							return
						}
					}
				}
				for _, p := range []string{"W1", "W2", "W3", "W4", "W0", "W5", "WX", "WN", "SF", "RW", "D2", "D3", "YW"} {
					for _, i := range []int{0, 1, 5, 60, 1008, 144, 288, 432, 1440, 9999} {
						if !yield(headerCase{tiny(p, Field{"INT", fmt.Sprintf("%4d", i)}, Field{"VS", " 3"}), 0}) {
							return
						}
					}
				}
			}, checkHeader),
			Enum("large", func(tier string, yield func(headerCase) bool) {
				large(6, "le", "sb", "rl")(tier, func(m *Model) bool { return yield(headerCase{m, 60}) })
			}, checkHeader),
			Enum("labels", func(tier string, yield func(headerCase) bool) {
				for a := 'A'; a <= 'Z'; a++ {
					for _, b := range "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789" {
						p := string(a) + string(b)
						if clashing[p] {
							continue
						}
						if !yield(headerCase{tiny(p, Field{"VS", " 3"}, Field{"INT", "  15"}, Field{"VV", " 030"}), 0}) {
							return
						}
					}
				}
			}, checkHeader),
			Enum("dimensions", func(tier string, yield func(headerCase) bool) {
				var ds []int
				for i := 1; i <= 40; i++ {
					ds = append(ds, i)
				}
				ds = append(ds, 99, 100, 101, 199, 200, 224, 225, 450, 460, 512, 900, 920, 999)
				for _, h := range ds {
					for _, w := range ds {
						if !yield(headerCase{hollow("PG", w, h, Field{"BG", fmt.Sprintf("%03d%03d", h, w)}), 0}) {
							return
						}
						if !yield(headerCase{hollow("RX", w, h, Field{"GP", fmt.Sprintf("%4dx%4d", h, w)}), 0}) {
							return
						}
						// a header with both
						if h == w && !yield(headerCase{hollow("RX", w, h, Field{"GP", fmt.Sprintf("%dx%d", h, w)}, Field{"VS", " 4"}), 0}) {
							return
						}
					}
				}
				for _, d := range [][2]int{{1500, 1400}, {1100, 900}, {1200, 1100}, {2400, 2200}, {1000, 1}, {1, 1000}, {9999, 1}, {1, 9999}, {3000, 17}, {17, 4097}} {
					if !yield(headerCase{hollow("EX", d[1], d[0], Field{"GP", fmt.Sprintf("%4dx%4d", d[0], d[1])}), 0}) {
						return
					}
				}
			}, checkHeader),
			Enum("buffer", func(tier string, yield func(headerCase) bool) {
				edgeHeaders(func(m *Model) bool { return yield(headerCase{m, 60}) })
			}, checkHeader),
			Rand("valueless", 4000, 60000, func(t *rapid.T) valuelessCase {
				m := genModel(t, GenOpts{MaxPix: 16, Local: -1})
				cs := valuelessCase{M: m, Key: pick(t, "key", "VV", "INT", "VS")}
				if m.W > 12 || m.H > 12 {
					m.Seed = 1
				}
				cs.At = 99
				if chance(t, "middle", 40) {
					cs.At = rapid.IntRange(0, len(m.Fields)).Draw(t, "at")
				}
				return cs
			}, checkValueless),
		},
	})
}
