package main

import (
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// GenOpts narrows what genModel draws.
type GenOpts struct {
	Enc      string   // fixed encoding, or "" for any
	Products []string // product labels, nil for all catalogued
	Local    int      // 0 any, 1 always local (catalogue dimensions), -1 never
	MaxPix   int      // bound on the number of explicit pixels
	Shape    [2]int   // fixed W, H
	Big      bool     // also long rows and headers beyond the 4096 byte buffer
	Known    bool     // catalogued products only
	Small    bool     // at most 12x12 pixels
}

func pick[T any](t *rapid.T, name string, xs ...T) T {
	return rapid.SampledFrom(xs).Draw(t, name)
}

// chance draws true in pct of 100 cases. rapid's integers favour small values,
// so that comparing one with pct comes out far more often; single bits do not.
// Rare branches get twice their share. The shrinker heads for false.
func chance(t *rapid.T, name string, pct int) bool {
	if pct < 20 {
		pct = min(2*pct, 20)
	}
	return coin.Draw(t, name) >= 256-(pct*256+50)/100
}

var coin = rapid.Custom(func(t *rapid.T) int {
	v := 0
	for i := 0; i < 8; i++ {
		v *= 2
		if bit.Draw(t, "bit") {
			v++
		}
	}
	return v
})

var bit = rapid.Bool()

func genTime(t *rapid.T) time.Time {
	y := rapid.IntRange(2000, 2068).Draw(t, "year")
	if chance(t, "lastCentury", 4) {
		y = rapid.IntRange(1985, 1999).Draw(t, "year")
	}
	m := rapid.IntRange(1, 12).Draw(t, "month")
	last := time.Date(y, time.Month(m)+1, 0, 0, 0, 0, 0, time.UTC).Day()
	d := rapid.IntRange(1, last).Draw(t, "day")
	if chance(t, "special", 8) { // leap days, the ends of years and months
		switch pick(t, "specialDay", 0, 1, 2, 3) {
		case 0:
			y, m, d = max(y/4*4, 1988), 2, 29
		case 1:
			m, d = 12, 31
		case 2:
			m, d = 1, 1
		case 3:
			d = last
		}
	}
	h := rapid.IntRange(0, 23).Draw(t, "hour")
	mi := rapid.IntRange(0, 59).Draw(t, "minute")
	return time.Date(y, time.Month(m), d, h, mi, 0, 0, time.UTC)
}

func genUnknownProduct(t *rapid.T) string {
	const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	const second = letters + "0123456789"
	for {
		p := string(letters[rapid.IntRange(0, 25).Draw(t, "p0")]) + string(second[rapid.IntRange(0, 35).Draw(t, "p1")])
		if _, ok := unitOf[p]; !ok && !clashing[p] {
			return p
		}
	}
}

// product labels that are also field names cannot be told apart from them
var clashing = map[string]bool{"BY": true, "GP": true, "BG": true, "VV": true, "LV": true, "VS": true,
	"E0": true, "E1": true, "E2": true, "E3": true, "E4": true, "E5": true, "E6": true, "E7": true, "E8": true, "E9": true}

// genProduct draws a product label; unknown ones only if allowed.
func genProduct(t *rapid.T, o GenOpts) string {
	if o.Products != nil {
		return rapid.SampledFrom(o.Products).Draw(t, "product")
	}
	if !o.Known && chance(t, "unknownProduct", 8) {
		return genUnknownProduct(t)
	}
	// the products named in the documentation weigh more
	if chance(t, "main", 50) {
		return pick(t, "product", "RX", "FX", "FZ", "RW", "SF", "WX", "EX", "WN", "PG", "PX", "PR", "PE", "PZ", "RY", "W3")
	}
	return rapid.SampledFrom(knownProducts).Draw(t, "product")
}

// genPixels draws the content of fixed width encodings.
func genPixels(t *rapid.T, m *Model, maxPix int) {
	n := m.W * m.H
	if n <= maxPix && chance(t, "explicit", 60) {
		m.Codes = make([]uint16, n)
		for i := range m.Codes {
			if m.Enc == "sb" {
				m.Codes[i] = uint16(rapid.OneOf(rapid.IntRange(0, 255), rapid.SampledFrom([]int{0, 1, 10, 249, 250, 251, 255})).Draw(t, "b"))
			} else {
				m.Codes[i] = uint16(rapid.OneOf(rapid.IntRange(0, 65535), rapid.IntRange(0, 4095),
					rapid.SampledFrom([]int{0, 1, 255, 256, 0xFFF, 0x1000, 0x2000, 0x29C4, 0x4000, 0x4001, 0x4FFF, 0x6001, 0x8001, 0x80FF, 0xFFFF})).Draw(t, "w"))
			}
		}
		return
	}
	m.Seed = rapid.Uint64().Draw(t, "seed")
	m.Mode = pick(t, "mode", "any", "any", "plain", "plain", "flags")
	if chance(t, "structured", 40) {
		m.Mode = pick(t, "structure", "gaps", "zero", "const", "rows", "cols", "sparse", "dense", "patch", "smooth", "text")
	}
}

// genLineNo draws a line number byte. The newline byte cannot be one: rows are
// newline terminated.
func genLineNo(t *rapid.T) byte {
	b := rapid.Byte().Draw(t, "line")
	if b == 10 {
		b = 11
	}
	return b
}

func genRow(t *rapid.T, w int, maxRuns int) Row {
	switch rapid.IntRange(0, 11).Draw(t, "rowKind") {
	case 0:
		return Row{Empty: true}
	case 1:
		return Row{Line: genLineNo(t), NoOff: true}
	}
	r := Row{Line: genLineNo(t)}
	offs := []int{0, 0, w, w / 2, w - 1, 238, 239, 240, 477, 478, 479, 717}
	r.Off = rapid.OneOf(rapid.IntRange(0, w), rapid.SampledFrom(offs), rapid.IntRange(0, min(w, 20))).Draw(t, "off")
	if r.Off > w || r.Off < 0 {
		r.Off = w
	}
	left := w - r.Off
	runs := rapid.IntRange(0, maxRuns).Draw(t, "runs")
	for i := 0; i < runs; i++ {
		n := rapid.IntRange(0, min(15, left)).Draw(t, "n")
		l := rapid.IntRange(0, 15).Draw(t, "l")
		if n == 0 && l == 10 {
			l = 11 // that byte would be a newline
		}
		r.Runs = append(r.Runs, byte(n<<4|l))
		left -= n
	}
	if left > 0 && left <= 400 && chance(t, "fill", 35) { // up to the right edge
		l := byte(rapid.IntRange(0, 15).Draw(t, "fl"))
		for left > 0 {
			n := min(15, left)
			r.Runs = append(r.Runs, byte(n<<4)|l)
			left -= n
		}
		if chance(t, "zeroAtEdge", 20) {
			r.Runs = append(r.Runs, 3) // an empty run at the edge
		}
	}
	return r
}

// genUniform draws rows of one kind.
func genUniform(t *rapid.T, m *Model) {
	kind := rapid.IntRange(0, 5).Draw(t, "uniformKind")
	l := byte(rapid.IntRange(0, 15).Draw(t, "uniformLevel"))
	for i := rapid.IntRange(1, 3).Draw(t, "uniformRows"); i > 0; i-- {
		r := Row{Line: genLineNo(t)}
		switch kind {
		case 0:
			r = Row{Empty: true}
		case 1:
			r.NoOff = true
		case 2:
			r.Off = m.W
		default: // one level, or two of them
			other := l
			if kind > 3 {
				other = byte(rapid.IntRange(0, 15).Draw(t, "otherLevel"))
			}
			z := rapid.Uint64().Draw(t, "uniformSeed")
			for left := m.W; left > 0; {
				k := min(15, left)
				if mix(z, left)&7 == 0 {
					r.Runs = append(r.Runs, byte(k<<4)|other)
				} else {
					r.Runs = append(r.Runs, byte(k<<4)|l)
				}
				left -= k
			}
		}
		m.Rows = append(m.Rows, r)
	}
}

func genLevels(t *rapid.T) []string {
	n := rapid.OneOf(rapid.IntRange(0, 15), rapid.SampledFrom([]int{6, 12, 6, 1, 14, 15, 16, 40, 99})).Draw(t, "levels")
	ls := make([]string, n)
	sortd := chance(t, "ascending", 50)
	v := rapid.IntRange(-999, 200).Draw(t, "lv0")
	for i := range ls {
		if sortd {
			v += rapid.IntRange(1, 90).Draw(t, "lvstep")
		} else {
			v = rapid.IntRange(-999, 9999).Draw(t, "lv")
		}
		if v > 9999 {
			v = 9999
		}
		ls[i] = fmt.Sprintf("%5.1f", float64(v)/10)
		if v == 0 && i%2 == 1 {
			ls[i] = " -0.0"
		}
	}
	return ls
}

// genOptional draws fields without meaning for the parser.
func genOptional(t *rapid.T, big bool) []Field {
	var fs []Field
	if chance(t, "SW", 40) {
		fs = append(fs, Field{"SW", pick(t, "sw", "   2.13.1", "  2.18.3", " 1.2")})
	}
	if chance(t, "MF", 40) {
		fs = append(fs, Field{"MF", pick(t, "mf", " 00000002", " 00000001", " 0")})
	}
	if chance(t, "CS", 20) {
		fs = append(fs, Field{"CS", "0"})
	}
	if chance(t, "MX", 20) {
		fs = append(fs, Field{"MX", " 0"})
	}
	if chance(t, "QN", 15) {
		fs = append(fs, Field{"QN", " 016"})
	}
	if chance(t, "VR", 15) {
		fs = append(fs, Field{"VR", "2017.002"})
	}
	if chance(t, "MS", 70) {
		sites := pick(t, "ms", "boo,ros,emd,hnr,umd,pro,ess,fld,drs,neu,nhb,oft,eis,tur,isn,fbg,mem", "boo", "")
		suffix := pick(t, "msuf", "", " are used, ")
		if big && chance(t, "longMS", 40) {
			sites = strings.Repeat("boo,ros,emd,", rapid.IntRange(100, 700).Draw(t, "nsites")) + "mem"
		}
		fs = append(fs, Field{"MS", fmt.Sprintf("%3d<%s>%s", len(sites), sites, suffix)})
	}
	if chance(t, "ST", 20) {
		fs = append(fs, Field{"ST", " 35<boo 12,ros 12,emd 12>"})
	}
	if chance(t, "odd", 15) { // a field the parser does not know
		k := rapid.SampledFrom([]string{"Q", "XA", "ZZZ", "HG", "U", "KL"}).Draw(t, "oddK")
		v := rapid.StringMatching(`[ a-z0-9.,<>:/_-]{1,12}`).Draw(t, "oddV")
		fs = append(fs, Field{k, v})
	}
	return fs
}

func dimField(t *rapid.T, w, h int) Field {
	if w <= 999 && h <= 999 && chance(t, "BG", 30) {
		return Field{"BG", fmt.Sprintf("%03d%03d", h, w)}
	}
	if chance(t, "tightGP", 20) {
		return Field{"GP", fmt.Sprintf("%dx%d", h, w)}
	}
	return Field{"GP", fmt.Sprintf(pick(t, "gpfmt", "%4dx%4d", "%4dx%4d", "%4dx%4d", "%5dx%5d", " %dx %d", "%9dx%9d", "%4dx%4d   ", "%04dx%04d", "%06dx%06d"), h, w)}
}

var gridShapes = [][2]int{{225, 225}, {115, 115}, {225, 275}, {275, 300}, {350, 375}}

// genModel draws a well-formed composite.
func genModel(t *rapid.T, o GenOpts) *Model {
	m := &Model{Enc: o.Enc}
	if m.Enc == "" {
		m.Enc = pick(t, "enc", "le", "le", "sb", "rl")
	}
	if o.MaxPix == 0 {
		o.MaxPix = 64
	}
	local := o.Local == 1 || o.Local == 0 && o.Shape[0] == 0 && chance(t, "local", 6)
	if local {
		if o.Products == nil {
			o.Products = localProducts
		}
		m.Product = rapid.SampledFrom(o.Products).Draw(t, "localProduct")
		m.Local = true
		m.W, m.H = 200, localOf[m.Product].py
	} else {
		m.Product = genProduct(t, o)
		switch {
		case o.Shape[0] != 0:
			m.W, m.H = o.Shape[0], o.Shape[1]
		case o.Big && chance(t, "wide", 50):
			m.W, m.H = rapid.IntRange(1500, 4300).Draw(t, "w"), rapid.IntRange(1, 3).Draw(t, "h")
		case !o.Small && chance(t, "tall", 3):
			m.W, m.H = rapid.IntRange(1, 40).Draw(t, "w"), rapid.IntRange(1, 500).Draw(t, "h")
		case !o.Small && chance(t, "round", 3): // sizes with a meaning somewhere
			sizes := []int{16, 32, 64, 100, 120, 128, 180, 200, 224, 225, 250, 256, 300, 350, 400}
			m.W, m.H = rapid.SampledFrom(sizes).Draw(t, "w"), rapid.SampledFrom(sizes).Draw(t, "h")
			switch pick(t, "shape", 0, 1, 2) {
			case 1: // squares
				m.H = m.W
			case 2: // powers of two
				k := rapid.IntRange(0, 12).Draw(t, "log2w")
				m.W, m.H = 1<<k, 1<<rapid.IntRange(0, min(12, 18-k)).Draw(t, "log2h")
			}
		case !o.Small && chance(t, "medium", 20):
			m.W, m.H = rapid.IntRange(1, 300).Draw(t, "w"), rapid.IntRange(1, 40).Draw(t, "h")
		default:
			m.W, m.H = rapid.IntRange(1, 12).Draw(t, "w"), rapid.IntRange(1, 12).Draw(t, "h")
		}
	}
	m.setTime(genTime(t))
	m.WMO = fmt.Sprintf("%05d", rapid.OneOf(rapid.Just(10000), rapid.IntRange(0, 99999)).Draw(t, "wmo"))

	fs := genOptional(t, o.Big)
	if !m.Local {
		f := dimField(t, m.W, m.H)
		fs = append(fs, f)
		if f.K == "BG" && chance(t, "bothDims", 6) { // that agree
			fs = append(fs, Field{"GP", fmt.Sprintf("%4dx%4d", m.H, m.W)})
		}
	}
	if chance(t, "VS", 60) {
		v := rapid.OneOf(rapid.IntRange(0, 9), rapid.IntRange(0, 9), rapid.IntRange(0, 99), rapid.IntRange(0, 9999)).Draw(t, "vs")
		fs = append(fs, Field{"VS", fmt.Sprintf(pick(t, "vsfmt", "%2d", "%2d", "%d", "%02d", " %d"), v)})
	}
	if chance(t, "INT", 60) {
		v := rapid.OneOf(rapid.SampledFrom([]int{0, 1, 5, 15, 60, 61, 120, 1008, 1440, 2016, 4320, 9999}), rapid.IntRange(0, 9999), rapid.IntRange(0, 600000)).Draw(t, "int")
		fs = append(fs, Field{"INT", fmt.Sprintf(pick(t, "intfmt", "%4d", "%d", " %d", "%04d"), v)})
	}
	if chance(t, "VV", 50) {
		v := rapid.OneOf(rapid.SampledFrom([]int{0, 5, 8, 9, 10, 60, 100, 120}), rapid.IntRange(0, 999), rapid.IntRange(0, 20000)).Draw(t, "vv")
		fs = append(fs, Field{"VV", fmt.Sprintf(pick(t, "vvfmt", " %03d", "%4d", "%d"), v)})
	}
	if chance(t, "PR", 60) {
		m.Prec = rapid.OneOf(rapid.IntRange(-3, 1), rapid.IntRange(-5, 5), rapid.IntRange(-9, 9)).Draw(t, "prec")
		v := fmt.Sprintf(pick(t, "prfmt", " E%+03d", " E%+03d", " E%+03d", " E%+03d", " E%d", " E %d", "  E%+02d ", " E%+04d"), m.Prec)
		if m.Prec == 0 && chance(t, "minusZero", 20) {
			v = " E-00"
		}
		fs = append(fs, Field{"PR", v})
	}
	if m.Enc == "rl" {
		m.Levels = genLevels(t)
		fs = append(fs, Field{"LV", fmt.Sprintf("%2d%s", len(m.Levels), strings.Join(m.Levels, ""))})
	}
	if chance(t, "shuffle", 60) {
		fs = rapid.Permutation(fs).Draw(t, "order")
		m.BYPos = rapid.IntRange(0, len(fs)).Draw(t, "byPos")
	}
	m.Fields = fs
	m.BYPad = pick(t, "byPad", 7, 7, 5, 1, 8, 10)
	m.BYZero = chance(t, "byZero", 10)

	switch m.Enc {
	case "rl":
		n := min(m.H, rapid.IntRange(1, 6).Draw(t, "nrows"))
		maxRuns := 12
		if chance(t, "uniform", 12) { // no row has data, or all are one run after another
			genUniform(t, m)
			n = 0
		}
		for i := 0; i < n; i++ {
			r := genRow(t, m.W, maxRuns)
			if o.Big && !r.Empty && !r.NoOff && chance(t, "longRow", 50) {
				// empty runs and one pixel runs make rows beyond the read buffer
				r.Pad = rapid.OneOf(rapid.IntRange(3000, 9500), rapid.IntRange(3000, 9500), rapid.IntRange(9500, 300000)).Draw(t, "extra")
				r.Pad = min(r.Pad, 4<<20/m.H) // rows repeat
			}
			m.Rows = append(m.Rows, r)
		}
		if chance(t, "eot", 40) {
			m.Trailer = []byte{4}
		}
	default:
		genPixels(t, m, o.MaxPix)
	}
	return m
}

// ---------------------------------------------------------------- field access

func (m *Model) field(k string) (string, bool) {
	for i := len(m.Fields) - 1; i >= 0; i-- {
		if m.Fields[i].K == k {
			return m.Fields[i].V, true
		}
	}
	return "", false
}

func (m *Model) clone() *Model {
	c := *m
	c.Fields = append([]Field{}, m.Fields...)
	c.Rows = append([]Row{}, m.Rows...)
	return &c
}

func (m *Model) setField(k, v string) {
	for i := range m.Fields {
		if m.Fields[i].K == k {
			m.Fields[i].V = v
			return
		}
	}
	m.Fields = append(m.Fields, Field{k, v})
}

func (m *Model) dropField(k string) {
	var fs []Field
	for i, f := range m.Fields {
		if f.K == k {
			if m.BYPos > i {
				m.BYPos--
			}
			continue
		}
		fs = append(fs, f)
	}
	m.Fields = fs
}
