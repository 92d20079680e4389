package main

import (
	"bytes"
	"fmt"
	"math"
	"math/bits"

	"gitlab.cs.fau.de/since/radolan"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- reference

const deg = math.Pi / 180

// gridDef is the documentation of one grid.
type gridDef struct {
	name               string
	w, h               int // extent in km, and nominal size
	north, west        float64
	south, east        float64
	minWidth, minHight int
}

var gridDefs = []gridDef{
	{"national", 900, 900, 54.5877, 2.0715, 47.0705, 14.6209, 225, 225},
	{"national picture", 920, 920, 54.66218275, 1.900684377, 46.98044293, 14.73300934, 115, 115},
	{"extended national", 900, 1100, 55.5482, 3.0889, 46.1827, 15.4801, 225, 275},
	{"DE1200", 1100, 1200, 55.86584289, 1.435612143, 45.68358331, 16.60186543, 275, 300},
	{"middle-european", 1400, 1500, 56.5423, -0.8654, 43.8736, 18.2536, 350, 375},
}

// DE1200 from format version 5 on
var gridWGS84 = gridDef{"DE1200 WGS84", 1100, 1200, 55.86208711, 1.463301510, 45.68460578, 16.58086935, 275, 300}

// refGrid finds the grid of a shape and version.
func refGrid(w, h, format int) *gridDef {
	if w <= 0 || h <= 0 {
		return nil
	}
	s := min(bits.TrailingZeros64(uint64(w)), bits.TrailingZeros64(uint64(h)))
	w, h = w>>s, h>>s
	for i := range gridDefs {
		g := &gridDefs[i]
		k := min(bits.TrailingZeros(uint(g.w)), bits.TrailingZeros(uint(g.h)))
		if w != g.w>>k || h != g.h>>k {
			continue
		}
		if format >= 5 {
			if g.name == "DE1200" {
				return &gridWGS84
			}
			return nil
		}
		return g
	}
	return nil
}

const (
	sphereR = 6370.04
	wgsA    = 6378137.0
	wgsB    = 6356752.3142451802
)

var wgsE = math.Sqrt(1 - wgsB*wgsB/(wgsA*wgsA))

// plane gives the unscaled position (km on the sphere, arbitrary unit on the
// ellipsoid) to the right of and below the pole.
func (g *gridDef) plane(lat, lon float64) (x, y float64) {
	var r float64
	if g == &gridWGS84 {
		phi := lat * deg
		// isometric latitude
		psi := math.Asinh(math.Tan(phi)) - wgsE*math.Atanh(wgsE*math.Sin(phi))
		if lat >= 90 {
			psi = math.Inf(1)
		}
		r = 11862.667 * math.Exp(-psi)
	} else {
		r = sphereR * (1 + math.Sqrt(3)/2) * math.Tan((90-lat)/2*deg)
	}
	a := math.Remainder(lon-10, 360) * deg
	return r * math.Sin(a), r * math.Cos(a)
}

// project is the documented position in pixels of a w x h grid.
func (g *gridDef) project(w, h int, lat, lon float64) (x, y float64) {
	x0, y0 := g.plane(g.north, g.west)
	x1, y1 := g.plane(g.south, g.east)
	px, py := g.plane(lat, lon)
	return (px - x0) / (x1 - x0) * float64(w), (py - y0) / (y1 - y0) * float64(h)
}

// unproject is the inverse.
func (g *gridDef) unproject(w, h int, x, y float64) (lat, lon float64) {
	x0, y0 := g.plane(g.north, g.west)
	x1, y1 := g.plane(g.south, g.east)
	x = x/float64(w)*(x1-x0) + x0
	y = y/float64(h)*(y1-y0) + y0
	lon = 10 + math.Atan2(x, y)/deg
	if g == &gridWGS84 {
		r := math.Hypot(x, y)
		chi := math.Pi/2 - 2*math.Atan(r/11862.667)
		phi := chi
		for i := 0; i < 30; i++ {
			es := wgsE * math.Sin(phi)
			phi = 2*math.Atan(math.Tan(math.Pi/4+chi/2)*math.Pow((1+es)/(1-es), wgsE/2)) - math.Pi/2
		}
		return phi / deg, lon
	}
	// documented with the grid data
	q := sphereR * sphereR * (1 + math.Sin(60*deg)) * (1 + math.Sin(60*deg))
	lat = math.Asin((q-(x*x+y*y))/(q+(x*x+y*y))) / deg
	return lat, lon
}

// apart is the distance of two places in degrees.
func apart(lat1, lon1, lat2, lon2 float64) float64 {
	v := func(lat, lon float64) (a, b, c float64) {
		return math.Cos(lat*deg) * math.Cos(lon*deg), math.Cos(lat*deg) * math.Sin(lon*deg), math.Sin(lat * deg)
	}
	a1, b1, c1 := v(lat1, lon1)
	a2, b2, c2 := v(lat2, lon2)
	return math.Sqrt((a1-a2)*(a1-a2)+(b1-b2)*(b1-b2)+(c1-c2)*(c1-c2)) / deg
}

// ---------------------------------------------------------------- C12 C13

type projCase struct {
	Parsed  bool
	Product string
	Format  int
	W, H    int
	Points  [][2]F
	Head    []Field `json:",omitempty"` // of a parsed one
}

func (cs *projCase) composite() (*radolan.Composite, error) {
	return shapeComposite(cs.Parsed, cs.Product, cs.Format, cs.W, cs.H, cs.Head...)
}

// shapeComposite is a blank or a parsed composite of the given shape.
// A parsed one has the further header fields, and dates in 2016 unless one of them
// is the pseudo field "@", which gives the date, the radar and month with year.
func shapeComposite(parsed bool, product string, format, w, h int, head ...Field) (*radolan.Composite, error) {
	if !parsed {
		return radolan.NewDummy(product, format, w, h), nil
	}
	m := hollow(product, w, h, Field{"GP", fmt.Sprintf("%4dx%4d", h, w)})
	if format != 0 {
		m.Fields = append(m.Fields, Field{"VS", fmt.Sprintf("%2d", format)})
	}
	for _, f := range head {
		if f.K == "@" {
			m.Stamp, m.WMO, m.MMYY = f.V[:6], f.V[6:11], f.V[11:]
			continue
		}
		m.Fields = append(m.Fields, f)
	}
	return m.parse()
}

// genHead draws what else a header says.
func genHead(t *rapid.T) []Field {
	var m Model
	m.setTime(genTime(t))
	fs := []Field{{"@", m.Stamp + fmt.Sprintf("%05d", rapid.OneOf(rapid.Just(10000), rapid.IntRange(0, 99999)).Draw(t, "wmo")) + m.MMYY}}
	if chance(t, "optional", 50) {
		fs = append(fs, genOptional(t, false)...)
	}
	if chance(t, "INT", 60) {
		fs = append(fs, Field{"INT", fmt.Sprintf("%4d", rapid.OneOf(rapid.SampledFrom([]int{0, 1, 5, 15, 60, 61, 1008, 1440, 2016, 9999}), rapid.IntRange(0, 9999)).Draw(t, "int"))})
	}
	if chance(t, "VV", 60) {
		fs = append(fs, Field{"VV", fmt.Sprintf(" %03d", rapid.OneOf(rapid.SampledFrom([]int{0, 5, 60, 120}), rapid.IntRange(0, 120), rapid.IntRange(0, 9999)).Draw(t, "vv"))})
	}
	if chance(t, "PR", 40) {
		fs = append(fs, Field{"PR", fmt.Sprintf(" E%+03d", rapid.IntRange(-4, 2).Draw(t, "prec"))})
	}
	return fs
}

func checkProjection(cs projCase, o *Obs) error {
	g := refGrid(cs.W, cs.H, cs.Format)
	if g == nil {
		fatal("no grid for %+v", cs)
	}
	c, err := cs.composite()
	if err != nil {
		return err
	}
	if !c.HasProjection {
		return fmt.Errorf("%dx%d (%s grid, version %d) has no projection", cs.W, cs.H, g.name, cs.Format)
	}
	inside := 0
	one := func(lat, lon float64) error {
		x, y := c.Project(lat, lon)
		wx, wy := g.project(cs.W, cs.H, lat, lon)
		// fractions of the grid's size
		tolx := 1e-9*(float64(cs.W)+math.Abs(wx)) + 1e-9
		toly := 1e-9*(float64(cs.H)+math.Abs(wy)) + 1e-9
		if !near(x, wx, tolx) || !near(y, wy, toly) {
			return fmt.Errorf("%s grid %dx%d version %d: Project(%v, %v) = (%v, %v), want (%v, %v)", g.name, cs.W, cs.H, cs.Format, lat, lon, x, y, wx, wy)
		}
		if x >= 0 && x < float64(cs.W) && y >= 0 && y < float64(cs.H) {
			inside++
		}
		rlat, rlon := g.unproject(cs.W, cs.H, x, y)
		if d := apart(lat, lon, rlat, rlon); !(d < 1e-6) {
			return fmt.Errorf("%s grid %dx%d version %d: Project(%v, %v) = (%v, %v), which is the position of (%v, %v)", g.name, cs.W, cs.H, cs.Format, lat, lon, x, y, rlat, rlon)
		}
		return nil
	}
	for _, p := range cs.Points {
		if err := one(float64(p[0]), float64(p[1])); err != nil {
			return err
		}
	}
	// documented corners
	x, y := c.Project(g.north, g.west)
	if !near(x, 0, 1e-6*float64(cs.W)) || !near(y, 0, 1e-6*float64(cs.H)) {
		return fmt.Errorf("%s grid %dx%d: upper left corner at (%v, %v)", g.name, cs.W, cs.H, x, y)
	}
	x, y = c.Project(g.south, g.east)
	if !near(x, float64(cs.W), 1e-6*float64(cs.W)) || !near(y, float64(cs.H), 1e-6*float64(cs.H)) {
		return fmt.Errorf("%s grid %dx%d: lower right corner at (%v, %v)", g.name, cs.W, cs.H, x, y)
	}
	o.Label("%s", g.name)
	if cs.Parsed {
		o.Label("parsed")
	}
	if inside > 0 {
		o.NT()
	}
	return nil
}

func genPoints(t *rapid.T, n int) [][2]F {
	var ps [][2]F
	for i := 0; i < n; i++ {
		var lat, lon float64
		switch rapid.IntRange(0, 6).Draw(t, "region") {
		case 5: // next to one before
			if i > 0 {
				d := math.Pow(10, -float64(rapid.IntRange(1, 11).Draw(t, "closeness")))
				q := ps[rapid.IntRange(0, i-1).Draw(t, "near")]
				lat = float64(q[0]) + d*float64(rapid.IntRange(-3, 3).Draw(t, "dlat"))
				lon = float64(q[1]) + d*float64(rapid.IntRange(-3, 3).Draw(t, "dlon"))
				lat = math.Min(lat, 90)
				break
			}
			fallthrough
		case 6: // documented corners and few decimals
			g := gridDefs[rapid.IntRange(0, len(gridDefs)-1).Draw(t, "cornerGrid")]
			lat, lon = pick(t, "cornerLat", g.north, g.south, 60, 51, 50), pick(t, "cornerLon", g.west, g.east, 10, 0, 9)
			if chance(t, "decimals", 50) {
				f := math.Pow(10, float64(rapid.IntRange(0, 5).Draw(t, "decimals")))
				lat = math.Round(rapid.Float64Range(43, 57).Draw(t, "lat")*f) / f
				lon = math.Round(rapid.Float64Range(-1, 19).Draw(t, "lon")*f) / f
			}
		case 0, 1: // around Germany
			lat = rapid.Float64Range(43, 57).Draw(t, "lat")
			lon = rapid.Float64Range(-1, 19).Draw(t, "lon")
		case 2:
			lat = rapid.Float64Range(-80, 90).Draw(t, "lat")
			lon = rapid.Float64Range(-180, 180).Draw(t, "lon")
		case 3:
			lat = float64(rapid.IntRange(-80, 90).Draw(t, "lat"))
			lon = float64(rapid.IntRange(-36, 36).Draw(t, "lon")) * 10
		default:
			lat = rapid.Float64Range(40, 60).Draw(t, "lat")
			lon = rapid.Float64Range(-720, 720).Draw(t, "lon")
		}
		ps = append(ps, [2]F{F(lat), F(lon)})
	}
	return ps
}

func genFormat(t *rapid.T, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(t, "format")
}

func genAnyProduct(t *rapid.T) string {
	return rapid.SampledFrom(append([]string{"", "QQ", "WX", "RX"}, knownProducts...)).Draw(t, "product")
}

func genProj(t *rapid.T, wgs bool) projCase {
	cs := projCase{Product: genAnyProduct(t)}
	g := gridDefs[rapid.IntRange(0, len(gridDefs)-1).Draw(t, "grid")]
	if wgs {
		g = gridWGS84
	}
	k := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 40)).Draw(t, "scale")
	cs.W, cs.H = g.minWidth<<k, g.minHight<<k
	if k <= 3 && chance(t, "parsed", 30) {
		cs.Parsed = true
		if cs.Product == "" {
			cs.Product = "RX"
		}
		cs.Head = genHead(t)
	}
	switch {
	case wgs:
		cs.Format = rapid.OneOf(rapid.IntRange(5, 6), rapid.IntRange(5, 99)).Draw(t, "format")
	case cs.Parsed:
		cs.Format = rapid.IntRange(0, 4).Draw(t, "format")
	default:
		cs.Format = rapid.IntRange(-3, 4).Draw(t, "format")
	}
	cs.Points = genPoints(t, rapid.IntRange(1, 12).Draw(t, "n"))
	return cs
}

func latticeEnum(wgs bool) func(string, func(projCase) bool) {
	return func(tier string, yield func(projCase) bool) {
		step := 0.25
		if tier == "thorough" {
			step = 0.05
		}
		var gs []*gridDef
		for i := range gridDefs {
			gs = append(gs, &gridDefs[i])
		}
		formats := []int{0, 1, 2, 3, 4}
		if wgs {
			gs = []*gridDef{&gridWGS84}
			formats = []int{5, 6, 9, 50}
		}
		for _, g := range gs {
			for i, f := range formats {
				k := i % 4
				for lat := -80.0; lat <= 90; lat += 2 {
					cs := projCase{Product: "WX", Format: f, W: g.minWidth << k, H: g.minHight << k, Parsed: i%2 == 1}
					for lon := -180.0; lon <= 180; lon += 7.5 {
						cs.Points = append(cs.Points, [2]F{F(lat), F(lon)})
					}
					if !yield(cs) {
						return
					}
				}
				for lat := 43.0; lat <= 57; lat += step {
					cs := projCase{Product: "FX", Format: f, W: g.minWidth << k, H: g.minHight << k}
					for lon := -2.0; lon <= 20; lon += step {
						cs.Points = append(cs.Points, [2]F{F(lat), F(lon)})
					}
					if !yield(cs) {
						return
					}
				}
			}
		}
	}
}

// otherShape is a composite that exists besides the one in question.
type otherShape struct {
	Parsed  bool
	Product string
	Format  int
	W, H    int
	N       int // so many of them
}

// afterCase is a case after (and while) other composites exist.
type afterCase[C any] struct {
	Before []otherShape
	Case   C
}

// checkAfter checks the case and that the others stay what they were.
func checkAfter[C any](check func(C, *Obs) error) func(afterCase[C], *Obs) error {
	places := [][2]float64{{51, 9}, {48.125, 12.5}, {54.5, 7.25}}
	type state struct {
		c *radolan.Composite
		v [8]float64
	}
	look := func(c *radolan.Composite) (v [8]float64) {
		for i, p := range places {
			v[2*i], v[2*i+1] = c.Project(p[0], p[1])
		}
		v[6], v[7] = c.Rx, c.Ry
		return
	}
	return func(cs afterCase[C], o *Obs) error {
		var all []state
		for _, b := range cs.Before {
			for i := 0; i < b.N; i++ {
				c, err := shapeComposite(b.Parsed, b.Product, b.Format, b.W, b.H)
				if err != nil {
					return err
				}
				all = append(all, state{c, look(c)})
			}
			if g := refGrid(b.W, b.H, b.Format); g != nil {
				o.Label("after %s", g.name)
			}
		}
		if err := check(cs.Case, o); err != nil {
			return fmt.Errorf("after %+v: %v", cs.Before, err)
		}
		for _, s := range all {
			v := look(s.c)
			for i := range v {
				if !same64(v[i], s.v[i]) {
					return fmt.Errorf("%q %dx%d version %d: projection or resolution changed from %v to %v", s.c.Product, s.c.Dx, s.c.Dy, s.c.Format, s.v, v)
				}
			}
		}
		return nil
	}
}

// genOthers draws composites related to the one of the given shape.
func genOthers(t *rapid.T, product string, format, w, h int) []otherShape {
	var os []otherShape
	for n := rapid.IntRange(1, 5).Draw(t, "others"); n > 0; n-- {
		b := otherShape{Product: product, Format: format, W: w, H: h, N: pick(t, "times", 1, 1, 2, 4)}
		switch rapid.IntRange(0, 6).Draw(t, "other") {
		case 0: // another version
		case 1:
			b.W, b.H = w*2, h*2
		case 2:
			b.W, b.H = w/2, h/2
		case 3:
			b.W, b.H = h, w
		case 4:
			g := gridDefs[rapid.IntRange(0, len(gridDefs)-1).Draw(t, "grid")]
			k := rapid.IntRange(0, 3).Draw(t, "k")
			b.W, b.H = g.minWidth<<k, g.minHight<<k
		case 5:
			b.W, b.H = genShape(t, false)
		case 6: // alike
		}
		if chance(t, "otherVersion", 60) {
			b.Format = pick(t, "version", 0, 2, 3, 4, 5, 5, 6)
		}
		if chance(t, "otherProduct", 30) {
			b.Product = genAnyProduct(t)
		}
		if chance(t, "parsed", 20) && b.W > 0 && b.H > 0 && b.W < 3000 && b.H < 3000 && b.W*b.H <= 1<<20 && b.Format >= 0 && b.Format < 100 {
			b.Parsed = true
			if b.Product == "" || clashing[b.Product] {
				b.Product = "RX"
			}
		}
		os = append(os, b)
	}
	return os
}

// decodedGrids are those of largeGrids with one of the projections.
func decodedGrids(wgs bool) func(string, func(*Model) bool) {
	return func(tier string, yield func(*Model) bool) {
		largeGrids(tier, func(m *Model) bool {
			_, _, _, format := m.wantMeta()
			if g := refGrid(m.W, m.H, format); g == nil || (g == &gridWGS84) != wgs {
				return true
			}
			return yield(m)
		})
	}
}

// checkDecodedProj is checkProjection for a composite with data.
func checkDecodedProj(m *Model, o *Obs) error {
	c, err := m.parse()
	if err != nil {
		return err
	}
	_, _, _, format := m.wantMeta()
	g := refGrid(m.W, m.H, format)
	if !c.HasProjection {
		return fmt.Errorf("%s %s %dx%d version %d has no projection", m.Product, m.Enc, m.W, m.H, format)
	}
	for i := 0; i < 50; i++ {
		z := mix(m.Seed, i)
		lat, lon := 43+14*float64(z%10007)/10007, -1+20*float64(z>>20%10009)/10009
		x, y := c.Project(lat, lon)
		wx, wy := g.project(m.W, m.H, lat, lon)
		if !near(x, wx, 1e-9*(float64(m.W)+math.Abs(wx))+1e-9) || !near(y, wy, 1e-9*(float64(m.H)+math.Abs(wy))+1e-9) {
			return fmt.Errorf("%s %s, %s grid %dx%d version %d: Project(%v, %v) = (%v, %v), want (%v, %v)", m.Product, m.Enc, g.name, m.W, m.H, format, lat, lon, x, y, wx, wy)
		}
	}
	o.Label("%s", g.name)
	o.NT()
	return nil
}

const projRule = "random sizes of the grid (nominal shape halved as far as possible times 2^k), products, versions, blank and parsed composites with 1-12 random coordinates (Germany, whole earth from 80 S, whole degrees, longitudes up to +-720), and lattices of coordinates over the earth and finer over Germany; each position is compared with an independently written reference and taken back through the inverse. Non-trivial: at least one coordinate lies on the grid. Distinct by case content."

func init() {
	register(&Prop{
		ID: "C12", Rule: projRule,
		Assume: []string{"latitudes below 80 S, towards the projection's singular point, are not generated"},
		Sections: []Section{
			Rand("random", 40000, 600000, func(t *rapid.T) projCase { return genProj(t, false) }, checkProjection),
			Rand("after", 6000, 100000, func(t *rapid.T) afterCase[projCase] {
				cs := genProj(t, false)
				return afterCase[projCase]{genOthers(t, cs.Product, cs.Format, cs.W, cs.H), cs}
			}, checkAfter(checkProjection)),
			Enum("lattice", latticeEnum(false), checkProjection),
			Enum("decoded", decodedGrids(false), checkDecodedProj),
		},
	})
	register(&Prop{
		ID: "C13", Rule: projRule,
		Assume: []string{"latitudes below 80 S, towards the projection's singular point, are not generated"},
		Sections: []Section{
			Rand("random", 40000, 600000, func(t *rapid.T) projCase { return genProj(t, true) }, checkProjection),
			Rand("after", 6000, 100000, func(t *rapid.T) afterCase[projCase] {
				cs := genProj(t, true)
				return afterCase[projCase]{genOthers(t, cs.Product, cs.Format, cs.W, cs.H), cs}
			}, checkAfter(checkProjection)),
			Enum("lattice", latticeEnum(true), checkProjection),
			Enum("decoded", decodedGrids(true), checkDecodedProj),
		},
	})
}

// ---------------------------------------------------------------- C14

type gridCase struct {
	Parsed  bool
	Product string
	Format  int
	W, H    int
	Points  [][2]F
	Head    []Field `json:",omitempty"` // of a parsed one
}

func checkGrid(cs gridCase, o *Obs) error {
	g := refGrid(cs.W, cs.H, cs.Format)
	c, err := shapeComposite(cs.Parsed, cs.Product, cs.Format, cs.W, cs.H, cs.Head...)
	if err != nil {
		return err
	}
	what := fmt.Sprintf("%q %dx%d version %d", cs.Product, cs.W, cs.H, cs.Format)
	if c.HasProjection != (g != nil) {
		return fmt.Errorf("%s: HasProjection is %v", what, c.HasProjection)
	}
	if g == nil {
		o.Label("none")
		for _, p := range cs.Points {
			if x, y := c.Project(float64(p[0]), float64(p[1])); !math.IsNaN(x) || !math.IsNaN(y) {
				return fmt.Errorf("%s: Project(%v, %v) = (%v, %v) without projection", what, p[0], p[1], x, y)
			}
		}
		if refGrid(cs.W, cs.H, 0) != nil || refGrid(cs.H, cs.W, 0) != nil || refGrid(cs.W, cs.W, 0) != nil || refGrid(cs.H, cs.H, 0) != nil {
			o.NT()
			o.Label("near miss")
		}
	} else {
		o.Label("%s", g.name)
		o.NT()
	}
	// another label changes nothing, parsed or blank changes nothing
	for _, other := range []string{"RX", "WX", "PG", "PX", "EX", "XY", ""} {
		d := radolan.NewDummy(other, cs.Format, cs.W, cs.H)
		if err := sameProjection(c, d, cs.Points); err != nil {
			return fmt.Errorf("%s and a blank %q of the same shape and version: %v", what, other, err)
		}
	}
	// doubling
	if cs.W > 0 && cs.H > 0 && cs.W < 1<<45 && cs.H < 1<<45 {
		d := radolan.NewDummy(cs.Product, cs.Format, 2*cs.W, 2*cs.H)
		if d.HasProjection != c.HasProjection {
			return fmt.Errorf("%s: HasProjection is %v, but %v at twice the size", what, c.HasProjection, d.HasProjection)
		}
		if c.HasProjection {
			for _, p := range cs.Points {
				x, y := c.Project(float64(p[0]), float64(p[1]))
				dx, dy := d.Project(float64(p[0]), float64(p[1]))
				if !near(dx, 2*x, 1e-9*(math.Abs(dx)+float64(cs.W))) || !near(dy, 2*y, 1e-9*(math.Abs(dy)+float64(cs.H))) {
					return fmt.Errorf("%s: Project(%v, %v) is (%v, %v), but (%v, %v) at twice the size", what, p[0], p[1], x, y, dx, dy)
				}
			}
		}
	}
	return nil
}

func sameProjection(a, b *radolan.Composite, ps [][2]F) error {
	if a.HasProjection != b.HasProjection {
		return fmt.Errorf("HasProjection is %v and %v", a.HasProjection, b.HasProjection)
	}
	for _, p := range ps {
		ax, ay := a.Project(float64(p[0]), float64(p[1]))
		bx, by := b.Project(float64(p[0]), float64(p[1]))
		if !near(ax, bx, 1e-9*(1+math.Abs(ax))) || !near(ay, by, 1e-9*(1+math.Abs(ay))) {
			return fmt.Errorf("Project(%v, %v) is (%v, %v) and (%v, %v)", p[0], p[1], ax, ay, bx, by)
		}
	}
	return nil
}

// a strip of shapes: width W, all heights H0 <= h < H1
type stripCase struct{ W, H0, H1, Format int }

func checkStrip(cs stripCase, o *Obs) error {
	n := 0
	for h := cs.H0; h < cs.H1; h++ {
		c := radolan.NewDummy("RX", cs.Format, cs.W, h)
		g := refGrid(cs.W, h, cs.Format)
		if c.HasProjection != (g != nil) {
			return fmt.Errorf("%dx%d version %d: HasProjection is %v", cs.W, h, cs.Format, c.HasProjection)
		}
		x, y := c.Project(51, 10.5)
		if g == nil {
			if !math.IsNaN(x) || !math.IsNaN(y) {
				return fmt.Errorf("%dx%d version %d: Project gives (%v, %v) without projection", cs.W, h, cs.Format, x, y)
			}
			continue
		}
		n++
		wx, wy := g.project(cs.W, h, 51, 10.5)
		if !near(x, wx, 1e-6*wx) || !near(y, wy, 1e-6*wy) {
			return fmt.Errorf("%dx%d version %d: Project(51, 10.5) is (%v, %v), want (%v, %v)", cs.W, h, cs.Format, x, y, wx, wy)
		}
	}
	if n > 0 {
		o.NT()
	}
	o.Label("grids in strip: %d", n)
	return nil
}

func genShape(t *rapid.T, parsed bool) (w, h int) {
	g := gridDefs[rapid.IntRange(0, len(gridDefs)-1).Draw(t, "grid")]
	maxk := 40
	if parsed {
		maxk = 3
	}
	k := rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, maxk)).Draw(t, "scale")
	w, h = g.minWidth<<k, g.minHight<<k
	switch rapid.IntRange(0, 10).Draw(t, "change") {
	case 10: // sizes of local pictures
		return 200, rapid.SampledFrom([]int{200, 224, 400, 2400}).Draw(t, "h")
	case 0:
		w, h = h, w
	case 1:
		w *= 2
	case 2:
		h *= 2
	case 3:
		w += rapid.SampledFrom([]int{-1, 1, 2, -2}).Draw(t, "d")
	case 4:
		h += rapid.SampledFrom([]int{-1, 1, 2, -2}).Draw(t, "d")
	case 5:
		f := rapid.SampledFrom([]int{3, 5, 7}).Draw(t, "f")
		w, h = w*f, h*f
	case 6:
		if !parsed {
			w, h = rapid.SampledFrom([]int{-w, w, 0}).Draw(t, "w"), rapid.SampledFrom([]int{-h, h, 0}).Draw(t, "h")
		}
	case 7:
		if !parsed {
			w, h = genDim(t), genDim(t)
		} else {
			w, h = rapid.IntRange(1, 1500).Draw(t, "w"), rapid.IntRange(1, 1500).Draw(t, "h")
		}
	}
	if parsed && (w > 4000 || h > 4000) {
		w, h = g.minWidth, g.minHight
	}
	return
}

func init() {
	register(&Prop{
		ID:   "C14",
		Rule: "every shape up to 1536x1536 (thorough: 3100x3100) for versions 4 and 5 (a case is a strip of heights), and random shapes near the grids (scaled, swapped, one edge doubled, off by one or two, scaled by odd factors, negative, zero, extreme), versions -3..99, labels, blank and parsed composites, with random coordinates: detection, label independence, parsed/blank agreement and doubling. Non-trivial: the shape is a grid or a near miss; strips: contains a grid. Distinct by case content.",
		Sections: []Section{
			Enum("shapes", func(tier string, yield func(stripCase) bool) {
				n := 1536
				if tier == "thorough" {
					n = 3100
				}
				for w := 0; w <= n; w++ {
					for _, f := range []int{0, 3, 4, 5, 6} {
						if f != 4 && f != 5 && w%25 != 0 {
							continue
						}
						if !yield(stripCase{w, -2, n + 1, f}) {
							return
						}
					}
				}
			}, checkStrip),
			Rand("random", 30000, 500000, genGrid, checkGrid),
			Rand("after", 5000, 80000, func(t *rapid.T) afterCase[gridCase] {
				cs := genGrid(t)
				return afterCase[gridCase]{genOthers(t, cs.Product, cs.Format, cs.W, cs.H), cs}
			}, checkAfter(checkGrid)),
			Rand("parsed", 800, 12000, func(t *rapid.T) gridCase {
				cs := gridCase{Product: genProduct(t, GenOpts{}), Parsed: true}
				cs.W, cs.H = genShape(t, true)
				cs.Format = rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(0, 99)).Draw(t, "format")
				cs.Head = genHead(t)
				cs.Points = genPoints(t, rapid.IntRange(1, 5).Draw(t, "n"))
				return cs
			}, checkGrid),
			Rand("decoded", 60, 1500, func(t *rapid.T) *Model {
				s := gridShapes[rapid.IntRange(0, len(gridShapes)-1).Draw(t, "grid")]
				if chance(t, "double", 30) {
					s = [2]int{2 * s[0], 2 * s[1]}
				}
				return genModel(t, GenOpts{Shape: s})
			}, func(m *Model, o *Obs) error {
				c, err := m.parse()
				if err != nil {
					return err
				}
				_, _, _, format := m.wantMeta()
				d := radolan.NewDummy("ZZ", format, m.W, m.H)
				o.Label("projection %v", c.HasProjection)
				if c.HasProjection != (refGrid(m.W, m.H, format) != nil) {
					return fmt.Errorf("%dx%d version %d: HasProjection is %v", m.W, m.H, format, c.HasProjection)
				}
				o.NT()
				return sameProjection(c, d, [][2]F{{51, 10}, {54, 6.5}, {47.25, 13.125}, {0, 100}})
			}),
			Enum("large", largeGrids, func(m *Model, o *Obs) error {
				c, err := m.parse()
				if err != nil {
					return err
				}
				_, _, _, format := m.wantMeta()
				if c.HasProjection != (refGrid(m.W, m.H, format) != nil) {
					return fmt.Errorf("%s %dx%d version %d: HasProjection is %v", m.Enc, m.W, m.H, format, c.HasProjection)
				}
				o.Label("projection %v", c.HasProjection)
				o.NT()
				return sameProjection(c, radolan.NewDummy("ZZ", format, m.W, m.H), [][2]F{{51, 10}, {54, 6.5}, {47.25, 13.125}, {0, 100}})
			}),
		},
	})
}

func genGrid(t *rapid.T) gridCase {
	cs := gridCase{Product: genAnyProduct(t)}
	cs.W, cs.H = genShape(t, false)
	cs.Format = rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(-3, 99), rapid.SampledFrom([]int{math.MinInt64, math.MaxInt64, 4, 5})).Draw(t, "format")
	cs.Points = genPoints(t, rapid.IntRange(1, 5).Draw(t, "n"))
	return cs
}

// ---------------------------------------------------------------- C15

type resCase struct {
	Parsed  bool
	Product string
	Format  int
	W, H    int
	A, B    [2]F    // two places
	Head    []Field `json:",omitempty"` // of a parsed one
}

func checkRes(cs resCase, o *Obs) error {
	g := refGrid(cs.W, cs.H, cs.Format)
	c, err := shapeComposite(cs.Parsed, cs.Product, cs.Format, cs.W, cs.H, cs.Head...)
	if err != nil {
		return err
	}
	what := fmt.Sprintf("%q %dx%d version %d", cs.Product, cs.W, cs.H, cs.Format)
	if g == nil {
		o.Label("none")
		if !math.IsNaN(c.Rx) || !math.IsNaN(c.Ry) {
			return fmt.Errorf("%s: resolution %v, %v without projection", what, c.Rx, c.Ry)
		}
		return nil
	}
	o.Label("%s", g.name)
	if ex, ey := float64(cs.W)*c.Rx, float64(cs.H)*c.Ry; !near(ex, float64(g.w), float64(g.w)/1000) || !near(ey, float64(g.h), float64(g.h)/1000) {
		return fmt.Errorf("%s: extent %v km x %v km, want %d km x %d km", what, ex, ey, g.w, g.h)
	}
	// distances in km do not depend on the size of the grid
	d := radolan.NewDummy("RX", cs.Format, g.minWidth, g.minHight)
	km := func(c *radolan.Composite) (x, y float64) {
		ax, ay := c.Project(float64(cs.A[0]), float64(cs.A[1]))
		bx, by := c.Project(float64(cs.B[0]), float64(cs.B[1]))
		return (bx - ax) * c.Rx, (by - ay) * c.Ry
	}
	x1, y1 := km(c)
	x2, y2 := km(d)
	if !near(x1, x2, 1e-8*(1+math.Abs(x2))) || !near(y1, y2, 1e-8*(1+math.Abs(y2))) {
		return fmt.Errorf("%s: places are %v km, %v km apart, but %v km, %v km at size %dx%d", what, x1, y1, x2, y2, g.minWidth, g.minHight)
	}
	// and they are the distances in the projection plane
	if g != &gridWGS84 {
		ax, ay := g.plane(float64(cs.A[0]), float64(cs.A[1]))
		bx, by := g.plane(float64(cs.B[0]), float64(cs.B[1]))
		if !near(x1, bx-ax, 1e-3*(1+math.Abs(x1))) || !near(y1, by-ay, 1e-3*(1+math.Abs(y1))) {
			return fmt.Errorf("%s: places are %v km, %v km apart, want %v km, %v km", what, x1, y1, bx-ax, by-ay)
		}
	}
	o.NT()
	return nil
}

func checkLocalRes(m *Model, o *Obs) error {
	c, err := radolan.NewComposite(bytes.NewReader(m.Bytes()))
	if err != nil {
		return err
	}
	_, _, _, format := m.wantMeta()
	if m.Local {
		r := localOf[m.Product].res
		if c.Rx != r || c.Ry != r {
			return fmt.Errorf("local picture %s has resolution %v, %v, want %v", m.Product, c.Rx, c.Ry, r)
		}
		if c.HasProjection {
			return fmt.Errorf("local picture %s has a projection", m.Product)
		}
		o.Label("%s", m.Product)
		o.NT()
		return nil
	}
	o.Label("explicit dimensions")
	if refGrid(m.W, m.H, format) == nil && (!math.IsNaN(c.Rx) || !math.IsNaN(c.Ry)) {
		return fmt.Errorf("%s %dx%d without projection has resolution %v, %v", m.Product, m.W, m.H, c.Rx, c.Ry)
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C15",
		Rule: "random recognised grids at sizes 2^k (k up to 40), near misses of them, versions, labels, blank and parsed composites with two random places whose distance in km is compared over sizes and with the projection plane; all local products x encodings x versions; local products with explicit dimensions. Non-trivial: a recognised grid or a local picture. Distinct by case content.",
		Sections: []Section{
			Rand("random", 30000, 500000, genRes, checkRes),
			Rand("after", 5000, 80000, func(t *rapid.T) afterCase[resCase] {
				cs := genRes(t)
				return afterCase[resCase]{genOthers(t, cs.Product, cs.Format, cs.W, cs.H), cs}
			}, checkAfter(checkRes)),
			Enum("sizes", func(tier string, yield func(resCase) bool) {
				for _, g := range gridDefs {
					for k := 0; k <= 45; k++ {
						for f := -1; f <= 9; f++ {
							if !yield(resCase{false, "RX", f, g.minWidth << k, g.minHight << k, [2]F{51, 9}, [2]F{48, 12}, nil}) {
								return
							}
							if k <= 2 && f >= 0 && !yield(resCase{true, "RX", f, g.minWidth << k, g.minHight << k, [2]F{51, 9}, [2]F{48, 12}, nil}) {
								return
							}
						}
					}
				}
			}, checkRes),
			Enum("large", largeGrids, func(m *Model, o *Obs) error {
				c, err := m.parse()
				if err != nil {
					return err
				}
				_, _, _, format := m.wantMeta()
				d := radolan.NewDummy("ZZ", format, m.W, m.H)
				what := fmt.Sprintf("%s %s %dx%d version %d", m.Product, m.Enc, m.W, m.H, format)
				if !near(c.Rx, d.Rx, 1e-9) || !near(c.Ry, d.Ry, 1e-9) {
					return fmt.Errorf("%s: resolution %v, %v, that of a blank composite %v, %v", what, c.Rx, c.Ry, d.Rx, d.Ry)
				}
				if g := refGrid(m.W, m.H, format); g == nil {
					if !math.IsNaN(c.Rx) || !math.IsNaN(c.Ry) {
						return fmt.Errorf("%s: resolution %v, %v without projection", what, c.Rx, c.Ry)
					}
				} else if !near(float64(m.W)*c.Rx, float64(g.w), float64(g.w)/1000) || !near(float64(m.H)*c.Ry, float64(g.h), float64(g.h)/1000) {
					return fmt.Errorf("%s: resolution %v, %v", what, c.Rx, c.Ry)
				}
				o.NT()
				return nil
			}),
			Enum("local", func(tier string, yield func(*Model) bool) {
				for _, p := range localProducts {
					for _, enc := range []string{"le", "sb", "rl"} {
						for _, vs := range []int{-1, 0, 2, 5} {
							m := &Model{Product: p, Stamp: "262115", WMO: "10908", MMYY: "0616", Enc: enc, W: 200, H: localOf[p].py, Local: true, BYPad: 7, Seed: 1}
							if vs >= 0 {
								m.Fields = append(m.Fields, Field{"VS", fmt.Sprintf("%2d", vs)})
							}
							if enc == "rl" {
								m.Levels = []string{"  1.0"}
								m.Rows = []Row{{Line: 55, Off: 3, Runs: []byte{0x11}}}
								m.Fields = append(m.Fields, Field{"LV", " 1  1.0"})
							}
							if !yield(m) {
								return
							}
						}
					}
				}
			}, checkLocalRes),
			Rand("localRandom", 1000, 10000, func(t *rapid.T) *Model {
				o := GenOpts{Local: -1, Products: localProducts}
				if chance(t, "catalogue", 5) {
					o.Local = 1
				}
				if o.Local != 1 && chance(t, "same", 30) {
					o.Shape = [2]int{200, rapid.SampledFrom([]int{200, 224, 2400}).Draw(t, "h")}
				}
				return genModel(t, o)
			}, checkLocalRes),
		},
	})
}

func genRes(t *rapid.T) resCase {
	cs := resCase{Product: genAnyProduct(t)}
	cs.Parsed = chance(t, "parsed", 8)
	cs.W, cs.H = genShape(t, cs.Parsed)
	if cs.Parsed {
		cs.Product = genProduct(t, GenOpts{})
		cs.Format = rapid.IntRange(0, 7).Draw(t, "format")
		cs.Head = genHead(t)
	} else {
		cs.Format = rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(-3, 99)).Draw(t, "format")
	}
	p := genPoints(t, 2)
	cs.A, cs.B = p[0], p[1]
	return cs
}

// ---------------------------------------------------------------- C16

type zrCase struct {
	A, B F
	DBZ  []float32
	Rate []F
}

func refRate(a, b, dbz float64) float64 {
	return math.Exp(math.Ln10 * (dbz/10 - math.Log10(a)) / b)
}

func refDBZ(a, b, rate float64) float64 {
	return 10 * (math.Log10(a) + b*math.Log10(rate))
}

func checkZR(cs zrCase, o *Obs) error {
	return checkRelation(radolan.NewZR(float64(cs.A), float64(cs.B)), cs, o)
}

func checkRelation(zr radolan.ZR, cs zrCase, o *Obs) error {
	a, b := float64(cs.A), float64(cs.B)
	for i, z := range cs.DBZ {
		r := radolan.PrecipitationRate(zr, z)
		w := refRate(a, b, float64(z))
		if !near(r, w, 1e-8*w) {
			return fmt.Errorf("a=%v b=%v: rate of %v dBZ is %v, want %v", a, b, z, r, w)
		}
		back := radolan.Reflectivity(zr, r)
		if !near(float64(back), float64(z), 1e-5+1e-6*math.Abs(float64(z))) {
			return fmt.Errorf("a=%v b=%v: %v dBZ -> %v -> %v dBZ", a, b, z, r, back)
		}
		for _, y := range cs.DBZ[:i] {
			s := radolan.PrecipitationRate(zr, y)
			if y < z-1e-3 && !(s < r) || z < y-1e-3 && !(r < s) {
				return fmt.Errorf("a=%v b=%v: rates of %v and %v dBZ are %v and %v", a, b, y, z, s, r)
			}
		}
	}
	for i, fr := range cs.Rate {
		r := float64(fr)
		z := radolan.Reflectivity(zr, r)
		w := refDBZ(a, b, r)
		if !near(float64(z), w, 1e-5+2e-7*math.Abs(w)) {
			return fmt.Errorf("a=%v b=%v: reflectivity of rate %v is %v, want %v", a, b, r, z, w)
		}
		back := radolan.PrecipitationRate(zr, z)
		if math.Abs(w)/10/b < 280 && !near(back, r, r*(1e-6+2e-7*math.Abs(w))/b) {
			return fmt.Errorf("a=%v b=%v: rate %v -> %v dBZ -> rate %v", a, b, r, z, back)
		}
		for _, fs := range cs.Rate[:i] {
			s := float64(fs)
			y := radolan.Reflectivity(zr, s)
			if s < r*0.999 && !(y < z) || r < s*0.999 && !(z < y) {
				return fmt.Errorf("a=%v b=%v: reflectivities of rates %v and %v are %v and %v", a, b, s, r, y, z)
			}
		}
	}
	if v := radolan.PrecipitationRate(zr, radolan.NaN); !math.IsNaN(v) {
		return fmt.Errorf("a=%v b=%v: rate of NaN is %v", a, b, v)
	}
	if v := radolan.Reflectivity(zr, math.NaN()); !isNaN32(v) {
		return fmt.Errorf("a=%v b=%v: reflectivity of NaN is %v", a, b, v)
	}
	if v := radolan.Reflectivity(zr, 0); !math.IsInf(float64(v), -1) {
		return fmt.Errorf("a=%v b=%v: reflectivity of rate 0 is %v", a, b, v)
	}
	if v := radolan.PrecipitationRate(zr, float32(math.Inf(-1))); v != 0 {
		return fmt.Errorf("a=%v b=%v: rate of -Inf dBZ is %v", a, b, v)
	}
	if len(cs.DBZ) > 1 && len(cs.Rate) > 1 {
		o.NT()
	}
	return nil
}

type presetCase struct {
	Name string
	DBZ0 int // tenths of dBZ
}

var presets = map[string]struct {
	zr   *radolan.ZR
	a, b float64
}{
	"Aniol80":          {&radolan.Aniol80, 256, 1.42},
	"Doelling98":       {&radolan.Doelling98, 316, 1.50},
	"JossWaldvogel70":  {&radolan.JossWaldvogel70, 300, 1.50},
	"MarshallPalmer55": {&radolan.MarshallPalmer55, 200, 1.60},
}

func checkPreset(cs presetCase, o *Obs) error {
	p := presets[cs.Name]
	z := zrCase{A: F(p.a), B: F(p.b)}
	for i := 0; i < 20; i++ {
		d := float32(cs.DBZ0+i) / 10
		z.DBZ = append(z.DBZ, d)
		z.Rate = append(z.Rate, F(math.Pow(10, float64(d)/20)))
	}
	o.Label("%s", cs.Name)
	if err := checkRelation(*p.zr, z, o); err != nil {
		return fmt.Errorf("%s: %v", cs.Name, err)
	}
	return nil
}

func init() {
	register(&Prop{
		ID:     "C16",
		Rule:   "random relationships (a from 0.0001 to 1000000, b from 0.3 to 20) with random reflectivities (-100..120, some -300..400 dBZ) and rates (1e-6..1e5, some 1e-300..1e300 mm/h): values against the formula computed differently, both round trips, order of all pairs, NaN, zero and -Inf; the predefined relationships over -100..120 dBZ in steps of 0.1. Non-trivial: at least two reflectivities and two rates. Distinct by case content.",
		Assume: []string{"strict order is checked for reflectivities at least 0.001 dBZ and rates at least 0.1 % apart (closer ones may fall together in single precision); rates are computed back from reflectivities only within 10^±280 mm/h (a factor apart)"},
		Sections: []Section{
			Rand("relations", 40000, 6000000, func(t *rapid.T) zrCase {
				cs := zrCase{}
				cs.A = F(rapid.OneOf(rapid.Float64Range(1, 1000), rapid.Float64Range(1, 10000), rapid.Map(rapid.Float64Range(-4, 6), func(e float64) float64 { return math.Pow(10, e) }), rapid.SampledFrom([]float64{0.5, 1, 10, 100, 200, 256, 300, 316})).Draw(t, "a"))
				cs.B = F(rapid.OneOf(rapid.Float64Range(0.3, 5), rapid.Float64Range(0.3, 20), rapid.SampledFrom([]float64{1, 1.4, 1.5, 1.6, 2})).Draw(t, "b"))
				for i := rapid.IntRange(0, 8).Draw(t, "n"); i > 0; i-- {
					cs.DBZ = append(cs.DBZ, float32(rapid.OneOf(rapid.Float64Range(-100, 120), rapid.Float64Range(-32.5, 75), rapid.Float64Range(-300, 400), rapid.Just(0.0)).Draw(t, "dbz")))
				}
				for i := rapid.IntRange(0, 8).Draw(t, "m"); i > 0; i-- {
					cs.Rate = append(cs.Rate, F(math.Pow(10, rapid.OneOf(rapid.Float64Range(-6, 5), rapid.Float64Range(-6, 5), rapid.Float64Range(-300, 300), rapid.Just(0.0)).Draw(t, "rate"))))
				}
				return cs
			}, checkZR),
			Enum("presets", func(tier string, yield func(presetCase) bool) {
				for _, n := range sortedKeys(presets) {
					for d := -1000; d < 1200; d += 10 {
						if !yield(presetCase{n, d}) {
							return
						}
					}
				}
			}, checkPreset),
		},
	})
}
