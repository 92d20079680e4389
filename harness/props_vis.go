package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"math"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- reference

// rgb is a colour with real valued channels from 0 to 255.
type rgb [3]float64

// hsl converts hue (degrees), saturation and lightness.
func hsl(h, s, l float64) rgb {
	a := s * math.Min(l, 1-l)
	f := func(n float64) float64 {
		k := math.Mod(n+h/30, 12)
		if k < 0 {
			k += 12
		}
		return 255 * (l - a*math.Max(-1, math.Min(math.Min(k-3, 9-k), 1)))
	}
	return rgb{f(0), f(8), f(4)}
}

// is accepts rounding of the channels in either way.
func (w rgb) is(got color.RGBA) bool {
	ok := func(g uint8, v float64) bool { return math.Abs(float64(g)-v) < 1.02 }
	return got.A == 0xFF && ok(got.R, w[0]) && ok(got.G, w[1]) && ok(got.B, w[2])
}

// a gradient by its documentation
type gradient struct {
	Kind     string // "gray", "heat" or "radial"
	Min, Max F
	Comp     string
}

var compressions = map[string]func(float64) float64{
	"id":     func(x float64) float64 { return x },
	"log":    math.Log,
	"log10":  math.Log10,
	"log1p":  math.Log1p,
	"sqrt":   math.Sqrt,
	"square": func(x float64) float64 { return x * x }, // for positive values only
	"cube":   func(x float64) float64 { return x * x * x },
	"asinh":  math.Asinh,
	"atan":   math.Atan,
	"scale":  func(x float64) float64 { return 1000*x + 7 },
	"step":   math.Floor,
	"shift":  func(x float64) float64 { return x - 1 },
	"flat":   func(x float64) float64 { return math.Cbrt(x) / 1e6 },
}

func (g *gradient) make() vis.ColorFunc {
	comp := compressions[g.Comp]
	switch g.Comp { // the library's own
	case "id":
		comp = vis.Id
	case "log":
		comp = vis.Log
	}
	switch g.Kind {
	case "gray":
		return vis.Graymap(float64(g.Min), float64(g.Max), comp)
	case "heat":
		return vis.Heatmap(float64(g.Min), float64(g.Max), comp)
	}
	return vis.Radialmap(float64(g.Min), float64(g.Max), comp)
}

var black = color.RGBA{0, 0, 0, 0xFF}

// check compares one colour with the documentation.
func (g *gradient) check(v float64, got color.RGBA) error {
	bad := func(w any) error {
		return fmt.Errorf("%s gradient from %v to %v (%s): colour of %v is %v, want %v", g.Kind, float64(g.Min), float64(g.Max), g.Comp, v, got, w)
	}
	if got.A != 0xFF {
		return bad("an opaque colour")
	}
	comp := compressions[g.Comp]
	if g.Kind == "radial" {
		switch {
		case math.IsNaN(v):
			if got != black {
				return bad(black)
			}
			return nil
		case math.Abs(v) <= 1:
			w := color.RGBA{0xFF, 0xCC, 0xCC, 0xFF}
			if v < 0 {
				w = color.RGBA{0xCC, 0xFF, 0xFF, 0xFF}
			}
			if got != w {
				return bad(w)
			}
			return nil
		}
		p := math.Min(1, comp(math.Abs(v))/comp(math.Max(math.Abs(float64(g.Min)), math.Abs(float64(g.Max)))))
		if math.IsInf(v, 0) {
			p = 1
		}
		w := rgb{255 * p, 0, 0}
		exact := got.G == 0 && got.B == 0
		if v < 0 {
			w = rgb{0, 255 * p, 255 * p}
			exact = got.R == 0 && got.G == got.B
		}
		if !w.is(got) || !exact || p == 1 && max(got.R, got.G) != 0xFF {
			return bad(w)
		}
		return nil
	}
	lo, hi, c := comp(float64(g.Min)), comp(float64(g.Max)), comp(v)
	if math.IsNaN(c) || c < lo {
		if got != black {
			return bad(black)
		}
		return nil
	}
	p := 1.0
	if c < hi {
		p = (c - lo) / (hi - lo)
	}
	w := rgb{255 * p, 255 * p, 255 * p}
	if g.Kind == "heat" {
		w = hsl(240-330*p, 1, 0.25+0.5*p)
	} else if got.R != got.G || got.G != got.B || p == 1 && got.R != 0xFF || c == lo && got.R != 0 {
		return bad(w)
	}
	if !w.is(got) {
		return bad(w)
	}
	return nil
}

// edge values are those whose side of a limit depends on the last bit
func (g *gradient) ambiguous(v float64) bool {
	for _, l := range []float64{float64(g.Min), float64(g.Max)} {
		if v != l && math.Abs(v-l) <= 1e-12*math.Abs(l) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C17 C18

type colorCase struct {
	G      gradient
	Values []F
}

func checkColors(cs colorCase, o *Obs) error {
	g := cs.G
	fn := g.make()
	inside := 0
	colors := make([]color.RGBA, len(cs.Values))
	for i, fv := range cs.Values {
		v := float64(fv)
		if g.ambiguous(v) {
			continue
		}
		colors[i] = fn(v)
		if err := g.check(v, colors[i]); err != nil {
			return err
		}
		if fn(v) != colors[i] {
			return fmt.Errorf("colour of %v is not always the same", v)
		}
		lo, hi := math.Min(float64(g.Min), -float64(g.Max)), float64(g.Max)
		if g.Kind != "radial" {
			lo = float64(g.Min)
		}
		if v > lo && v < hi {
			inside++
		}
		if g.Kind == "radial" && v != 0 && !math.IsNaN(v) {
			a, b := colors[i], fn(-v)
			if a.R != b.G || a.R != b.B || a.G != b.R || a.B != b.R {
				return fmt.Errorf("radial gradient from %v to %v (%s): colours of %v and %v are %v and %v", float64(g.Min), float64(g.Max), g.Comp, v, -v, a, b)
			}
		}
		for j := 0; j < i; j++ {
			u := float64(cs.Values[j])
			if g.ambiguous(u) {
				continue
			}
			a, b, x, y := colors[j], colors[i], u, v
			if x > y {
				a, b, x, y = b, a, y, x
			}
			switch {
			case g.Kind == "gray" && x <= y && a.R > b.R:
				return fmt.Errorf("gray gradient from %v to %v (%s): %v is brighter than %v", float64(g.Min), float64(g.Max), g.Comp, x, y)
			case g.Kind == "heat" && x >= float64(g.Min) && x <= y && lightness(a) > lightness(b)+1:
				return fmt.Errorf("heat gradient from %v to %v (%s): %v is lighter than %v", float64(g.Min), float64(g.Max), g.Comp, x, y)
			case g.Kind == "radial" && x > 1 && x <= y && a.R > b.R:
				return fmt.Errorf("radial gradient from %v to %v (%s): %v is more intense than %v", float64(g.Min), float64(g.Max), g.Comp, x, y)
			}
		}
	}
	o.Label("%s %s", g.Kind, g.Comp)
	if inside >= 2 {
		o.NT()
	}
	return nil
}

func lightness(c color.RGBA) float64 {
	return (float64(max(c.R, c.G, c.B)) + float64(min(c.R, c.G, c.B))) / 2
}

func genValues(t *rapid.T, lo, hi float64) []F {
	var vs []F
	specials := []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), 1, -1, lo, hi, -lo, -hi, 2 * hi, lo - 1, hi + 1, math.MaxFloat64, -math.MaxFloat64, 5e-324, 0.999999, 1.000001, -1.000001}
	for i := rapid.IntRange(1, 16).Draw(t, "n"); i > 0; i-- {
		var v float64
		switch rapid.IntRange(0, 5).Draw(t, "vk") {
		case 0:
			v = rapid.SampledFrom(specials).Draw(t, "special")
		case 1:
			v = rapid.Float64().Draw(t, "any")
		case 2:
			v = -rapid.Float64Range(lo, hi).Draw(t, "mirror")
		default:
			v = rapid.Float64Range(lo, hi).Draw(t, "in")
		}
		vs = append(vs, F(v))
	}
	return vs
}

func genGradient(t *rapid.T, kind string) gradient {
	g := gradient{Kind: kind}
	if kind == "radial" {
		g.Comp = pick(t, "comp", "log", "log", "id", "sqrt", "log1p", "square", "cube", "asinh", "log10", "flat")
		base := rapid.OneOf(rapid.Float64Range(1.05, 100), rapid.Float64Range(1.05, 1e6), rapid.Just(31.5)).Draw(t, "base")
		other := rapid.Float64Range(0, base).Draw(t, "other")
		a, b := -base, other
		switch rapid.IntRange(0, 4).Draw(t, "sides") {
		case 4:
			a, b = -base, -other
		case 0:
			a, b = -base, base
		case 1:
			a, b = -other, base
		case 2:
			a, b = other, base
		}
		if chance(t, "swapped", 10) {
			a, b = b, a
		}
		g.Min, g.Max = F(a), F(b)
		return g
	}
	g.Comp = pick(t, "comp", "id", "id", "log", "log", "log10", "sqrt", "square", "cube", "asinh", "atan", "scale", "shift", "flat", "log1p")
	switch g.Comp {
	case "log", "log10", "sqrt", "square", "log1p":
		lo := math.Pow(10, rapid.Float64Range(-4, 3).Draw(t, "lo"))
		g.Min, g.Max = F(lo), F(lo*math.Pow(10, rapid.Float64Range(0.05, 6).Draw(t, "decades")))
	case "atan":
		lo := rapid.Float64Range(-5, 5).Draw(t, "lo")
		g.Min, g.Max = F(lo), F(lo+rapid.Float64Range(0.1, 10).Draw(t, "span"))
	case "cube":
		lo := rapid.Float64Range(-50, 50).Draw(t, "lo")
		g.Min, g.Max = F(lo), F(lo+rapid.Float64Range(1, 100).Draw(t, "span"))
	default:
		lo := rapid.OneOf(rapid.Float64Range(-1000, 1000), rapid.SampledFrom([]float64{0, 1, 5, -32.5, -31.5})).Draw(t, "lo")
		g.Min, g.Max = F(lo), F(lo+rapid.OneOf(rapid.Float64Range(0.01, 5000), rapid.SampledFrom([]float64{15, 74, 70, 107.5, 255, 409.5, 4095})).Draw(t, "span"))
	}
	return g
}

func genColors(kind string) func(*rapid.T) colorCase {
	return func(t *rapid.T) colorCase {
		cs := colorCase{G: genGradient(t, kind)}
		lo, hi := float64(cs.G.Min), float64(cs.G.Max)
		if kind == "radial" {
			hi = math.Max(math.Abs(lo), math.Abs(hi))
			lo = -hi
		}
		cs.Values = genValues(t, lo, hi)
		if cs.G.Comp == "square" && kind != "radial" { // only increasing there
			for i, v := range cs.Values {
				cs.Values[i] = F(math.Abs(float64(v)))
			}
		}
		return cs
	}
}

// predefined gradients of the library
var predefined = map[string]struct {
	fn *vis.ColorFunc
	g  gradient
}{
	"HeatmapReflectivityShort": {&vis.HeatmapReflectivityShort, gradient{"heat", 5, 75, "id"}},
	"HeatmapReflectivityWide":  {&vis.HeatmapReflectivityWide, gradient{"heat", -32.5, 75, "id"}},
	"HeatmapAccumulatedHour":   {&vis.HeatmapAccumulatedHour, gradient{"heat", 0.1, 100, "log"}},
	"HeatmapAccumulatedDay":    {&vis.HeatmapAccumulatedDay, gradient{"heat", 0.1, 200, "log"}},
	"GraymapLinear":            {&vis.GraymapLinear, gradient{"gray", 0, 409.5, "id"}},
	"GraymapLinearWide":        {&vis.GraymapLinearWide, gradient{"gray", 0, 4095, "id"}},
	"HeatmapRadialVelocity":    {&vis.HeatmapRadialVelocity, gradient{"radial", -31.5, 31.5, "log"}},
}

type predefCase struct {
	Name string
	From F
	Step F
	N    int
}

func checkPredefined(cs predefCase, o *Obs) error {
	p := predefined[cs.Name]
	for i := 0; i < cs.N; i++ {
		v := float64(cs.From) + float64(i)*float64(cs.Step)
		if p.g.ambiguous(v) {
			continue
		}
		if err := p.g.check(v, (*p.fn)(v)); err != nil {
			return fmt.Errorf("%s: %v", cs.Name, err)
		}
		if err := p.g.check(v, (p.g.make())(v)); err != nil {
			return err
		}
	}
	for _, v := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, 1, -1, float64(p.g.Min), float64(p.g.Max)} {
		if err := p.g.check(v, (*p.fn)(v)); err != nil {
			return fmt.Errorf("%s: %v", cs.Name, err)
		}
	}
	o.Label("%s", cs.Name)
	o.NT()
	return nil
}

func predefEnum(radial bool) func(string, func(predefCase) bool) {
	return func(tier string, yield func(predefCase) bool) {
		for _, n := range sortedKeys(predefined) {
			g := predefined[n].g
			if (g.Kind == "radial") != radial {
				continue
			}
			span := float64(g.Max - g.Min)
			for i := 0; i < 200; i++ { // 20 % beyond both ends
				if !yield(predefCase{n, F(float64(g.Min) - 0.2*span + 1.4*span*float64(i)/200), F(1.4 * span / 200 / 97), 97}) {
					return
				}
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:     "C17",
		Rule:   "random gray and heat gradients (ranges, 10 increasing compressions) on 1-16 random values inside, outside and at the limits, NaN and infinities: colours against a reference with real-valued channels (at most 1 apart, exact where documented), opaque, monotone over all pairs; the predefined gradients on fine lattices. Non-trivial: at least two values strictly inside the range. Distinct by case content.",
		Assume: []string{"values within 1e-12 (relative) of a limit, but not equal to it, are not judged", "min < max"},
		Sections: []Section{
			Rand("gray", 60000, 8000000, genColors("gray"), checkColors),
			Rand("heat", 100000, 12000000, genColors("heat"), checkColors),
			Enum("predefined", predefEnum(false), checkPredefined),
		},
	})
	register(&Prop{
		ID:     "C18",
		Rule:   "random radial gradients (ranges symmetric, lopsided and one-sided, 8 compressions) on 1-16 random values and their mirror images, NaN, zeros and infinities: colours against a reference (intensity at most 1 apart, everything else exact), mirrored colours, order; the predefined gradient on a fine lattice. Non-trivial: at least two values strictly inside the range. Distinct by case content.",
		Assume: []string{"the larger of |min| and |max| exceeds 1 and the compression is not negative from 1 on (as documented gradients have it)"},
		Sections: []Section{
			Rand("radial", 100000, 15000000, genColors("radial"), checkColors),
			Enum("predefined", predefEnum(true), checkPredefined),
		},
	})
}

// ---------------------------------------------------------------- C19

type imageCase struct {
	M      *Model // nil for a blank composite
	W, H   int    // of the blank composite
	Layers []int
	Color  string // "hash", "const" or a gradient
	Seed   uint64
	Scribl bool // overwrite the data with own values
}

func (cs *imageCase) color() vis.ColorFunc {
	switch cs.Color {
	case "const":
		c := color.RGBA{byte(cs.Seed), byte(cs.Seed >> 8), byte(cs.Seed >> 16), byte(cs.Seed >> 24)}
		return func(float64) color.RGBA { return c }
	case "gray":
		return vis.Graymap(-10, 60, vis.Id)
	case "heat":
		return vis.HeatmapReflectivity
	case "radial":
		return vis.HeatmapRadialVelocity
	}
	return func(v float64) color.RGBA {
		u := math.Float64bits(v)
		if v != v {
			u = 12345
		}
		h := mix(cs.Seed^u, 1)
		return color.RGBA{byte(h), byte(h >> 8), byte(h >> 16), byte(h >> 24)}
	}
}

func checkImage(cs imageCase, o *Obs) error {
	var c *radolan.Composite
	if cs.M != nil {
		var err error
		if c, err = cs.M.parse(); err != nil {
			return err
		}
	} else {
		c = radolan.NewDummy("RX", 3, cs.W, cs.H)
	}
	if cs.Scribl {
		n := 0
		for z := range c.DataZ {
			for y := range c.DataZ[z] {
				for x := range c.DataZ[z][y] {
					n++
					c.DataZ[z][y][x] = math.Float32frombits(uint32(mix(cs.Seed, n)))
					if h := mix(cs.Seed, -n); h&31 == 0 { // zeros, infinities, no data, small, the value before
						last := float32(1)
						if x > 0 {
							last = c.DataZ[z][y][x-1]
						}
						c.DataZ[z][y][x] = []float32{0, float32(math.Copysign(0, -1)), float32(math.Inf(1)), float32(math.Inf(-1)), radolan.NaN, 1e-40, last, -last}[h>>5&7]
					}
				}
			}
		}
	}
	fn := cs.color()
	for _, z := range append([]int{0}, cs.Layers...) {
		img := vis.Image(fn, c, z)
		if img == nil {
			return fmt.Errorf("image of layer %d is nil", z)
		}
		if img.Rect != image.Rect(0, 0, c.Dx, c.Dy) {
			return fmt.Errorf("image of layer %d has bounds %v, want %dx%d", z, img.Rect, c.Dx, c.Dy)
		}
		exists := z >= 0 && z < c.Dz
		for y := 0; y < c.Dy; y++ {
			for x := 0; x < c.Dx; x++ {
				want := color.RGBA{}
				if exists {
					want = fn(float64(c.DataZ[z][y][x]))
				}
				if got := img.RGBAAt(x, y); got != want {
					if !exists {
						return fmt.Errorf("image of missing layer %d (of %d) has pixel %v at (%d, %d)", z, c.Dz, got, x, y)
					}
					return fmt.Errorf("image of layer %d: pixel (%d, %d) is %v, want %v for value %v", z, x, y, got, want, c.DataZ[z][y][x])
				}
			}
		}
		if exists {
			o.Label("existing layer")
			if c.Dx != c.Dy && c.Dx > 1 && c.Dy > 1 {
				o.NT()
			}
			if z > 0 {
				o.Label("upper layer")
				o.NT()
			}
		} else {
			o.Label("missing layer")
		}
	}
	if err := rerender(cs, c, fn, o); err != nil {
		return err
	}
	o.Label("colour %s", cs.Color)
	return nil
}

// rerender draws a layer once more, with another colour function and after its
// values have changed; pictures made before do not.
func rerender(cs imageCase, c *radolan.Composite, fn vis.ColorFunc, o *Obs) error {
	if c.Dz == 0 || c.Dx*c.Dy > 1<<22 {
		return nil
	}
	z := int(cs.Seed % uint64(c.Dz))
	same := func(what string, img *image.RGBA, fn vis.ColorFunc) error {
		if img == nil || img.Rect != image.Rect(0, 0, c.Dx, c.Dy) {
			return fmt.Errorf("%s: the image of layer %d has other bounds", what, z)
		}
		for y := 0; y < c.Dy; y++ {
			for x := 0; x < c.Dx; x++ {
				if got, want := img.RGBAAt(x, y), fn(float64(c.DataZ[z][y][x])); got != want {
					return fmt.Errorf("%s: image of layer %d: pixel (%d, %d) is %v, want %v for value %v", what, z, x, y, got, want, c.DataZ[z][y][x])
				}
			}
		}
		return nil
	}
	first := vis.Image(fn, c, z)
	kept := append([]byte{}, first.Pix...)
	// the same colours but for one value, which is not at the corners
	v := c.DataZ[z][int(cs.Seed>>8%uint64(c.Dy))][int(cs.Seed>>24%uint64(c.Dx))]
	inverse := func(x float64) color.RGBA {
		k := fn(x)
		if u := float64(v); x == u || x != x && u != u {
			k.R, k.G, k.B = ^k.R, ^k.G, ^k.B
		}
		return k
	}
	if err := same("with another colour function", vis.Image(inverse, c, z), inverse); err != nil {
		return err
	}
	for i := 0; i < 3; i++ {
		h := mix(cs.Seed, i)
		c.DataZ[z][int(h>>8%uint64(c.Dy))][int(h>>32%uint64(c.Dx))] = float32(h%1000) / 8
	}
	if err := same("after values changed", vis.Image(fn, c, z), fn); err != nil {
		return err
	}
	if !bytes.Equal(kept, first.Pix) {
		return fmt.Errorf("an image of layer %d changed when the composite was rendered again", z)
	}
	o.Label("rendered again")
	return nil
}

func genImage(local int) func(*rapid.T) imageCase {
	return func(t *rapid.T) imageCase {
		cs := imageCase{Color: pick(t, "color", "hash", "hash", "const", "gray", "heat", "radial"), Seed: rapid.Uint64().Draw(t, "cseed")}
		dz := 1
		switch {
		case local == 0:
			cs.W, cs.H = rapid.IntRange(0, 300).Draw(t, "w"), rapid.IntRange(0, 300).Draw(t, "h")
		default:
			o := GenOpts{Local: local}
			if local < 0 && chance(t, "elongated", 15) {
				a, b := rapid.IntRange(1, 5000).Draw(t, "long"), rapid.IntRange(1, 40).Draw(t, "short")
				o.Shape = [2]int{a, b}
				if rapid.Bool().Draw(t, "tall") {
					o.Shape = [2]int{b, a}
				}
				o.MaxPix = 1
			}
			if local == 1 && chance(t, "3d", 50) {
				o.Products = []string{"PU", "PZ"}
			}
			cs.M = genModel(t, o)
			cs.Scribl = chance(t, "scribble", 40)
			dz, _, _ = cs.M.layers()
		}
		for i := rapid.IntRange(1, 4).Draw(t, "nlayers"); i > 0; i-- {
			cs.Layers = append(cs.Layers, genIndex(t, dz))
		}
		return cs
	}
}

func init() {
	register(&Prop{
		ID:     "C19",
		Rule:   "random composites (all encodings, local pictures with 1 and 12 layers, also with arbitrary float values written into them) and blank ones, rendered with random (also translucent) and gradient colour functions for existing and missing layers; every pixel compared. Non-trivial: an existing layer with width != height, or a layer above 0. Distinct by case content.",
		Assume: []string{"dimensions of blank composites are not negative"},
		Sections: []Section{
			Rand("parsed", 8000, 120000, genImage(-1), checkImage),
			Rand("grids", 150, 2500, func(t *rapid.T) imageCase {
				s := rapid.SampledFrom(gridShapes).Draw(t, "shape")
				if chance(t, "double", 25) {
					s = [2]int{2 * s[0], 2 * s[1]}
				}
				m := genModel(t, GenOpts{Local: -1, Shape: s, MaxPix: 1})
				return imageCase{M: m, Layers: []int{0}, Color: pick(t, "color", "hash", "hash", "heat", "gray", "radial"), Seed: rapid.Uint64().Draw(t, "cseed"), Scribl: chance(t, "scribble", 20)}
			}, checkImage),
			Rand("local", 60, 1000, genImage(1), checkImage),
			Rand("blank", 800, 8000, genImage(0), checkImage),
			Enum("large", func(tier string, yield func(imageCase) bool) {
				i := 0
				large(9, "le", "sb", "rl")(tier, func(m *Model) bool {
					i++
					if tier == "quick" && (i+m.W)%3 != 0 {
						return true
					}
					return yield(imageCase{M: m, Layers: []int{1, -1}[i%2:], Color: pickAt(i, "hash", "gray", "hash", "heat"), Seed: uint64(i)})
				})
				for i, s := range append([][2]int{{1, 20000}, {20000, 1}, {70000, 2}, {2, 70000}}, largeShapes...) {
					if tier == "quick" && i%3 == 1 {
						continue
					}
					if !yield(imageCase{W: s[0], H: s[1], Layers: []int{1}, Color: "hash", Seed: uint64(i)}) {
						return
					}
				}
			}, checkImage),
		},
	})
}

// picture is the expected image of a model's first layer.
func (m *Model) reread() (*radolan.Composite, error) {
	return radolan.NewComposite(bytes.NewReader(m.Bytes()))
}
