package main

import (
	"fmt"
	"math"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C26

// bitsCase is a block of 2^20 consecutive single precision bit patterns.
type bitsCase struct{ Block uint32 }

func checkBits(cs bitsCase, o *Obs) error {
	if v := radolan.NaN; v == v {
		return fmt.Errorf("radolan.NaN is %v", v)
	}
	first := cs.Block << 20
	nans := 0
	for i := uint32(0); i < 1<<20; i++ {
		b := first + i
		nan := b&0x7F800000 == 0x7F800000 && b&0x007FFFFF != 0
		if radolan.IsNaN(math.Float32frombits(b)) != nan {
			return fmt.Errorf("IsNaN(%v), bit pattern %#08x, is %v", math.Float32frombits(b), b, !nan)
		}
		if nan {
			nans++
		}
	}
	switch {
	case nans == 1<<20:
		o.Label("all not a number")
	case nans > 0:
		o.Label("infinity and not a number")
	default:
		o.Label("numbers")
	}
	o.NT()
	return nil
}

type nodataCase struct {
	M    *Model
	A, B F // a Z-R relationship
	Grad gradient
}

var usualGradients = map[string]vis.ColorFunc{
	"HeatmapReflectivityShort": vis.HeatmapReflectivityShort,
	"HeatmapReflectivity":      vis.HeatmapReflectivity,
	"HeatmapReflectivityWide":  vis.HeatmapReflectivityWide,
	"HeatmapAccumulatedHour":   vis.HeatmapAccumulatedHour,
	"HeatmapAccumulatedDay":    vis.HeatmapAccumulatedDay,
	"HeatmapRadialVelocity":    vis.HeatmapRadialVelocity,
	"GraymapLinear":            vis.GraymapLinear,
	"GraymapLinearWide":        vis.GraymapLinearWide,
}

func checkNodata(cs nodataCase, o *Obs) error {
	m := cs.M
	c, err := m.parse()
	if err != nil {
		return err
	}
	relations := []radolan.ZR{radolan.Aniol80, radolan.Doelling98, radolan.JossWaldvogel70, radolan.MarshallPalmer55, radolan.NewZR(float64(cs.A), float64(cs.B))}
	no, yes, nans := 0, 0, 0
	rated := map[float32]bool{}
	pixel := func(how string, x, y, z int, v float32, w want) error {
		where := func() string { return fmt.Sprintf("%s: voxel (%d, %d, %d)", how, x, y, z) }
		if radolan.IsNaN(v) != w.nan {
			return fmt.Errorf("%s: %v is read for %v: IsNaN is %v (product %s, encoding %s)", where(), v, w, radolan.IsNaN(v), m.Product, m.Enc)
		}
		if v != v {
			if nans++; nans > 20 && nans%64 > 0 {
				return nil
			}
		} else {
			if rated[v] {
				return nil
			}
			rated[v] = true
		}
		for i, zr := range relations {
			r := radolan.PrecipitationRate(zr, v)
			if math.IsNaN(r) != w.nan {
				return fmt.Errorf("%s: relationship %d: rate of %v is %v", where(), i, v, r)
			}
			if b := radolan.Reflectivity(zr, r); radolan.IsNaN(b) != w.nan {
				return fmt.Errorf("%s: relationship %d: reflectivity of the rate %v of %v is %v", where(), i, r, v, b)
			}
		}
		return nil
	}
	if len(c.PlainData) != m.H {
		return fmt.Errorf("%d rows of plain data, want %d", len(c.PlainData), m.H)
	}
	for y := range c.PlainData {
		row := m.plainRow(y)
		if len(c.PlainData[y]) != len(row) {
			return fmt.Errorf("row %d has %d pixels, want %d", y, len(c.PlainData[y]), len(row))
		}
		for x, w := range row {
			if radolan.IsNaN(c.PlainData[y][x]) != w.nan {
				return fmt.Errorf("plain pixel (%d, %d) is %v, want %v: %s", x, y, c.PlainData[y][x], w, m.where(x, y))
			}
		}
	}
	dz, dy, first := m.layers()
	if c.Dx != m.W || c.Dy != dy || c.Dz != dz {
		return fmt.Errorf("dimensions %dx%dx%d, want %dx%dx%d", c.Dx, c.Dy, c.Dz, m.W, dy, dz)
	}
	for z := 0; z < dz; z++ {
		imgs := map[string]func(x, y int) bool{}
		draw := func(name string, fn vis.ColorFunc) {
			img := vis.Image(fn, c, z)
			imgs[name] = func(x, y int) bool { return img.RGBAAt(x, y) == black }
		}
		draw("drawn", cs.Grad.make())
		for i, n := range sortedKeys(usualGradients) {
			if m.W*dy > 2000 && (i+z)%8 > 1 {
				continue
			}
			draw(n, usualGradients[n])
		}
		for y := 0; y < dy; y++ {
			for x, w := range m.plainRow(first(z) + y) {
				if err := pixel("AtZ", x, y, z, c.AtZ(x, y, z), w); err != nil {
					return err
				}
				if z == 0 {
					if err := pixel("At", x, y, z, c.At(x, y), w); err != nil {
						return err
					}
				}
				if !w.nan {
					yes++
					continue
				}
				no++
				for n, isBlack := range imgs {
					if !isBlack(x, y) {
						return fmt.Errorf("layer %d: no-data pixel (%d, %d) is not black with gradient %s (%s from %v to %v)", z, x, y, n, cs.Grad.Kind, float64(cs.Grad.Min), float64(cs.Grad.Max))
					}
				}
			}
		}
	}
	if no > 0 && yes > 0 {
		o.NT()
	}
	o.Label("enc %s", m.Enc)
	o.Label("%s gradient", cs.Grad.Kind)
	if dz > 1 {
		o.Label("several layers")
	}
	return nil
}

type compCase struct{ V F }

func checkCompression(cs compCase, o *Obs) error {
	v := float64(cs.V)
	if v != 0 && math.Abs(v) < 0x1p-1022 { // where Go's own logarithm is inexact
		v = math.Copysign(0x1p-1022, v)
	}
	if got := vis.Id(v); got != v && !(got != got && v != v) {
		return fmt.Errorf("Id(%v) is %v", v, got)
	}
	w := math.NaN()
	switch {
	case v == 0:
		w = math.Inf(-1)
	case math.IsInf(v, 1):
		w = v
	case v > 0:
		fr, exp := math.Frexp(v)
		w = math.Log1p(fr-1) + float64(exp)*math.Ln2
	}
	got := vis.Log(v)
	if math.IsInf(w, 0) {
		if got != w {
			return fmt.Errorf("Log(%v) is %v", v, got)
		}
	} else if !near(got, w, 1e-13+1e-13*math.Abs(w)) {
		return fmt.Errorf("Log(%v) is %v, want %v", v, got, w)
	}
	if v != 0 && !math.IsNaN(v) {
		o.NT()
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "every one of the 2^32 single precision bit patterns, in blocks (IsNaN against the bit pattern); random composites of every encoding with no-data in them: each pixel and voxel through plain data, layers, accessors, rates and reflectivities of five relationships, a drawn gradient and all predefined ones; the two compressions over all magnitudes. Non-trivial: composites with no-data and with values; blocks; values other than 0 and NaN. Distinct by case content.",
		Sections: []Section{
			Enum("bits", func(tier string, yield func(bitsCase) bool) {
				for b := uint32(0); b < 1<<12; b++ {
					if !yield(bitsCase{b}) {
						return
					}
				}
			}, checkBits),
			Rand("composites", 2400, 60000, func(t *rapid.T) nodataCase {
				o := GenOpts{}
				if chance(t, "layers", 2) {
					o = GenOpts{Local: 1, Products: localProducts}
				}
				cs := nodataCase{M: genModel(t, o), Grad: genGradient(t, pick(t, "kind", "gray", "heat", "radial"))}
				cs.A = F(rapid.Float64Range(1, 1000).Draw(t, "a"))
				cs.B = F(rapid.Float64Range(0.5, 3).Draw(t, "b"))
				return cs
			}, checkNodata),
			Rand("compressions", 20000, 2000000, func(t *rapid.T) compCase {
				return compCase{F(rapid.OneOf(rapid.Float64(), rapid.Float64Range(-100, 4100), rapid.Map(rapid.Float64Range(-300, 300), func(e float64) float64 { return math.Pow(10, e) }), rapid.SampledFrom([]float64{0, 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), 0x1p-1022, math.MaxFloat64, 0.1, 31.5, math.E})).Draw(t, "v"))}
			}, checkCompression),
		},
	})
}
