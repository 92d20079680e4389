package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// Composites of the sizes that are in use, and beyond: products of megabytes.

var largeShapes = [][2]int{{900, 900}, {1100, 1200}, {700, 1600}, {9999, 3}, {1700, 9999}, {2, 9999}, {2200, 2400}, {920, 920}, {900, 1100}, {1400, 1500}, {700, 6500}, {9999, 500}, {4400, 4800}, {500, 9999}}

// largeModel has deterministic content.
func largeModel(enc, product string, w, h int, seed uint64) *Model {
	m := &Model{Product: product, Stamp: "282105", WMO: "10000", MMYY: "0716", Enc: enc, W: w, H: h, BYPad: 8, Prec: -1, Seed: seed, Mode: "any"}
	m.Fields = []Field{{"VS", " 3"}, {"PR", " E-01"}, {"INT", "   5"}, {"GP", fmt.Sprintf("%4dx%4d", h, w)}, {"VV", " 005"}}
	if enc == "rl" {
		m.Levels = []string{"  1.0", "  7.0", " 19.0", " 28.0", " 37.0", " 46.0", " 55.0"}
		m.Fields = append(m.Fields, Field{"LV", " 7" + "  1.0  7.0 19.0 28.0 37.0 46.0 55.0"})
		m.Rows = stripedRows(w, seed)
	}
	return m
}

// stripedRows are 97 rows that differ.
func stripedRows(w int, seed uint64) []Row {
	var rows []Row
	for i := 0; i < 97; i++ {
		z := mix(seed, i)
		r := Row{Line: 40 + byte(i), Off: int(z%300) % (w + 1)}
		for x := r.Off; x+15 < w; {
			k := int(z>>8)%15 + 1
			z = mix(z, x)
			r.Runs = append(r.Runs, byte(k<<4)|byte(z>>40)&15)
			x += k
		}
		rows = append(rows, r)
	}
	return rows
}

// large enumerates such composites of the encodings; the quick tier takes the first n shapes.
func large(n int, encs ...string) func(tier string, yield func(*Model) bool) {
	return func(tier string, yield func(*Model) bool) {
		for i, s := range largeShapes {
			for j, enc := range encs {
				if tier == "quick" && i >= n {
					continue
				}
				if s[0]*s[1] > 1<<24 && enc == "le" { // some 200 MB in all
					continue
				}
				ps := map[string][]string{"le": {"WN", "RW", "PE", "SF"}, "sb": {"RX", "RY", "EX", "WX"}, "rl": {"PG", "PR", "PE", "PY"}}[enc]
				m := largeModel(enc, ps[(i+j)%len(ps)], s[0], s[1], uint64(i*10+j+1))
				if s == [2]int{1100, 1200} || s == [2]int{2200, 2400} {
					m.setField("VS", pickAt(i+j, " 5", " 3"))
				}
				if !yield(m) {
					return
				}
			}
		}
	}
}

func pickAt(i int, xs ...string) string { return xs[i%len(xs)] }

// genLarge draws one of moderate to large size.
func genLarge(encs ...string) func(t *rapid.T) *Model {
	return func(t *rapid.T) *Model {
		w := rapid.OneOf(rapid.IntRange(300, 1500), rapid.IntRange(1000, 1500)).Draw(t, "w")
		h := rapid.OneOf(rapid.IntRange(40, 400), rapid.IntRange(300, 1500)).Draw(t, "h")
		enc := rapid.SampledFrom(encs).Draw(t, "encoding")
		m := genModel(t, GenOpts{Shape: [2]int{w, h}, Enc: enc, MaxPix: 1, Local: -1})
		if enc == "rl" {
			m.Rows = stripedRows(w, rapid.Uint64().Draw(t, "rows"))
		}
		return m
	}
}

// largeGrids enumerates data of the grids at their nominal size and at multiples of it.
func largeGrids(tier string, yield func(*Model) bool) {
	top := 1
	if tier == "thorough" {
		top = 2
	}
	for i, g := range gridDefs {
		for k := -1; k <= top; k++ {
			w, h := g.w, g.h
			if k < 0 {
				w, h = w/2, h/2
			} else {
				w, h = w<<k, h<<k
			}
			for j, enc := range []string{"le", "sb", "rl"} {
				for _, vs := range []string{" 3", " 5"} {
					if w*h > 1<<24 && enc == "le" {
						continue
					}
					m := largeModel(enc, pickAt(i+j, "PG", "WX", "RX", "FZ"), w, h, uint64(k+2))
					m.setField("VS", vs)
					if !yield(m) {
						return
					}
				}
			}
		}
	}
}
