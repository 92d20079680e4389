package main

import (
	"archive/tar"
	"bytes"
	"compress/bzip2"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"time"

	"gitlab.cs.fau.de/since/radolan"
	"pgregory.net/rapid"
)

// rejected says whether parsing reported a failure. The unknown-unit error
// accompanies a complete composite and is not one.
func rejected(err error) bool {
	return err != nil && !errors.Is(err, radolan.ErrUnknownUnit)
}

func genDelivery(t *rapid.T) Delivery {
	d := Delivery{FailAt: -1}
	switch rapid.IntRange(0, 4).Draw(t, "delivery") {
	case 0: // as large as asked for
	case 1:
		d.Chunks = []int{1}
	case 2:
		d.Chunks = []int{rapid.SampledFrom([]int{2, 3, 5, 7, 13, 16, 64, 511, 512, 1000, 4095, 4096, 4097}).Draw(t, "chunk")}
	default:
		n := rapid.IntRange(1, 8).Draw(t, "nchunks")
		for i := 0; i < n; i++ {
			d.Chunks = append(d.Chunks, rapid.OneOf(rapid.IntRange(0, 9), rapid.SampledFrom([]int{0, 0, 1, 100, 4096, 5000})).Draw(t, "chunk"))
		}
	}
	d.EOFData = rapid.Bool().Draw(t, "eofData")
	return d
}

// ---------------------------------------------------------------- C07

type rejectCase struct {
	Kind string
	Base *Model // accepted before the change; nil if there is none
	File []byte // what must be rejected
	D    Delivery
}

func checkReject(cs rejectCase, o *Obs) error {
	if cs.Base != nil {
		if _, err := cs.Base.parse(); err != nil {
			return fmt.Errorf("unchanged composite: %v", err)
		}
	}
	c, err := radolan.NewComposite(&scriptReader{data: cs.File, d: cs.D})
	if !rejected(err) {
		dims := ""
		if c != nil {
			dims = fmt.Sprintf(" (%s %dx%dx%d)", c.Product, c.Dx, c.Dy, c.Dz)
		}
		return fmt.Errorf("composite accepted%s with error %v although: %s; file starts %.200q", dims, err, cs.Kind, cs.File)
	}
	o.Label("%s", cs.Kind)
	o.NT()
	return nil
}

type truncCase struct {
	M   *Model
	Cut int
	D   Delivery
}

func checkTrunc(cs truncCase, o *Obs) error {
	file, header, needed := cs.M.Split()
	cut := cs.Cut
	if cut >= needed {
		cut = needed - 1
	}
	c, err := radolan.NewComposite(&scriptReader{data: file[:cut], d: cs.D})
	if !rejected(err) {
		return fmt.Errorf("composite of %d bytes (header %d) cut to %d is accepted (error %v, composite %v)", needed, header, cut, err, c != nil)
	}
	if cut > header {
		o.Label("cut in payload, enc %s", cs.M.Enc)
		o.NT()
	} else {
		o.Label("cut in header")
		if cut > 22 {
			o.NT()
		}
	}
	if cut == needed-1 {
		o.Label("last byte missing")
	}
	return nil
}

// withBY encodes the file with a forged announced length.
func withBY(m *Model, by int64) []byte {
	p := m.Payload()
	h := m.Header(len(p))
	i := bytes.Index(h, []byte("BY"))
	j := i + 2
	for j < len(h) && (h[j] == ' ' || h[j] >= '0' && h[j] <= '9') {
		j++
	}
	s := fmt.Sprintf("%*d", j-i-2, by)
	return append(append(append(append([]byte{}, h[:i+2]...), s...), h[j:]...), p...)
}

// headerLen of a file
func headerLen(f []byte) int { return bytes.IndexByte(f, 3) + 1 }

var garbage = []string{"abc", " abc", "x", " -", ".5.", "<boo>", " ,", "e1", "--3", "?", "o5"}

func genReject(t *rapid.T) rejectCase {
	cs := rejectCase{D: Delivery{FailAt: -1}}
	if chance(t, "delivered", 30) {
		cs.D = genDelivery(t)
	}
	kind := rapid.IntRange(0, 15).Draw(t, "kind")
	opts := GenOpts{MaxPix: 30}
	switch kind {
	case 0, 1, 5, 6, 7: // need explicit dimensions
		opts.Local = -1
		if kind <= 1 && chance(t, "picture", 10) {
			opts.Local = 1
		}
	case 10, 11, 12:
		opts.Enc = "rl"
	case 13:
		opts.Enc = "rl"
	}
	if kind <= 1 {
		opts.Enc = pick(t, "fixed", "le", "sb")
	}
	opts.Big = chance(t, "big", 6)
	m := genModel(t, opts)
	cs.Base = m
	n := m.clone()
	switch kind {
	case 0, 1: // announced length
		p := len(m.Payload())
		hl := headerLen(m.Bytes())
		var by int64
		switch rapid.IntRange(0, 5).Draw(t, "by") {
		case 5: // the size of something else
			by = int64(hl) + int64(rapid.SampledFrom([]int{200 * 200, 2 * 200 * 200, 200 * 224, 2 * 200 * 224, m.W * m.W, m.H * m.H, 2 * m.H * m.H, 3 * m.W * m.H, 4 * m.W * m.H, (m.W + 1) * m.H, m.W * (m.H + 1),
				2*m.W*m.H + m.H, 2*m.W*m.H + 2*m.H, 2 * m.W * (m.H - 1), m.W * (m.H - 1), (m.W - 1) * m.H, m.W * m.H / 2, 3 * m.W * m.H / 2, m.W + m.H, m.W*m.H + 1, 2*m.W*m.H - 1}).Draw(t, "size"))
		case 0:
			by = int64(hl + p + rapid.IntRange(-9, 9).Draw(t, "d"))
		case 1:
			by = int64(rapid.IntRange(-100, 4*(hl+p)).Draw(t, "abs"))
		case 2:
			by = int64(p + rapid.SampledFrom([]int{0, -1, 1}).Draw(t, "nohead"))
		case 3: // cut off by a machine word
			by = int64(hl+p) + rapid.SampledFrom([]int64{1 << 31, 1 << 32, 1 << 33, -1 << 31, -1 << 32, 1000000000, -1000000000, 100000000, 10000000, -10000000, 1000000, -100000, 10000, 65536, -65536, 256, -256, math.MaxInt64 - 1<<20, math.MinInt64 + 1<<20}).Draw(t, "word")
		default:
			by = int64(hl) + int64(m.W*m.H)*int64(rapid.IntRange(-1, 9).Draw(t, "mul")) + int64(rapid.SampledFrom([]int{0, 0, 1, -1, m.W, -m.W}).Draw(t, "off"))
		}
		f := withBY(n, by)
		hl = headerLen(f)
		if by == int64(hl+m.W*m.H) || by == int64(hl+2*m.W*m.H) {
			by = int64(hl + 2*m.W*m.H + 1)
			f = withBY(n, by)
		}
		if by == int64(headerLen(f)+m.W*m.H) || by == int64(headerLen(f)+2*m.W*m.H) {
			f = withBY(n, -1)
		}
		cs.Kind = "announced length does not match"
		cs.File = append(f, make([]byte, rapid.SampledFrom([]int{0, 100, 10000, 100000}).Draw(t, "extra"))...)
	case 2: // announced length unreadable or absent
		f := m.Bytes()
		i := bytes.Index(f, []byte("BY"))
		j := i + 2
		for f[j] == ' ' || f[j] >= '0' && f[j] <= '9' {
			j++
		}
		if chance(t, "absent", 30) {
			cs.File = append(append([]byte{}, f[:i]...), f[j:]...)
			cs.Kind = "announced length missing"
		} else {
			cs.File = append(append(append([]byte{}, f[:i+2]...), pick(t, "g", garbage...)...), f[j:]...)
			cs.Kind = "announced length unreadable"
		}
	case 3, 4: // capture time
		b := []byte(m.Stamp + m.MMYY) // DDhhmmMMYY
		set := func(at int, s string) { copy(b[at:], s) }
		switch rapid.IntRange(0, 6).Draw(t, "date") {
		case 0:
			set(0, pick(t, "day", "00", "32", "45", "99"))
		case 1:
			set(2, pick(t, "hour", "24", "25", "60", "99"))
		case 2:
			set(4, pick(t, "minute", "60", "61", "99"))
		case 3:
			set(6, pick(t, "month", "00", "13", "20", "99"))
		case 4: // days that do not exist
			set(0, "31")
			set(6, pick(t, "short", "02", "04", "06", "09", "11"))
		case 5:
			set(0, "29")
			set(6, "02")
			set(8, pick(t, "common", "01", "05", "15", "21", "23"))
		default:
			b[rapid.IntRange(0, 9).Draw(t, "at")] = pick(t, "char", "x", ".", "<", "a", ":")[0]
		}
		n.Stamp, n.MMYY = string(b[:6]), string(b[6:])
		cs.Kind = "capture time invalid"
		cs.File = n.Bytes()
	case 5: // dimensions unreadable
		n.dropField("BG")
		n.dropField("GP")
		g := append([]string{" 900", " 900x", "x 900", "  90 x   ", " 900y 900", "1.5x2", " 2;  1", "99999999999999999999x1"}, garbage...)
		k := pick(t, "key", "GP", "BG")
		if k == "BG" {
			g = append([]string{"460", "46", "   ", "1", "4x0460", "460x60", "460abc"}, garbage...)
		}
		n.Fields = append(n.Fields, Field{k, pick(t, "g", g...)})
		cs.Kind = "dimensions unreadable"
		cs.File = n.Bytes()
	case 6: // dimensions missing or absurd
		n.dropField("BG")
		n.dropField("GP")
		if _, local := localOf[n.Product]; !local && chance(t, "missing", 40) {
			cs.Kind = "dimensions missing"
		} else {
			cs.Kind = "dimensions not positive"
			h, w := rapid.OneOf(rapid.Just(0), rapid.IntRange(-999, 0)).Draw(t, "h"), rapid.IntRange(-20, 20).Draw(t, "w")
			if chance(t, "swap", 50) {
				h, w = w, h
			}
			n.Fields = append(n.Fields, Field{"GP", fmt.Sprintf("%4dx%4d", h, w)})
		}
		cs.File = n.Bytes()
	case 7: // dimensions that do not fit the data
		p := m.W * m.H
		w, h := m.W+rapid.IntRange(-3, 3).Draw(t, "dw"), m.H+rapid.IntRange(-3, 3).Draw(t, "dh")
		w, h = max(w, 1), max(h, 1)
		if m.Enc == "rl" {
			w, h = m.W, m.H+rapid.IntRange(1, 3).Draw(t, "dhRL")
			n.Trailer = nil
		} else {
			l := len(m.Payload())
			if w*h == l || 2*w*h == l {
				w, h = 2*p+1, 1
			}
		}
		n.dropField("BG")
		n.dropField("GP")
		n.Fields = append(n.Fields, Field{"GP", fmt.Sprintf("%4dx%4d", h, w)})
		// the announced length stays that of the real payload
		f := n.clone()
		f.W, f.H = m.W, m.H
		cs.Kind = "dimensions do not fit the data"
		cs.File = f.Bytes()
		cs.Base = nil
	case 8: // other numeric fields
		k := pick(t, "key", "INT", "VV", "VS", "E")
		if k == "E" {
			n.dropField("PR")
			n.Fields = append(n.Fields, Field{"PR", " E" + pick(t, "g", "abc", " -", "-", "+", "x", ".", "<>", "--1", "-x")})
		} else {
			n.dropField(k)
			n.Fields = append(n.Fields, Field{k, pick(t, "g", garbage...)})
		}
		if chance(t, "last", 50) {
			n.BYPos = 0
		}
		cs.Kind = k + " unreadable"
		cs.File = n.Bytes()
	case 9: // header not terminated
		f := m.Bytes()
		cs.File = bytes.ReplaceAll(f, []byte{3}, []byte(pick(t, "etx", "\x04", "\x02", "", " ")))
		cs.Kind = "header not terminated"
	case 10, 11: // level list
		k := len(m.Levels)
		list := strings.Join(m.Levels, "")
		var v string
		switch rapid.IntRange(0, 4).Draw(t, "lv") {
		case 0: // count does not match
			d := rapid.IntRange(-3, 3).Draw(t, "d")
			if d == 0 || k+d < 0 || k+d > 99 {
				d = 1
				if k >= 99 {
					d = -1
				}
			}
			v = fmt.Sprintf("%2d%s", k+d, list)
			cs.Kind = "level count wrong"
		case 1: // ragged list
			v = fmt.Sprintf("%2d%s%s", k, list, pick(t, "more", " ", " 1.0", "0", " .0", "     ", "  1.0"))
			cs.Kind = "level list too long"
		case 2:
			if k == 0 {
				v = fmt.Sprintf("%2d", 1)
			} else {
				v = fmt.Sprintf("%2d%s", k, list[:len(list)-rapid.IntRange(1, min(5, len(list))).Draw(t, "less")])
			}
			cs.Kind = "level list too short"
		case 3:
			v = pick(t, "cnt", "ab", "--", " x", "<>", "..", " -", "a1", " ") + list
			if chance(t, "nothing", 20) {
				v = pick(t, "short", " ", "1", "0", "x") // an empty one would be none
			}
			cs.Kind = "level count unreadable"
			if chance(t, "negative", 30) {
				d := rapid.IntRange(1, 9).Draw(t, "minus")
				v, cs.Kind = fmt.Sprintf("%2d", -d), "level count negative"
				for i := 0; i < d && chance(t, "entries", 90); i++ {
					v += "  1.0"
				}
			}
		default:
			if k == 0 {
				v = " 1  abc"
			} else {
				ls := append([]string{}, m.Levels...)
				ls[rapid.IntRange(0, k-1).Draw(t, "which")] = pick(t, "entry", "  abc", "  -  ", "    .", "     ", "<1.0>", "--1.0")
				v = fmt.Sprintf("%2d%s", k, strings.Join(ls, ""))
			}
			cs.Kind = "level entry unreadable"
		}
		n.setField("LV", v)
		cs.File = n.Bytes()
		if chance(t, "asIfAbsent", 40) { // payload of a composite without levels
			p := bytes.Repeat([]byte{0, 7, 10}, n.W*n.H)[:n.W*n.H*rapid.IntRange(1, 2).Draw(t, "perPixel")]
			cs.File = append(n.Header(len(p)), p...)
		}
	case 12, 13: // run-length rows
		at := rapid.IntRange(0, m.H-1).Draw(t, "row")
		rows := make([]Row, m.H)
		for i := range rows {
			rows[i] = *m.row(i)
		}
		p := [][]byte{}
		for i := range rows {
			p = append(p, rows[i].bytes())
		}
		bad := []byte{rows[at].Line | 0x20}
		low := func() byte {
			b := rapid.IntRange(0, 15).Draw(t, "low")
			if b == 10 {
				b = 9
			}
			return byte(b)
		}
		if kind == 12 && chance(t, "offset", 60) {
			for i := rapid.IntRange(0, min(3, m.W/239)).Draw(t, "chain"); i > 0; i-- {
				bad = append(bad, 255)
			}
			bad = append(bad, low())
			if chance(t, "runs", 50) {
				bad = append(bad, 0x11, 0x12)
			}
			cs.Kind = "offset byte below 16"
		} else {
			r := genRow(t, m.W, 10)
			if r.Empty || r.NoOff {
				r = Row{Line: 40}
			}
			left := m.W - r.Off
			for _, b := range r.Runs {
				left -= int(b >> 4)
			}
			for left > 15 {
				r.Runs = append(r.Runs, 0xF1)
				left -= 15
			}
			over := rapid.IntRange(left+1, left+15).Draw(t, "over")
			if chance(t, "far", 40) { // the run begins behind the row, perhaps
				r.Off += rapid.OneOf(rapid.IntRange(0, left), rapid.IntRange(left, left+500)).Draw(t, "shift")
				over = rapid.IntRange(16, 16+2*m.W).Draw(t, "overFar")
			}
			l := byte(rapid.IntRange(0, 15).Draw(t, "overLevel"))
			for over > 15 {
				r.Runs = append(r.Runs, 0xF0|l)
				over -= 15
			}
			r.Runs = append(r.Runs, byte(over<<4)|l)
			b := r.bytes()
			bad = b[:len(b)-1]
			cs.Kind = "runs exceed the row"
		}
		p[at] = append(bad, 10)
		payload := bytes.Join(p, nil)
		cs.File = append(n.Header(len(payload)), payload...)
	case 14: // no level list, length neither of the two encodings
		m2 := genModel(t, GenOpts{Enc: "rl", Local: -1})
		cs.Base = m2
		n = m2.clone()
		n.dropField("LV")
		p := n.Payload()
		if len(p) == n.W*n.H || len(p) == 2*n.W*n.H {
			p = append(p, 10)
			if len(p) == 2*n.W*n.H { // 1x1
				p = append(p, 10)
			}
		}
		cs.Kind = "run-length data without level list"
		cs.File = append(n.Header(len(p)), p...)
	default: // next to nothing
		f := m.Bytes()
		k := rapid.IntRange(0, 21).Draw(t, "k")
		cs.File = append(append([]byte{}, f[:k]...), 3)
		cs.File = append(cs.File, m.Payload()...)
		cs.Kind = "header too short"
	}
	return cs
}

// truncModels are small composites whose every prefix is tried.
func truncModels() []*Model {
	var ms []*Model
	for _, p := range []string{"RX", "RW", "ZQ", "PE"} {
		for _, enc := range []string{"le", "sb", "rl"} {
			for _, s := range [][2]int{{1, 1}, {2, 3}, {5, 2}, {3, 7}, {40, 3}} {
				m := codesModel(enc, p, -1, s[0], s[1], 77, true)
				if enc == "rl" {
					m.Codes = nil
					m.Levels = []string{"  1.0", " 19.0"}
					m.Fields = append([]Field{{"LV", " 2  1.0 19.0"}}, m.Fields...)
					m.Rows = []Row{{Line: 66, Off: 0, Runs: []byte{0x11}}, {Empty: true}, {Line: 70, NoOff: true}, {Line: 67, Off: s[0]}}
				}
				ms = append(ms, m)
			}
		}
	}
	return ms
}

func init() {
	register(&Prop{
		ID:     "C07",
		Rule:   "every prefix of many small composites of all three encodings, random prefixes of random and local-picture composites, and random well-formed composites with one thing broken (announced length, capture time, dimensions, numeric fields, terminator, level count/list/entries, offset byte, overlong runs, missing fields), under random chunkings of the stream; headers, rows and payloads that end near 4096 and 8192 bytes, cut there; composites of megabytes with wrong lengths and cut short; the unbroken composite is checked to be accepted in the same case. Non-trivial: the break is behind the 22-byte minimum header. Distinct by case content.",
		Assume: []string{"fields count as unreadable only if no leading number can be read from them", "an unknown-unit error is not a rejection"},
		Sections: []Section{
			Enum("prefixes", func(tier string, yield func(truncCase) bool) {
				for _, m := range truncModels() {
					_, _, needed := m.Split()
					for cut := 0; cut < needed; cut++ {
						d := Delivery{FailAt: -1, EOFData: cut%2 == 0}
						if cut%3 == 0 {
							d.Chunks = []int{1 + cut%5}
						}
						if !yield(truncCase{m, cut, d}) {
							return
						}
					}
				}
			}, checkTrunc),
			Rand("truncated", 12000, 200000, func(t *rapid.T) truncCase {
				m := genModel(t, GenOpts{Big: chance(t, "big", 5)})
				_, h, n := m.Split()
				cut := rapid.OneOf(rapid.IntRange(0, n-1), rapid.IntRange(h-1, n-1), rapid.IntRange(max(0, n-6), n-1), rapid.IntRange(max(0, n-2*m.W), n-1)).Draw(t, "cut")
				return truncCase{m, cut, genDelivery(t)}
			}, checkTrunc),
			Rand("broken", 30000, 500000, genReject, checkReject),
			Enum("buffer", edgeCuts, checkTrunc),
			Enum("large", func(tier string, yield func(rejectCase) bool) {
				large(4, "le", "sb")(tier, func(m *Model) bool {
					file, h, needed := m.Split()
					bad := func(kind string, f []byte) bool {
						return yield(rejectCase{Kind: kind, File: f, D: Delivery{FailAt: -1}})
					}
					n := m.W * m.H
					for _, p := range []int{n - 1, n + 1, 2*n - 1, 2*n + 1, 3 * n, n / 2, n - m.W, n + m.W, 2*n + m.W, 2*n - m.W, 4 * n, n - 1000, 2*n + 1000} {
						if p != n && p != 2*n && !bad("announced length does not match", append(append(withBY(m, int64(h+p)), make([]byte, 1000)...), file[h:needed-len(file[h:needed])/2]...)) {
							return false
						}
					}
					for _, cut := range []int{needed - 1, needed - 2, needed - m.W, needed - m.W - 1, needed / 2, h + 1<<16, h + 1<<20} {
						if cut < needed && !bad("payload cut short", file[:cut]) {
							return false
						}
					}
					return true
				})
			}, checkReject),
		},
	})

	register(&Prop{
		ID:   "C08",
		Rule: "all 14 local products x 3 encodings x content seeds, random local-picture composites with varied headers, alone and after other composites of the same label, and local products whose header has explicit dimensions (including the catalogue's own plain dimensions), compared voxel by voxel with the reference model. Non-trivial: content of at least two encodings' classes, i.e. every generated composite with more than one distinct row. Distinct by case content.",
		Sections: []Section{
			Enum("catalogue", func(tier string, yield func(*Model) bool) {
				seeds := 2
				if tier == "thorough" {
					seeds = 25
				}
				for s := 0; s < seeds; s++ {
					for _, p := range localProducts {
						for _, enc := range []string{"le", "sb", "rl"} {
							m := &Model{Product: p, Stamp: "262115", WMO: "10908", MMYY: "0616", Enc: enc, W: 200, H: localOf[p].py, Local: true, BYPad: 7, Seed: uint64(s*100 + 7), Mode: "any", Prec: -1}
							m.Fields = []Field{{"VS", " 2"}, {"PR", " E-01"}}
							if enc == "rl" {
								m.Levels = []string{"  1.0", "  2.0", "  3.5", "  5.0", "  7.0", " 11.0"}
								m.Fields = append(m.Fields, Field{"LV", " 6" + strings.Join(m.Levels, "")})
								for i := 0; i < 193; i++ { // coprime to 200: no two layers alike
									m.Rows = append(m.Rows, Row{Line: 77, Off: (i + s) % 197, Runs: []byte{byte(0x10 + i%7), byte(0x10 + (i/7+s)%7)}})
								}
							}
							if !yield(m) {
								return
							}
						}
					}
				}
			}, checkLocal),
			Rand("random", 120, 3000, func(t *rapid.T) *Model { return genModel(t, GenOpts{Local: 1}) }, checkLocal),
			Rand("after", 40, 600, func(t *rapid.T) localAfter {
				cs := localAfter{M: genModel(t, GenOpts{Local: 1})}
				for i := rapid.IntRange(1, 4).Draw(t, "before"); i > 0; i-- {
					o := GenOpts{Local: pick(t, "explicit", -1, -1, 1), Products: []string{cs.M.Product}}
					if chance(t, "other", 20) {
						o.Products = localProducts
					}
					if o.Local < 0 && chance(t, "like", 70) {
						o.Shape = pick(t, "shape", [2]int{200, 100}, [2]int{200, 200}, [2]int{200, 224}, [2]int{200, 448}, [2]int{200, 400}, [2]int{100, 200}, [2]int{200, 2400}, [2]int{400, 400})
					}
					cs.Before = append(cs.Before, genModel(t, o))
				}
				return cs
			}, func(cs localAfter, o *Obs) error {
				for _, m := range cs.Before {
					if err := checkLocal(m, &Obs{}); err != nil {
						return err
					}
				}
				return checkLocal(cs.M, o)
			}),
			Rand("explicit", 1500, 20000, func(t *rapid.T) *Model {
				o := GenOpts{Local: -1, Products: localProducts}
				if chance(t, "like", 8) {
					o.Shape = pick(t, "shape", [2]int{200, 224}, [2]int{200, 400}, [2]int{200, 200}, [2]int{100, 224}, [2]int{200, 24}, [2]int{200, 2400})
				}
				return genModel(t, o)
			}, checkLocal),
		},
	})

	register(&Prop{
		ID:     "C09",
		Rule:   "random composites (also with headers and rows beyond the 4096-byte read buffer) delivered under random scripts of reads (one byte, fixed and mixed sizes, empty reads, data together with end-of-file), compared with parsing from memory; small composites under 14 scripts each; the content of files, pipes, sections, limited, joined and compressed streams, standard buffers of any size (partly read before, with surplus bytes behind, cut short); a dozen kinds of I/O errors (lasting or passing) injected at every offset of small composites and random offsets of random and large ones and of archives, alone or together with data; headers, rows and payloads that end within 18 bytes of 4096 and 8192, delivered whole, in pieces and with errors there. Non-trivial: at least 3 reads are needed, or the error is behind the minimum header. Distinct by case content.",
		Assume: []string{"a stream never gives more than 20 empty reads in a row (io.Reader discourages empty reads and bufio gives up after 100)"},
		Sections: []Section{
			Rand("chunks", 8000, 120000, func(t *rapid.T) deliveryCase {
				return deliveryCase{genModel(t, GenOpts{Big: chance(t, "big", 25)}), genDelivery(t)}
			}, checkDelivery),
			Enum("small", func(tier string, yield func(deliveryCase) bool) {
				scripts := [][]int{nil, {1}, {2}, {3}, {7}, {16}, {0, 1}, {1, 0, 0, 2}, {4096}, {20, 1}, {22, 0, 1000}, {100, 1}, {1, 100}, {0, 0, 0, 4096}}
				for _, m := range truncModels() {
					for _, s := range scripts {
						for _, e := range []bool{false, true} {
							if !yield(deliveryCase{m, Delivery{Chunks: s, EOFData: e, FailAt: -1}}) {
								return
							}
						}
					}
				}
			}, checkDelivery),
			Enum("faults", func(tier string, yield func(deliveryCase) bool) {
				for _, m := range truncModels() {
					_, _, needed := m.Split()
					for at := 0; at < needed; at++ {
						for e := range ioErrors {
							if !yield(deliveryCase{m, Delivery{FailAt: at, ErrData: (at+e)%2 == 0, Chunks: [][]int{nil, {1}, {5}}[(at+e/2)%3], Err: e, Once: (at/2+e)%2 == 0}}) {
								return
							}
						}
					}
				}
			}, checkDelivery),
			Rand("randomFaults", 8000, 120000, func(t *rapid.T) deliveryCase {
				m := genModel(t, GenOpts{Big: chance(t, "big", 15)})
				_, h, n := m.Split()
				d := genDelivery(t)
				d.FailAt = rapid.OneOf(rapid.IntRange(0, n-1), rapid.IntRange(h-1, n-1), rapid.IntRange(max(0, n-4), n-1)).Draw(t, "failAt")
				d.ErrData = rapid.Bool().Draw(t, "errData")
				d.Err = rapid.IntRange(0, len(ioErrors)-1).Draw(t, "err")
				d.Once = chance(t, "once", 30)
				return deliveryCase{m, d}
			}, checkDelivery),
			Rand("archives", 1200, 20000, func(t *rapid.T) archiveFault {
				cs := archiveFault{A: genArchive(t), At: rapid.IntRange(0, 1000).Draw(t, "failAt")}
				for cs.A.Bad || len(cs.A.Entries) == 0 {
					cs.A.Bad = false
					cs.A.Entries = []archiveEntry{{M: tiny("RX"), Name: "RX"}}
				}
				cs.A.Cut, cs.A.TarCut = -1, -1
				cs.A.D.ErrData = rapid.Bool().Draw(t, "errData")
				cs.A.D.Err = rapid.SampledFrom([]int{0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 11}).Draw(t, "err")
				return cs
			}, checkArchiveFault),
			Enum("large", func(tier string, yield func(deliveryCase) bool) {
				i := 0
				large(2, "le", "sb", "rl")(tier, func(m *Model) bool {
					_, h, needed := m.Split()
					i++
					for _, at := range []int{-1, needed - 1, needed / 2, h + needed/3, 1 << 20, 1 << 22} {
						d := Delivery{FailAt: at, Chunks: [][]int{{1000}, {65536}, {4096, 1}, nil}[i%4], ErrData: at%2 == 0, Err: i, Once: i%3 == 0}
						if at < needed && !yield(deliveryCase{m, d}) {
							return false
						}
					}
					return true
				})
			}, checkDelivery),
			Enum("buffer", edgeDeliveries, checkDelivery),
			Rand("readers", 6000, 90000, genReader, checkReader),
		},
	})
}

// ---------------------------------------------------------------- C08

// a local picture parsed after others
type localAfter struct {
	Before []*Model
	M      *Model
}

func checkLocal(m *Model, o *Obs) error {
	c, err := m.parse()
	if err != nil {
		return err
	}
	if c.Px != m.W || c.Py != m.H {
		return fmt.Errorf("%s: plain dimensions %dx%d, want %dx%d", m.Product, c.Px, c.Py, m.W, m.H)
	}
	if err := m.checkPlain(c); err != nil {
		return fmt.Errorf("%s: %v", m.Product, err)
	}
	if err := m.checkLayers(c); err != nil {
		return fmt.Errorf("%s: %v", m.Product, err)
	}
	dz, _, _ := m.layers()
	o.Label("%s %s %d layers", m.Product, m.Enc, dz)
	if m.H > 1 && (m.Codes != nil || m.Seed != 0 || len(m.Rows) > 1) {
		o.NT()
	}
	return nil
}

// ---------------------------------------------------------------- C09

type deliveryCase struct {
	M *Model
	D Delivery
}

func checkDelivery(cs deliveryCase, o *Obs) error {
	m := cs.M
	file, _, needed := m.Split()
	rd := &scriptReader{data: file, d: cs.D}
	reads := 0
	rd.onRead = func() { reads++ }
	c, err := radolan.NewComposite(rd)
	if cs.D.FailAt >= 0 && cs.D.FailAt < needed {
		if !rejected(err) {
			return fmt.Errorf("stream fails at byte %d of %d, but parsing gives error %v", cs.D.FailAt, needed, err)
		}
		o.Label("fault")
		if cs.D.FailAt > 22 {
			o.NT()
		}
		return nil
	}
	if err := m.accepted(c, err); err != nil {
		return fmt.Errorf("delivered in pieces %v: %v", cs.D.Chunks, err)
	}
	ref, err := m.parse()
	if err != nil {
		return err
	}
	if err := sameComposite(c, ref); err != nil {
		return fmt.Errorf("delivered in pieces %v, the composite differs from the one read at once: %v", cs.D.Chunks, err)
	}
	if err := m.checkPlain(c); err != nil {
		return err
	}
	if reads >= 3 {
		o.NT()
	}
	if needed > 8192 {
		o.Label("larger than the read buffer")
	}
	o.Label("enc %s", m.Enc)
	return nil
}

// an archive whose stream fails
type archiveFault struct {
	A  archiveCase
	At int // per mille of the compressed bytes
}

func checkArchiveFault(cs archiveFault, o *Obs) error {
	tb, _, end := cs.A.tarBytes()
	zb, blocks := bzCompress(tb, cs.A.Bz)
	at := cs.At * (len(zb) - 1) / 1000
	complete := 0
	for _, b := range blocks {
		if b.Bits <= 8*at {
			complete = b.Bytes
		}
	}
	d := cs.A.D
	d.FailAt = at
	got, err := radolan.NewComposites(&scriptReader{data: zb, d: d})
	if complete >= end[len(end)-1] {
		o.Label("behind the last entry")
		if err == nil && len(got) != len(end) {
			return fmt.Errorf("%d composites from %d entries", len(got), len(end))
		}
		return nil
	}
	if err == nil {
		return fmt.Errorf("the stream fails (%v) at byte %d of %d of an archive of %d entries, but %d composites are returned without error", ioErrors[d.Err], at, len(zb), len(end), len(got))
	}
	o.Label("error %v", ioErrors[d.Err])
	o.NT()
	return nil
}

// ---------------------------------------------------------------- C10

type archiveEntry struct {
	M    *Model
	Name string
	Raw  []byte `json:",omitempty"` // content if M is nil
}

type archiveCase struct {
	Entries []archiveEntry
	Format  int // tar format
	Bz      BzOpts
	D       Delivery
	Bad     bool // an entry cannot be parsed
	Cut     int  // per mille of the needed compressed bytes, -1 for none
	TarCut  int  // per mille of one entry, -1 for none
	TarAt   int  // the entry cut into
	Owner   int
	Meta    int // modification times, permissions and groups
}

// tarBytes returns the archive and for each entry where its header begins and
// its content ends.
func (cs *archiveCase) tarBytes() (b []byte, begin, end []int) {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	for i, e := range cs.Entries {
		content := e.content()
		must(w.Flush())
		begin = append(begin, buf.Len())
		name := fmt.Sprintf("%s%03d", e.Name, i)
		if strings.HasPrefix(e.Name, "*") { // a suffix
			name = fmt.Sprintf("FX%03d%s", i, e.Name[1:])
		}
		if strings.HasPrefix(e.Name, "=") { // just that
			name = e.Name[1:]
		}
		h := &tar.Header{Name: name, Typeflag: tar.TypeReg, Mode: 0o644, Size: int64(len(content)),
			ModTime: time.Unix(1467000000+int64(i), 0), Uid: cs.Owner, Gid: cs.Owner / 2 * (cs.Meta % 3), Format: []tar.Format{tar.FormatUSTAR, tar.FormatPAX, tar.FormatGNU}[cs.Format]}
		switch cs.Meta {
		case 1: // all alike
			h.ModTime, h.Mode = time.Unix(0, 0), 0
		case 2: // backwards, in the future
			h.ModTime, h.Mode = time.Unix(4102444800-int64(i)*3600, 0), 0o100755
			h.Uname, h.Gname = "dwd", "radar"
		case 3:
			h.ModTime = time.Unix(1467000000+int64(mix(7, i)%1e6), 0)
		}
		must(w.WriteHeader(h))
		_, err := w.Write(content)
		must(err)
		end = append(end, buf.Len())
	}
	must(w.Close())
	return buf.Bytes(), begin, end
}

func (e *archiveEntry) content() []byte {
	if e.M == nil {
		return e.Raw
	}
	return e.M.Bytes()
}

func checkArchive(cs archiveCase, o *Obs) error {
	tb, begin, end := cs.tarBytes()
	if cs.TarCut >= 0 && len(begin) > 0 {
		i := cs.TarAt % len(begin)
		// not between the blocks of extended headers or in their padding: tar
		// takes the end there for the end of the archive
		head := end[i] - len(cs.Entries[i].content()) - 512
		at := head + 1 + cs.TarCut*(end[i]-head-2)/1000
		tb = tb[:at]
	}
	zb, blocks := bzCompress(tb, cs.Bz)
	if plain, err := io.ReadAll(bzip2.NewReader(bytes.NewReader(zb))); err != nil || !bytes.Equal(plain, tb) {
		fatal("bzip2 encoder is broken: %v", err)
	}
	mustFail := cs.Bad || cs.TarCut >= 0 && len(begin) > 0
	mayFail := mustFail
	unknown := false // an entry of a product that is not in the catalogue: all composites or none
	for _, e := range cs.Entries {
		unknown = unknown || e.M != nil && e.M.unit() == 0
	}
	mayFail = mayFail || unknown
	if cs.Cut >= 0 {
		cut := cs.Cut * (len(zb) - 1) / 1000
		needed := 0
		if len(end) > 0 {
			needed = end[len(end)-1]
		}
		complete := 0 // uncompressed bytes in blocks before the cut
		for _, b := range blocks {
			if b.Bits <= 8*cut {
				complete = b.Bytes
			}
		}
		zb = zb[:cut]
		mayFail = true
		if complete < needed {
			mustFail = true
		}
	}
	cs.D.FailAt = -1
	got, err := radolan.NewComposites(&scriptReader{data: zb, d: cs.D})
	o.Label("entries %02d", min(len(cs.Entries), 13))
	o.Label("blocks %d", min(len(blocks), 9))
	if unknown {
		o.Label("unknown product")
	}
	if err == radolan.ErrUnknownUnit && unknown && !mustFail && len(got) > 0 {
		err = nil
	}
	if err != nil {
		if !mayFail {
			return fmt.Errorf("archive of %d well-formed entries rejected: %v", len(cs.Entries), err)
		}
		if len(got) > 0 {
			return fmt.Errorf("archive reported as failed (%v) but %d composites returned", err, len(got))
		}
		if len(cs.Entries) > 1 {
			o.NT()
		}
		o.Label("rejected (bad entry %v, truncated %v)", cs.Bad, cs.Cut >= 0 || cs.TarCut >= 0)
		return nil
	}
	if mustFail {
		return fmt.Errorf("archive with %d entries (bad entry %v, cut %d, cut in entry %d) accepted with %d composites", len(cs.Entries), cs.Bad, cs.Cut, cs.TarCut, len(got))
	}
	if len(got) != len(cs.Entries) {
		return fmt.Errorf("%d composites from %d entries", len(got), len(cs.Entries))
	}
	for i := 1; i < len(got); i++ {
		if got[i].ForecastTime.Before(got[i-1].ForecastTime) {
			return fmt.Errorf("composite %d (%v) is before its predecessor (%v)", i, got[i].ForecastTime, got[i-1].ForecastTime)
		}
	}
	ordered := true
	var last time.Time
	used := make([]bool, len(got))
	for i, e := range cs.Entries {
		ref, err := e.M.parse()
		if err != nil {
			return err
		}
		if ref.ForecastTime.Before(last) {
			ordered = false
		}
		last = ref.ForecastTime
		found := false
		var why error
		for j, c := range got {
			if used[j] {
				continue
			}
			if err := sameComposite(c, ref); err == nil {
				used[j] = true
				found = true
				break
			} else if c != nil && c.ForecastTime.Equal(ref.ForecastTime) {
				why = err
			}
		}
		if !found {
			return fmt.Errorf("no composite returned for entry %d (%v)", i, why)
		}
	}
	// returned composites are independent of each other
	for i := range got {
		for j := range got[:i] {
			if got[i] == got[j] || &got[i].Data[0][0] == &got[j].Data[0][0] {
				return fmt.Errorf("composites %d and %d share storage", j, i)
			}
		}
	}
	if len(cs.Entries) > 1 && !ordered {
		o.NT()
		o.Label("out of order")
	}
	return nil
}

func genArchive(t *rapid.T) archiveCase {
	cs := archiveCase{Cut: -1, TarCut: -1, D: genDelivery(t)}
	n := rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 5), rapid.IntRange(0, 5), rapid.IntRange(6, 30), rapid.IntRange(6, 30), rapid.IntRange(6, 30), rapid.IntRange(31, 150)).Draw(t, "entries")
	if chance(t, "hundreds", 2) {
		n = rapid.IntRange(200, 600).Draw(t, "manyEntries")
	}
	base := genTime(t)
	if chance(t, "clockChange", 15) { // around a change of the local clock
		base = time.Date(base.Year(), time.October, 31, 1, 0, 0, 0, time.UTC)
		if chance(t, "spring", 30) {
			base = time.Date(base.Year(), time.March, 31, 1, 0, 0, 0, time.UTC)
		}
		base = base.AddDate(0, 0, -int(base.Weekday()))
	} else if chance(t, "turn", 10) { // of the year
		base = time.Date(base.Year(), time.January, 1, 0, 0, 0, 0, time.UTC)
	}
	strange := chance(t, "strange", 7)
	product := ""
	if chance(t, "series", 60) {
		product = pick(t, "product", "FX", "FZ", "RX", "RW", "WN")
	}
	for i := 0; i < n; i++ {
		o := GenOpts{Local: -1, MaxPix: 12, Known: true, Small: n > 2}
		if product != "" {
			o.Products = []string{product}
		}
		if n <= 3 && chance(t, "local", 5) {
			o.Local = 1
			o.Products = nil
		}
		m := genModel(t, o)
		if product != "" && chance(t, "sameTime", 60) {
			m.setTime(base)
			m.dropField("VV")
			m.Fields = append(m.Fields, Field{"VV", fmt.Sprintf(" %03d", rapid.OneOf(rapid.IntRange(0, 24), rapid.IntRange(0, 3)).Draw(t, "lead")*5)})
		} else if chance(t, "nearby", 60) {
			m.setTime(base.Add(time.Duration(rapid.IntRange(-10, 10).Draw(t, "shift")) * 5 * time.Minute))
		}
		if m.Trailer == nil && chance(t, "trailing", 15) {
			m.Trailer = bytes.Repeat([]byte{'x'}, rapid.IntRange(1, 700).Draw(t, "trail"))
		}
		if n > 150 || chance(t, "minimal", 8) { // as short as can be
			f := Field{"GP", "1x1"}
			if chance(t, "bg", 50) {
				f = Field{"BG", "001001"}
			}
			m = &Model{Product: m.Product, Stamp: m.Stamp, WMO: m.WMO, MMYY: m.MMYY, Enc: pick(t, "minEnc", "le", "sb"), W: 1, H: 1, BYPad: 1, Codes: []uint16{uint16(rapid.IntRange(0, 65535).Draw(t, "code"))}, Fields: []Field{f}}
			if n > 150 {
				m.Fields = append(m.Fields, Field{"VV", fmt.Sprintf("%4d", rapid.IntRange(0, 300).Draw(t, "lead"))})
			}
		}
		if strange && chance(t, "unknownEntry", 30) {
			m.Product = genUnknownProduct(t)
		}
		name := pick(t, "name", "raa01-", "raa01-", "FX1607282105_", "FX1607282105_", "dir/sub/", strings.Repeat("long/name", 20), ".hidden", "dir/.hidden", "./", "*.gz", "*.bz2", "*.txt", "*.tar.bz2", "*.md5", "*~", "README", "ä", "a b", "__MACOSX/._", "=", "=PaxHeader", "/data/", "FX_latest_", "=latest", "0", "-", "=FX1607282105_010_MF002", "C:\\data\\", "../", "=tar")
		cs.Entries = append(cs.Entries, archiveEntry{M: m, Name: name})
	}
	cs.Format = rapid.IntRange(1, 2).Draw(t, "tar")
	cs.Meta = rapid.IntRange(0, 3).Draw(t, "meta")
	cs.Owner = pick(t, "owner", 0, 0, 1000, 65534)
	long := false
	for _, e := range cs.Entries {
		long = long || len(e.Name) > 90 || e.Name == "ä"
	}
	if !long && chance(t, "ustar", 50) {
		cs.Format = 0
	}
	cs.Bz = BzOpts{Level: rapid.IntRange(1, 9).Draw(t, "level"), Tables: rapid.IntRange(2, 6).Draw(t, "tables"), Seed: rapid.Uint64().Draw(t, "bzseed")}
	if chance(t, "blocks", 50) {
		cs.Bz.Block = rapid.OneOf(rapid.IntRange(100, 3000), rapid.SampledFrom([]int{512, 1000, 1024, 5120, 10240})).Draw(t, "block")
	}
	if chance(t, "streams", 10) {
		cs.Bz.Split = rapid.IntRange(1, 6000).Draw(t, "split")
	}
	switch rapid.IntRange(0, 9).Draw(t, "fault") {
	case 0, 1:
		if n > 0 {
			at := rapid.IntRange(0, n-1).Draw(t, "badAt")
			bad := genReject(t)
			if chance(t, "empty", 10) {
				bad.File = nil
			}
			if chance(t, "cutEntry", 20) {
				file, _, needed := cs.Entries[at].M.Split()
				bad.File = file[:rapid.IntRange(0, needed-1).Draw(t, "cutEntryAt")]
			}
			cs.Entries[at] = archiveEntry{Raw: bad.File, Name: "bad"}
			cs.Bad = true
		}
	case 2, 3:
		cs.Cut = rapid.IntRange(0, 1000).Draw(t, "cut")
	case 4:
		cs.TarCut = rapid.IntRange(0, 1000).Draw(t, "tarCut")
		cs.TarAt = rapid.IntRange(0, 40).Draw(t, "tarAt")
	}
	return cs
}

func init() {
	register(&Prop{
		ID:     "C10",
		Rule:   "random archives of 0-150, some of 200-600 random composites (forecast series with ties and shuffled times, trailing bytes, long, hidden and otherwise odd names, entries of less than 50 bytes, various modes, owners and modification times, USTAR/PAX/GNU headers), compressed by an own bzip2 encoder with random block boundaries, levels, code tables and streams, delivered in random pieces; a share with one unparsable entry or truncated in the compressed stream or within an entry. Compared with parsing the entries alone. Non-trivial: at least two entries, and not in forecast order or with a fault. Distinct by case content.",
		Assume: []string{"archives contain regular files only", "archives with entries of unknown products may give an error and nothing or all of the composites", "truncations that only lose the archive's end marker may be accepted or rejected, but never give a part of the composites", "corruption of the compressed stream other than truncation is not generated"},
		Sections: []Section{
			Rand("archives", 2400, 40000, genArchive, checkArchive),
			Enum("cuts", func(tier string, yield func(archiveCase) bool) {
				for _, block := range []int{0, 700, 1024} {
					for cut := 0; cut <= 1000; cut += 2 {
						cs := archiveCase{Cut: cut, TarCut: -1, Bz: BzOpts{Level: 9, Block: block, Seed: 5}, D: Delivery{FailAt: -1}, Format: cut % 3}
						for i, lead := range []string{" 010", " 000", " 005"} {
							m := tiny("FX", Field{"VV", lead})
							m.Codes = []uint16{uint16(100 * i), 7}
							cs.Entries = append(cs.Entries, archiveEntry{M: m, Name: "FX"})
						}
						if !yield(cs) {
							return
						}
					}
				}
			}, checkArchive),
			Enum("huge", func(tier string, yield func(archiveCase) bool) {
				for i, s := range [][3]int{{1100, 1000, 0}, {1400, 1500, 0}, {2200, 2400, 0}, {4400, 4800, 1}, {3000, 3000, 0}, {4000, 3700, 0}, {5500, 5700, 1}} {
					if tier == "quick" && i > 3 {
						return
					}
					var cs archiveCase
					cs.Cut, cs.TarCut, cs.D.FailAt = -1, -1, -1
					cs.Bz = BzOpts{Level: 9 - i, Tables: 2}
					cs.Format = i % 3
					for j, shape := range [][2]int{{3, 5}, {s[0], s[1]}, {4, 1}} {
						m := largeModel(pickAt(s[2], "le", "sb"), pickAt(i, "WN", "FX", "RX"), shape[0], shape[1], uint64(7*i+j))
						m.setField("VV", fmt.Sprintf(" %03d", (j*7+i)%3*5))
						m.Mode = pickAt(i, "sparse", "smooth", "rows")
						cs.Entries = append(cs.Entries, archiveEntry{M: m, Name: "FX"})
					}
					if !yield(cs) {
						return
					}
				}
			}, checkArchive),
			Rand("large", 12, 250, func(t *rapid.T) archiveCase {
				cs := archiveCase{Cut: -1, TarCut: -1, D: genDelivery(t), Bz: BzOpts{Level: 1, Tables: 2}}
				n := rapid.IntRange(2, 6).Draw(t, "n")
				for i := 0; i < n; i++ {
					m := genModel(t, GenOpts{Known: true, Shape: [2]int{230, 230}, Enc: pick(t, "encoding", "le", "sb", "rl")})
					m.dropField("VV")
					m.setField("VV", fmt.Sprintf(" %03d", rapid.IntRange(0, 24).Draw(t, "lead")*5))
					cs.Entries = append(cs.Entries, archiveEntry{M: m, Name: "FX"})
				}
				return cs
			}, checkArchive),
		},
	})
}

// ---------------------------------------------------------------- C11

func unitConst(u int) radolan.Unit {
	return []radolan.Unit{radolan.Unit_unknown, radolan.Unit_mm, radolan.Unit_dBZ, radolan.Unit_km, radolan.Unit_mps}[u]
}

func checkUnit(m *Model, o *Obs) error {
	c, err := radolan.NewComposite(bytes.NewReader(m.Bytes()))
	u := m.unit()
	if u == uUnknown {
		if !errors.Is(err, radolan.ErrUnknownUnit) {
			return fmt.Errorf("product %q is not in the catalogue, but error is %v", m.Product, err)
		}
		o.Label("unknown")
	} else {
		if err != nil {
			return fmt.Errorf("product %q rejected: %v", m.Product, err)
		}
		o.Label("known")
	}
	if c == nil {
		return fmt.Errorf("no composite for product %q", m.Product)
	}
	if c.DataUnit != unitConst(u) {
		return fmt.Errorf("product %q has unit %v, want %v", m.Product, c.DataUnit, unitConst(u))
	}
	if s := c.DataUnit.String(); s != unitName[u] {
		return fmt.Errorf("unit of product %q is spelled %q, want %q", m.Product, s, unitName[u])
	}
	if s := fmt.Sprint(c.DataUnit); s != unitName[u] {
		return fmt.Errorf("unit of product %q prints as %q, want %q", m.Product, s, unitName[u])
	}
	if err := m.checkMeta(c); err != nil {
		return fmt.Errorf("product %q: %v", m.Product, err)
	}
	if err := m.checkPlain(c); err != nil {
		return fmt.Errorf("product %q: %v", m.Product, err)
	}
	if err := m.checkLayers(c); err != nil {
		return fmt.Errorf("product %q: %v", m.Product, err)
	}
	if !m.Local { // complete: calibrated as a blank composite of this shape is
		d := radolan.NewDummy(m.Product, c.Format, c.Dx, c.Dy)
		if c.HasProjection != d.HasProjection || !same64(c.Rx, d.Rx) || !same64(c.Ry, d.Ry) {
			return fmt.Errorf("product %q: projection %v, resolution %v, %v; want those of a blank composite: %v, %v, %v", m.Product, c.HasProjection, c.Rx, c.Ry, d.HasProjection, d.Rx, d.Ry)
		}
		x, y := c.Project(51, 9)
		if wx, wy := d.Project(51, 9); !same64(x, wx) || !same64(y, wy) {
			return fmt.Errorf("product %q: projected to %v, %v, want %v, %v as a blank composite", m.Product, x, y, wx, wy)
		}
		if c.HasProjection {
			o.Label("projection")
		}
	}
	o.Label("enc %s", m.Enc)
	o.NT()
	return nil
}

func init() {
	register(&Prop{
		ID:     "C11",
		Rule:   "every two-character product label (letter, then letter or digit) x 3 encodings x 2 header variants, labels with a lower-case second letter, and random composites (also on grids with projection) with a share of uncatalogued labels: unit, its text, the error, metadata and every pixel compared with the catalogue and the reference model, calibration with a blank composite of the shape. Every case is non-trivial (the pixel values depend on the unit). Distinct by case content.",
		Assume: []string{"product labels equal to a field name (BY, GP, BG, VV, VS, LV, E0-E9) are not generated"},
		Sections: []Section{
			Enum("labels", func(tier string, yield func(*Model) bool) {
				for a := 'A'; a <= 'Z'; a++ {
					for _, b := range "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789" {
						p := string(a) + string(b)
						if clashing[p] {
							continue
						}
						for i, m := range truncModelsFor(p) {
							if i%2 == 1 {
								m.Fields = append(m.Fields, Field{"INT", "  60"}, Field{"VS", " 5"}, Field{"VV", " 005"})
							}
							if !yield(m) {
								return
							}
						}
					}
				}
			}, checkUnit),
			Enum("lower", func(tier string, yield func(*Model) bool) {
				for a := 'A'; a <= 'Z'; a++ {
					for b := 'a'; b <= 'z'; b++ {
						if !yield(codesModel("sb", string(a)+string(b), -1, 4, 3, 77, true)) {
							return
						}
					}
				}
			}, checkUnit),
			Enum("large", large(5, "le", "sb", "rl"), checkUnit),
			Rand("grids", 400, 4000, func(t *rapid.T) *Model {
				o := GenOpts{Local: -1, Shape: rapid.SampledFrom(gridShapes).Draw(t, "shape"), MaxPix: 1}
				if chance(t, "unknown", 70) {
					o.Products = []string{genUnknownProduct(t)}
				}
				return genModel(t, o)
			}, checkUnit),
			Rand("random", 8000, 100000, func(t *rapid.T) *Model {
				o := GenOpts{Local: -1}
				if chance(t, "unknown", 30) {
					o.Products = []string{genUnknownProduct(t)}
				}
				return genModel(t, o)
			}, checkUnit),
		},
	})
}

func truncModelsFor(product string) []*Model {
	var ms []*Model
	for _, enc := range []string{"le", "sb", "rl"} {
		for _, s := range [][2]int{{4, 3}, {2, 5}} {
			m := codesModel(enc, product, -1, s[0], s[1], 77, true)
			if enc == "rl" {
				m.Codes = nil
				m.Levels = []string{"  1.0", " 19.0"}
				m.Fields = append([]Field{{"LV", " 2  1.0 19.0"}}, m.Fields...)
				m.Rows = []Row{{Line: 66, Off: 0, Runs: []byte{0x11, 0x12}}, {Empty: true}}
			}
			ms = append(ms, m)
		}
	}
	return ms
}
