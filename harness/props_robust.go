package main

import (
	"bytes"
	"errors"
	"fmt"
	"image/color"
	"math"
	"strings"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C01

// rawCase is any byte sequence offered as a composite or as an archive.
type rawCase struct {
	Data    []byte
	Zeros   int    // this many zero bytes follow (bulk payload)
	Repeat  int    `json:",omitempty"` // Data is repeated so often, behind the start of a header
	Before  string `json:",omitempty"` // or behind this and followed by a newline
	Archive bool
	D       Delivery
}

func (cs *rawCase) file() []byte {
	data := cs.Data
	if cs.Repeat > 0 {
		before, end := cs.Before, "\n"
		if before == "" {
			before, end = "RX171450100000716", ""
		}
		data = append(append([]byte(before), bytes.Repeat(data, cs.Repeat)...), end...)
		data = append(data, 3)
	}
	return append(append([]byte{}, data...), make([]byte, cs.Zeros)...)
}

var oddFloats = []float64{0, math.Copysign(0, -1), 51, 9, 90, -90, 89.999999, -89.999999, 180, -180, 1e300, -1e300, 5e-324,
	math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 60, 10, 450}

// exercise uses a composite (complete or not) in every way; only a panic, a
// crash or a hang is a fault.
func exercise(c *radolan.Composite, parsed bool, o *Obs) error {
	xs := append([]int{0, 1, c.Dx - 1, c.Dx, c.Px, c.Px - 1}, extremes...)
	ys := append([]int{0, 1, c.Dy - 1, c.Dy, c.Py, c.Py - 1}, extremes...)
	zs := append([]int{0, 1, c.Dz - 1, c.Dz}, extremes...)
	for _, y := range ys {
		for _, x := range xs {
			c.At(x, y)
			for _, z := range zs {
				c.AtZ(x, y, z)
			}
		}
	}
	for _, lat := range oddFloats {
		for _, lon := range oddFloats {
			c.Project(lat, lon)
		}
	}
	_ = c.DataUnit.String()
	if !parsed || c.Dx < 0 || c.Dy < 0 || c.Dx > 4096 || c.Dy > 4096 || c.Dx*c.Dy > 1<<20 {
		return nil
	}
	for _, z := range zs {
		img := vis.Image(func(v float64) color.RGBA { return color.RGBA{1, 2, 3, 4} }, c, z)
		if img == nil {
			return fmt.Errorf("rendering layer %d gives nil", z)
		}
	}
	o.Label("rendered")
	return nil
}

// headerSeen tells whether the input gets past the check of the header length.
func headerSeen(b []byte) bool { return bytes.IndexByte(b, 3) >= 21 }

func checkRobust(cs rawCase, o *Obs) error {
	data := cs.file()
	rd := &scriptReader{data: data, d: cs.D}
	if cs.Archive {
		comps, err := radolan.NewComposites(rd)
		if err == nil {
			for i, c := range comps {
				if c == nil {
					return fmt.Errorf("composite %d of the archive is nil without an error", i)
				}
				if err := exercise(c, true, o); err != nil {
					return err
				}
			}
			o.Label("archive accepted (%d entries)", min(len(comps), 3))
			o.NT()
			return nil
		}
		for _, c := range comps {
			if c != nil {
				if err := exercise(c, false, o); err != nil {
					return err
				}
			}
		}
		o.Label("archive rejected")
		if len(data) > 10 && string(data[:3]) == "BZh" {
			o.NT()
		}
		return nil
	}
	c, err := radolan.NewComposite(rd)
	ok := err == nil || errors.Is(err, radolan.ErrUnknownUnit)
	if ok {
		if c == nil {
			return fmt.Errorf("neither a composite nor an error is returned")
		}
		o.Label("accepted")
	} else {
		msg := strings.SplitN(err.Error(), ":", 3)
		o.Label("rejected: %s", clip(strings.Join(msg[:min(len(msg), 2)], ":"), 70))
	}
	if headerSeen(data) {
		o.NT()
	}
	if c != nil {
		return exercise(c, ok, o)
	}
	return nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// ---------------------------------------------------------------- generators

var extremeNumbers = []string{"0", "-1", "1", "-0", "+5", "2", "3", "7", "10", "16", "99", "100", "-100", "255", "256", "999", "1000", "4096", "9999", "-9999", "10000", "10001", "65535", "65536",
	"99999", "100000", "46341", "-46341", "92682", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "-4294967296", "3037000500", "8589934592", "9223372036854775807",
	"-9223372036854775808", "9223372036854775808", "18446744073709551616", "99999999999999999999999", "4611686018427387904", "1e5", "0x10", "0b1", "0o7", "1_000", "", " ", "-", "+", ".", "x", "NaN", "Inf",
	"00000000000000000000000000001", "1 2", "٣", "\u00ff", "\xff", "\x00", "1\x00", "\n", "\n5", "\t5", "5.5", "-5.5", "5,5"}

func genNumber(t *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(t, "numKind") {
	case 0:
		return fmt.Sprint(rapid.IntRange(-20, 20).Draw(t, "num"))
	case 1:
		return fmt.Sprintf("%4d", rapid.IntRange(-1000, 10000).Draw(t, "num"))
	case 2:
		return fmt.Sprint(rapid.Int64().Draw(t, "num"))
	}
	return rapid.SampledFrom(extremeNumbers).Draw(t, "xnum")
}

var dimNumbers = []int64{0, -1, 1, 2, -2, 3, 5, 10, 11, 200, 224, -200, 300, 2400, 900, 9999, 10000, -9999, 32768, 65536, -65536, 1 << 31, 1 << 32, -(1 << 32), 1 << 33, 3037000500, 1 << 40,
	math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 62, 46341, 1 << 20, 1 << 24}

func genDim64(t *rapid.T) int64 {
	if chance(t, "smallDim", 50) {
		return int64(rapid.IntRange(-6, 30).Draw(t, "dim"))
	}
	return rapid.SampledFrom(dimNumbers).Draw(t, "dimX")
}

func delivery0() Delivery { return Delivery{FailAt: -1} }

// genConsistent draws a header with extreme dimensions whose announced length
// agrees with them (also when their product overflows), so that the length
// check does not stop it.
func genConsistent(t *rapid.T) rawCase {
	h, w := genDim64(t), genDim64(t)
	if chance(t, "square", 20) {
		w = h
	}
	product := genProduct(t, GenOpts{})
	head := product + "171450100000716"
	fields := ""
	if chance(t, "VS", 50) {
		fields += "VS" + genNumber(t)
	}
	if chance(t, "PR", 50) {
		fields += "PR E" + genNumber(t)
	}
	if chance(t, "INT", 30) {
		fields += "INT" + genNumber(t)
	}
	if chance(t, "VV", 30) {
		fields += "VV" + genNumber(t)
	}
	if chance(t, "LV", 25) {
		n := rapid.SampledFrom([]int{0, 1, 2, 3, 6, 12, 14, 15, 16, 20, -1, -2}).Draw(t, "levels")
		fields += fmt.Sprintf("LV%2d%s", n, strings.Repeat(pick(t, "lv", "  1.0", " -0.5", "99999", "  1e9", "  NaN", "  Inf", " -Inf"), max(n, 0)))
	}
	if chance(t, "useBG", 15) {
		fields += fmt.Sprintf("BG%03d%03d", h, w)
	} else {
		fields += fmt.Sprintf("GP%4dx%4d", h, w)
	}
	per := rapid.SampledFrom([]int64{1, 2}).Draw(t, "per")
	if chance(t, "byFirst", 50) {
		fields += "MS  0<>"
	}
	length := 0
	var file []byte
	for i := 0; i < 6; i++ {
		by := int64(length) + per*h*w // wraps around as the code's numbers may
		file = []byte(fmt.Sprintf("%sBY%d%s\x03", head, by, fields))
		if len(file) == length {
			break
		}
		length = len(file)
	}
	cs := rawCase{Data: file, D: delivery0()}
	if h > 0 && w > 0 && h <= 9999 && w <= 9999 && h*w <= 1<<21 {
		if chance(t, "complete", 70) {
			cs.Zeros = int(per * h * w)
		}
	} else {
		cs.Zeros = rapid.IntRange(0, 50).Draw(t, "zeros")
	}
	if chance(t, "newlines", 15) {
		cs.Data = append(cs.Data, bytes.Repeat([]byte{10}, rapid.IntRange(1, 40).Draw(t, "nl"))...)
	}
	return cs
}

// genTokens draws a header from the grammar's tokens in any combination.
func genTokens(t *rapid.T) rawCase {
	var b bytes.Buffer
	product := pick(t, "product", "RX", "PG", "PZ", "PU", "OL", "PE", "W1", "XX", "BY", "GP", "LV", "E1", "VS", "\xff\xff", "é", "  ", "ÄÖ", "12")
	b.WriteString(product)
	if chance(t, "goodDate", 75) {
		b.WriteString(pick(t, "date", "171450100000716", "010000999990100", "290200100000200", "312359000001299"))
	} else {
		b.WriteString(rapid.StringMatching(`[ -~]{15}`).Draw(t, "anyDate"))
	}
	keys := []string{"BY", "BY", "VS", "SW", "INT", "PR", "PR E", "GP", "BG", "LV", "VV", "MF", "MS", "E", "Ä", "Q", "BYGP", "GPBY", ""}
	n := rapid.IntRange(0, 9).Draw(t, "fields")
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(keys).Draw(t, "key")
		b.WriteString(k)
		switch {
		case chance(t, "dim", 30):
			fmt.Fprintf(&b, "%sx%s", genNumber(t), genNumber(t))
		case k == "LV" && chance(t, "lv", 80):
			c := rapid.IntRange(-1, 20).Draw(t, "count")
			fmt.Fprintf(&b, "%2d", c)
			for j := 0; j < c+rapid.IntRange(-1, 1).Draw(t, "off"); j++ {
				fmt.Fprintf(&b, "%5s", genNumber(t))
			}
		default:
			b.WriteString(genNumber(t))
		}
	}
	if chance(t, "dimAgain", 50) {
		d := rapid.IntRange(1, 5).Draw(t, "d")
		fmt.Fprintf(&b, "GP%dx%d", d, d)
		per := d * d * rapid.IntRange(1, 2).Draw(t, "per")
		head := b.Len() + 1
		for i := 0; i < 4; i++ {
			by := fmt.Sprintf("BY%d", head+per)
			head = b.Len() + len(by) + 1
		}
		fmt.Fprintf(&b, "BY%d", head+per)
	}
	if chance(t, "etx", 92) {
		b.WriteByte(3)
	}
	b.Write(rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "payload"))
	return rawCase{Data: b.Bytes(), D: genDelivery(t)}
}

// mutate applies random byte level edits.
func mutate(t *rapid.T, b []byte, head int) []byte {
	b = append([]byte{}, b...)
	n := rapid.IntRange(1, 4).Draw(t, "edits")
	for i := 0; i < n && len(b) > 0; i++ {
		lim := len(b) - 1
		low := 0
		if chance(t, "inHead", 70) {
			lim = min(lim, head)
			if chance(t, "fields", 70) {
				low = min(lim, 17)
			}
		}
		at := rapid.IntRange(low, lim).Draw(t, "at")
		switch rapid.IntRange(0, 8).Draw(t, "edit") {
		case 0:
			b[at] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case 1:
			b[at] = rapid.Byte().Draw(t, "byte")
		case 2: // delete
			end := min(len(b), at+rapid.IntRange(1, 12).Draw(t, "len"))
			b = append(b[:at], b[end:]...)
		case 3: // insert
			ins := rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "ins")
			b = append(b[:at], append(append([]byte{}, ins...), b[at:]...)...)
		case 4: // duplicate a piece
			end := min(len(b), at+rapid.IntRange(1, 40).Draw(t, "len"))
			piece := append([]byte{}, b[at:end]...)
			to := rapid.IntRange(0, lim).Draw(t, "to")
			b = append(b[:to], append(piece, b[to:]...)...)
		case 5: // cut
			b = b[:at]
		case 6: // insert a number
			b = append(b[:at], append([]byte(genNumber(t)), b[at:]...)...)
		case 7: // replace the digits here by a number
			end := at
			for end < len(b) && (b[end] >= '0' && b[end] <= '9' || b[end] == ' ' || b[end] == '-') {
				end++
			}
			b = append(b[:at], append([]byte(genNumber(t)), b[end:]...)...)
		case 8: // insert a key
			k := pick(t, "key", "GP", "BG", "BY", "LV", "VV", "VS", "INT", "E", "A", "LV 3", "GP0x0", "GP-1x-1", "BG", "\x03", "\n", "Ä")
			b = append(b[:at], append([]byte(k), b[at:]...)...)
		}
	}
	return b
}

func genMutant(t *rapid.T) rawCase {
	o := GenOpts{MaxPix: 30, Small: true, Local: -1}
	if chance(t, "localPicture", 4) {
		o.Local = 1
	}
	m := genModel(t, o)
	f, head, _ := m.Split()
	f = mutate(t, f, head)
	if chance(t, "fixBY", 60) {
		f = fixBY(f)
	}
	return rawCase{Data: f, D: genDelivery(t)}
}

// fixBY makes the announced length agree with the file's length.
func fixBY(f []byte) []byte {
	end := bytes.IndexByte(f, 3)
	if end < 0 {
		return f
	}
	at := bytes.LastIndex(f[:end], []byte("BY"))
	if at < 0 {
		return f
	}
	to := at + 2
	for to < end && (f[to] == ' ' || f[to] >= '0' && f[to] <= '9') {
		to++
	}
	rest := len(f) - (to - at - 2)
	return append(append(append([]byte{}, f[:at+2]...), []byte(fmt.Sprintf("%8d", rest+8))...), f[to:]...)
}

func genBytes(t *rapid.T) rawCase {
	cs := rawCase{D: genDelivery(t), Archive: chance(t, "archive", 30)}
	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0:
		cs.Data = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "bytes")
	case 1:
		cs.Data = []byte(rapid.StringMatching(`[A-Z0-9 x<>+-]{0,120}`).Draw(t, "text"))
		cs.Data = append(cs.Data, 3)
	case 2:
		cs.Data = []byte(rapid.String().Draw(t, "unicode") + rapid.String().Draw(t, "unicode") + "\x03")
	case 3:
		cs.Data = append([]byte("BZh9\x31\x41\x59\x26\x53\x59"), rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "bytes")...)
		cs.Archive = true
	}
	return cs
}

func genRawArchive(t *rapid.T) rawCase {
	a := archiveCase{Format: rapid.IntRange(1, 2).Draw(t, "tar")}
	n := rapid.IntRange(0, 3).Draw(t, "entries")
	for i := 0; i < n; i++ {
		var e archiveEntry
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0:
			e.Raw = genConsistent(t).Data
		case 1:
			e.Raw = genTokens(t).Data
		case 2:
			e.Raw = genMutant(t).Data
		default:
			m := genModel(t, GenOpts{Known: true, Local: -1, Small: true, MaxPix: 10})
			e.Raw = m.Bytes()
		}
		e.Name = pick(t, "name", "e", strings.Repeat("long/", 30))
		a.Entries = append(a.Entries, e)
	}
	b, begin, _ := a.tarBytes()
	if chance(t, "editTar", 50) {
		at := 600
		if len(begin) > 0 {
			at = begin[len(begin)-1] + 500
		}
		b = mutate(t, b, at)
	}
	z, _ := bzCompress(b, BzOpts{Level: rapid.IntRange(1, 9).Draw(t, "level"), Tables: 2, Seed: 1})
	if chance(t, "editBz", 40) {
		z = mutate(t, z, 60)
	}
	return rawCase{Data: z, Archive: true, D: genDelivery(t)}
}

type blankCase struct {
	Product    string
	Format     int
	Dx, Dy     int
	Pos        [][3]int
	Lats, Lons []F
}

func checkBlank(cs blankCase, o *Obs) error {
	c := radolan.NewDummy(cs.Product, cs.Format, cs.Dx, cs.Dy)
	if c == nil {
		return fmt.Errorf("blank composite is nil")
	}
	for i := range cs.Lats {
		c.Project(float64(cs.Lats[i]), float64(cs.Lons[i]))
	}
	for _, p := range cs.Pos {
		c.AtZ(p[0], p[1], p[2])
		c.At(p[0], p[1])
	}
	if cs.Dx <= 0 || cs.Dy <= 0 {
		o.Label("not positive")
	}
	if c.HasProjection {
		o.Label("projection")
	}
	o.NT()
	return exercise(c, false, o)
}

func anyInt(t *rapid.T) int {
	return rapid.OneOf(rapid.Int(), rapid.IntRange(-30, 3000), rapid.SampledFrom(extremes),
		rapid.SampledFrom([]int{0, 1, 2, 225, 450, 900, 920, 1100, 1200, 1400, 1500, -900, -1100, -1200, 225 << 40, 275 << 50, 1 << 62, -(1 << 62)})).Draw(t, "int")
}

func anyFloat(t *rapid.T) F {
	return F(rapid.OneOf(rapid.Float64(), rapid.Float64Range(-400, 400), rapid.SampledFrom(oddFloats)).Draw(t, "float"))
}

func genBlank(t *rapid.T) blankCase {
	cs := blankCase{Product: rapid.OneOf(rapid.String(), rapid.SampledFrom([]string{"RX", "PG", "PZ", "", "WN"})).Draw(t, "product"), Format: anyInt(t), Dx: anyInt(t), Dy: anyInt(t)}
	if chance(t, "grid", 40) {
		s := rapid.SampledFrom(gridShapes).Draw(t, "shape")
		sh := rapid.IntRange(0, 62).Draw(t, "shift")
		cs.Dx, cs.Dy = s[0]<<sh, s[1]<<sh
	}
	cs.Pos = genPos(t, cs.Dx, cs.Dy, 1)
	for i := 0; i < 4; i++ {
		cs.Lats = append(cs.Lats, anyFloat(t))
		cs.Lons = append(cs.Lons, anyFloat(t))
	}
	return cs
}

// largeCases are headers that announce as much as possible.
func largeCases(tier string, yield func(rawCase) bool) {
	dims := [][2]int{{9999, 9999}, {10000, 10000}, {99999, 99999}, {1 << 20, 1 << 20}, {1 << 31, 2}, {2, 1 << 31}, {1 << 32, 1 << 32}, {3037000500, 3037000500},
		{1, 1 << 40}, {1 << 40, 1}, {-1, -1}, {-9999, -9999}, {-(1 << 32), -(1 << 32)}, {1 << 62, 4}, {4, 1 << 62}, {9999, 1}, {1, 9999}, {math.MaxInt64, math.MaxInt64}, {math.MinInt64, math.MinInt64},
		{math.MinInt64, -1}, {50000, 50000}, {200000, 20000}, {20000, 200000}}
	for _, d := range dims {
		for _, per := range []int{1, 2} {
			for _, lv := range []string{"", "LV 1  1.0", "LV 0"} {
				fields := fmt.Sprintf("VS 3SW 2.13.1PR E-01INT   5%sGP%4dx%4d", lv, d[0], d[1])
				file, n := "", 0
				for i := 0; i < 5; i++ {
					file = fmt.Sprintf("RX171450100000716BY%d%s\x03", n+per*d[0]*d[1], fields)
					n = len(file)
				}
				if !yield(rawCase{Data: []byte(file), D: delivery0(), Zeros: 100}) {
					return
				}
			}
		}
	}
	// very long headers, lines and repeated fields
	for _, s := range []string{"A", "A1", "1", "BY", "GP1x1", "LV", "Ä", "\xff", " ", "E"} {
		for _, n := range []int{1, 30, 5000, 300000} {
			for _, end := range []string{"\x03", ""} {
				if !yield(rawCase{Data: []byte("RX171450100000716" + strings.Repeat(s, n) + end), D: delivery0()}) {
					return
				}
				if !yield(rawCase{Data: []byte(strings.Repeat(s, n) + end), D: delivery0()}) {
					return
				}
			}
		}
	}
	for _, s := range []string{"A1", "A", "1", "BY9", " ", "MS<>"} {
		if !yield(rawCase{Data: []byte(s), Repeat: 8 << 20, D: delivery0()}) {
			return
		}
	}
	// run-length rows that are as long or as odd as possible
	head := "PG171450100000716BY100LV 2  1.0  2.0BG003005\x03"
	for _, s := range []string{"\xff", "\x00", "\x10", "\xff\x11", "\x01"} {
		if !yield(rawCase{Data: []byte(s), Repeat: 12 << 20, Before: head + "\x01\x10", D: delivery0()}) {
			return
		}
		if !yield(rawCase{Data: []byte(s), Repeat: 12 << 20, Before: head, D: delivery0()}) {
			return
		}
	}
	for _, line := range [][]byte{bytes.Repeat([]byte{255}, 100000), append([]byte{1}, bytes.Repeat([]byte{255}, 100000)...), bytes.Repeat([]byte{0}, 50), bytes.Repeat([]byte{16}, 50),
		{1, 16, 255, 255, 255}, {1, 255}, {1, 15}, {1, 16, 0x51, 0}, {1, 21, 0x11}, {1, 254, 0x01}, {1, 254, 0xF1}, {}, {1}} {
		for n := 0; n <= 4; n++ {
			b := []byte(head)
			for i := 0; i < n; i++ {
				b = append(append(b, line...), 10)
			}
			if !yield(rawCase{Data: b, D: delivery0()}) {
				return
			}
			if !yield(rawCase{Data: append(b, line...), D: delivery0()}) {
				return
			}
		}
	}
}

// checkMutantStructure is C02 on whatever parsing accepts.
func checkMutantStructure(cs rawCase, o *Obs) error {
	c, err := radolan.NewComposite(&scriptReader{data: cs.file(), d: cs.D})
	if err != nil && !errors.Is(err, radolan.ErrUnknownUnit) {
		o.Label("rejected")
		return nil
	}
	o.NT()
	o.Label("accepted")
	return checkStructure(c)
}

func checkStructure(c *radolan.Composite) error {
	if c == nil {
		return fmt.Errorf("composite is nil")
	}
	if c.Dx <= 0 || c.Dy <= 0 || c.Dz <= 0 {
		return fmt.Errorf("dimensions %dx%dx%d are not positive", c.Dx, c.Dy, c.Dz)
	}
	if len(c.PlainData) != c.Py {
		return fmt.Errorf("plain data has %d rows, want %d", len(c.PlainData), c.Py)
	}
	for y, r := range c.PlainData {
		if len(r) != c.Px {
			return fmt.Errorf("plain row %d has %d values, want %d", y, len(r), c.Px)
		}
	}
	if len(c.DataZ) != c.Dz {
		return fmt.Errorf("%d layers, want %d", len(c.DataZ), c.Dz)
	}
	for z, l := range c.DataZ {
		if len(l) != c.Dy {
			return fmt.Errorf("layer %d has %d rows, want %d", z, len(l), c.Dy)
		}
		for y, r := range l {
			if len(r) != c.Dx {
				return fmt.Errorf("layer %d row %d has %d values, want %d", z, y, len(r), c.Dx)
			}
		}
	}
	if len(c.Data) != c.Dy {
		return fmt.Errorf("data has %d rows, want %d", len(c.Data), c.Dy)
	}
	for y := range c.Data {
		if len(c.Data[y]) != c.Dx {
			return fmt.Errorf("data row %d has %d values, want %d", y, len(c.Data[y]), c.Dx)
		}
		if &c.Data[y][0] != &c.DataZ[0][y][0] {
			return fmt.Errorf("data row %d is not the storage of layer 0", y)
		}
	}
	for _, x := range append([]int{c.Dx, c.Dx - 1, 0}, extremes...) {
		for _, y := range append([]int{c.Dy, c.Dy - 1, 0}, extremes...) {
			for _, z := range append([]int{c.Dz, c.Dz - 1, 0}, extremes...) {
				want := radolan.NaN
				if x >= 0 && y >= 0 && z >= 0 && x < c.Dx && y < c.Dy && z < c.Dz {
					want = c.DataZ[z][y][x]
				}
				if got := c.AtZ(x, y, z); !same32(got, want) {
					return fmt.Errorf("AtZ(%d, %d, %d) = %v, want %v (dimensions %dx%dx%d)", x, y, z, got, want, c.Dx, c.Dy, c.Dz)
				}
			}
		}
	}
	return nil
}

// mutantSection is added to C02.
func mutantSection() Section {
	return Rand("mutants", 12000, 400000, func(t *rapid.T) rawCase {
		switch rapid.IntRange(0, 2).Draw(t, "source") {
		case 0:
			return genConsistent(t)
		case 1:
			return genTokens(t)
		}
		return genMutant(t)
	}, checkMutantStructure)
}

func init() {
	register(&Prop{
		ID:               "C01",
		CrashIsViolation: true,
		Rule: "byte sequences offered to NewComposite or NewComposites: headers with extreme dimensions whose announced length agrees with them (overflow included), headers from the grammar's tokens in any combination with extreme numbers, byte-level mutants of well-formed files, random bytes and text, archives of all these with mutated tar or bzip2 bytes, archives with valid checksums but extreme sizes, holes (sparse entries), entry types and extended records, enumerated largest headers, lines and rows; delivered in random pieces. NewDummy with any integers. Whatever comes back is read at extreme positions, projected at extreme coordinates and (if parsed and below a million pixels) rendered at extreme layers. " +
			"Non-trivial: the input gets past the header length check (terminated header), is a bzip2 stream, or a blank composite. Distinct by case content.",
		Assume: []string{"the address space of the process is limited to 4 GB; a composite of the largest dimensions the header fields can hold (9999x9999) needs 0.4 GB", "a case that uses more than 60 s of CPU time twice is taken for a hang", "archives that decompress to gigabytes are not generated"},
		Sections: []Section{
			Rand("consistent", 24000, 800000, genConsistent, checkRobust),
			Rand("tokens", 24000, 800000, genTokens, checkRobust),
			Rand("mutants", 16000, 600000, genMutant, checkRobust),
			Rand("bytes", 8000, 300000, genBytes, checkRobust),
			Rand("archives", 6000, 200000, genRawArchive, checkRobust),
			Rand("blank", 12000, 400000, genBlank, checkBlank),
			Enum("large", largeCases, checkRobust),
			Rand("tar", 4000, 120000, genTar, checkRobust),
			Enum("bombs", tarBombs, checkRobust),
		},
	})
}
