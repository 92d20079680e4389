package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"strconv"
	"syscall"
	"time"

	"gitlab.cs.fau.de/since/radolan"
)

// This file is the reference model: what a composite file means, written from
// the format description, independently of the code under test.

// Unit numbers as documented in the catalogue.
const (
	uUnknown = iota
	uMM
	uDBZ
	uKM
	uMPS
)

var unitName = []string{"unknown unit", "mm", "dBZ", "km", "m/s"}

// unitOf is the documented unit of every catalogued product.
var unitOf = map[string]int{}

func init() {
	for _, p := range []string{"CX", "EA", "EX", "FX", "FZ", "HX", "OL", "OX", "PA", "PC", "PF", "PG", "PI", "PK", "PL", "PM", "PN", "PX", "PZ", "RX", "TX", "WN", "WX"} {
		unitOf[p] = uDBZ
	}
	for _, p := range []string{"CH", "D2", "D3", "EB", "EC", "EH", "EM", "EW", "EY", "EZ", "PH", "PY", "RA", "RB", "RE", "RH", "RK", "RL", "RM", "RN", "RQ", "RR", "RU", "RW", "RY", "RZ",
		"S2", "S3", "SF", "SH", "SQ", "TB", "TH", "TW", "TZ", "W1", "W2", "W3", "W4", "YW"} {
		unitOf[p] = uMM
	}
	unitOf["PE"] = uKM
	for _, p := range []string{"PD", "PR", "PU", "PV"} {
		unitOf[p] = uMPS
	}
	knownProducts, localProducts = sortedKeys(unitOf), sortedKeys(localOf)
}

type localSpec struct {
	py  int     // plain rows
	res float64 // km per pixel
}

// localOf: local pictures, all 200 pixels wide with 200x200 layers.
var localOf = map[string]localSpec{
	"OL": {224, 2}, "OX": {224, 1}, "PD": {224, 1}, "PE": {224, 2}, "PF": {224, 1}, "PH": {224, 1}, "PL": {224, 2},
	"PM": {224, 2}, "PR": {224, 1}, "PU": {2400, 1}, "PV": {224, 1}, "PX": {224, 1}, "PY": {224, 1}, "PZ": {2400, 2},
}

var knownProducts, localProducts []string // filled by init

// Field is one header field.
type Field struct{ K, V string }

// Model describes one composite file.
type Model struct {
	Product string
	Stamp   string // DDhhmm
	WMO     string // 5 digits
	MMYY    string
	Fields  []Field // without BY; in file order
	BYPos   int     // index among Fields at which BY is written
	BYPad   int     // width of the BY number
	BYZero  bool    // padded with zeros

	Enc    string // "le", "sb" or "rl"
	W, H   int    // plain dimensions (columns, rows)
	Local  bool   // dimensions from the catalogue
	Prec   int    // precision exponent
	Levels []string

	// pixel content of fixed width encodings, in payload order: Codes if
	// present, else the fixed pseudo random function of Seed masked by Mode
	Codes []uint16
	Seed  uint64
	Mode  string

	Rows    []Row  // run-length rows (repeated cyclically until H rows)
	Trailer []byte // bytes after the payload
}

// Row is one run-length row: a line number, total offset, run bytes.
type Row struct {
	Empty bool // nothing but the newline
	Line  byte
	NoOff bool // nothing after the line number
	Off   int
	Runs  []byte
	Pad   int `json:",omitempty"` // so many empty runs at the end
}

func (m *Model) unit() int { return unitOf[m.Product] }

// code returns the k-th code in payload order.
func (m *Model) code(k int) uint16 {
	if m.Codes != nil {
		return m.Codes[k%len(m.Codes)]
	}
	z := mix(m.Seed, k)
	switch m.Mode {
	case "plain": // plausible data: positive values and gaps
		if z&7 == 0 {
			if m.Enc == "sb" {
				return 250
			}
			return 0x29C4
		}
		return uint16(z>>8) & 0x0FFF
	case "flags": // sparse bits
		return uint16(z>>8) & uint16(z>>24)
	case "any", "seq", "":
		return uint16(z >> 8)
	}
	return m.structured(k, z)
}

// structured content: what whole files, rows or areas of one kind look like.
func (m *Model) structured(k int, z uint64) uint16 {
	x, y := k%m.W, k/m.W
	f := mix(m.Seed, -7) // of the file
	gap := uint16(0x29C4)
	if f&3 == 0 {
		gap = uint16(f>>8) | 0x2000
	}
	if m.Enc == "sb" {
		gap = 250
	}
	data := uint16(z>>8) & 0x0FFF
	switch m.Mode {
	case "gaps": // nothing but no-data
		return gap
	case "zero":
		return 0
	case "const":
		return uint16(f >> 24)
	case "rows": // rows of one code each, some repeated, some without data
		r := mix(m.Seed, 1<<20+y/(1+int(f>>5&3)))
		if r&3 == 0 {
			return gap
		}
		return uint16(r>>8) & 0x0FFF
	case "cols":
		return uint16(mix(m.Seed, x)>>8) & 0x0FFF
	case "sparse": // few values
		if z&63 == 0 {
			return data
		}
		if f&4 == 0 {
			return 0
		}
		return gap
	case "dense": // few gaps
		if z&63 == 0 {
			return gap
		}
		return data | 1
	case "patch": // an area within no-data
		if x < m.W/4 || x >= m.W-m.W/4 || y < m.H/4 || y >= m.H-m.H/4 {
			return gap
		}
		return data
	case "smooth": // equal neighbours
		return uint16(mix(m.Seed, (x>>3)<<20+y>>2)>>8) & 0x0FFF
	case "text": // bytes that mean something in headers or rows
		const bytes = "\x03\x0a\x04\x00\xff\x10\x20 BY0\xfa"
		n := uint64(len(bytes))
		return uint16(bytes[(z>>8)%n]) | uint16(bytes[(z>>24)%n])<<8
	}
	panic("mode " + m.Mode)
}

func (r *Row) bytes() []byte {
	if r.Empty {
		return []byte{10}
	}
	b := []byte{r.Line}
	if !r.NoOff {
		off := r.Off
		for off >= 239 {
			b = append(b, 255)
			off -= 239
		}
		b = append(b, byte(off+16))
		b = append(b, r.Runs...)
		for j := 0; j < r.Pad; j++ {
			b = append(b, byte(j%10))
		}
	}
	return append(b, 10)
}

// row i (payload order) of a run-length composite
func (m *Model) row(i int) *Row { return &m.Rows[i%len(m.Rows)] }

// Payload encodes the data section.
func (m *Model) Payload() []byte {
	switch m.Enc {
	case "rl":
		var b []byte
		for i := 0; i < m.H; i++ {
			b = append(b, m.row(i).bytes()...)
		}
		return b
	case "sb":
		b := make([]byte, m.W*m.H)
		for i := range b {
			b[i] = byte(m.code(i))
		}
		return b
	}
	b := make([]byte, 2*m.W*m.H)
	for i := 0; i < m.W*m.H; i++ {
		c := m.code(i)
		b[2*i], b[2*i+1] = byte(c), byte(c>>8)
	}
	return b
}

// Header encodes the header including the terminating ETX for a payload of the
// given length.
func (m *Model) Header(payload int) []byte {
	var pre, post bytes.Buffer
	pre.WriteString(m.Product + m.Stamp + m.WMO + m.MMYY)
	for i, f := range m.Fields {
		if i < m.BYPos {
			pre.WriteString(f.K + f.V)
		} else {
			post.WriteString(f.K + f.V)
		}
	}
	// the announced length counts the header with its terminator
	width := m.BYPad
	for {
		n := pre.Len() + 2 + width + post.Len() + 1 + payload
		s := fmt.Sprintf("%*d", width, n)
		if m.BYZero {
			s = fmt.Sprintf("%0*d", width, n)
		}
		if len(s) == width {
			return []byte(pre.String() + "BY" + s + post.String() + "\x03")
		}
		width = len(s)
	}
}

// Bytes encodes the whole file.
func (m *Model) Bytes() []byte {
	p := m.Payload()
	b := append(m.Header(len(p)), p...)
	return append(b, m.Trailer...)
}

// Split encodes the file and returns header length and the number of bytes
// that are needed to complete the composite.
func (m *Model) Split() (file []byte, header, needed int) {
	p := m.Payload()
	h := m.Header(len(p))
	file = append(append(append([]byte{}, h...), p...), m.Trailer...)
	return file, len(h), len(h) + len(p)
}

// Rat holds an expected pixel: NaN or a value with its tolerance.
type want struct {
	nan bool
	v   float64
	tol float64
}

func (w want) ok(got float32) bool {
	if w.nan {
		return isNaN32(got)
	}
	return near(float64(got), w.v, w.tol)
}

func (w want) String() string {
	if w.nan {
		return "NaN"
	}
	return fmt.Sprintf("%g", w.v)
}

var pow10s = map[int]float64{}

func init() {
	for n := -40; n <= 40; n++ {
		pow10s[n] = parsePow10(n)
	}
}

func pow10(n int) float64 {
	if v, ok := pow10s[n]; ok {
		return v
	}
	return parsePow10(n)
}

func parsePow10(n int) float64 {
	v, _ := strconv.ParseFloat(fmt.Sprintf("1e%d", n), 64)
	return v
}

// value is the documented meaning of an integer raw value.
func (m *Model) value(raw int) want {
	v := float64(raw) * pow10(m.Prec)
	if m.unit() == uDBZ {
		return want{v: v/2 - 32.5, tol: 4e-7 * (math.Abs(v) + 65)}
	}
	return want{v: v, tol: 4e-7 * math.Abs(v)}
}

func (m *Model) fixedPixel(code uint16) want {
	if m.Enc == "sb" {
		b := int(code & 0xFF)
		if b == 250 {
			return want{nan: true}
		}
		return m.value(b)
	}
	if code&0x2000 != 0 {
		return want{nan: true}
	}
	raw := int(code & 0x0FFF)
	if code&0x4000 != 0 {
		raw = -raw
	}
	return m.value(raw)
}

func (m *Model) level(k int) want {
	if k == 0 || k > len(m.Levels) {
		return want{nan: true}
	}
	v, err := strconv.ParseFloat(trimSpace(m.Levels[k-1]), 64)
	must(err)
	return want{v: v, tol: 2e-7 * math.Abs(v)}
}

func trimSpace(s string) string { return string(bytes.TrimSpace([]byte(s))) }

// plainRow is the expected row y of the plain data (top row first).
func (m *Model) plainRow(y int) []want {
	ws := make([]want, m.W)
	if m.Enc != "rl" {
		k := m.H - 1 - y
		for x := range ws {
			ws[x] = m.fixedPixel(m.code(k*m.W + x))
		}
		return ws
	}
	for x := range ws {
		ws[x] = want{nan: true}
	}
	r := m.row(y)
	if r.Empty || r.NoOff {
		return ws
	}
	x := r.Off
	for _, b := range r.Runs {
		w := m.level(int(b & 15))
		for n := int(b >> 4); n > 0; n-- {
			ws[x] = w
			x++
		}
	}
	return ws
}

// layers returns the expected layer shape: layer count, rows per layer and the
// plain row of layer z's first row.
func (m *Model) layers() (dz, dy int, first func(z int) int) {
	if !m.Local {
		return 1, m.H, func(int) int { return 0 }
	}
	dy = 200
	if m.H%200 == 0 {
		return m.H / 200, dy, func(z int) int { return 200 * z }
	}
	return 1, dy, func(int) int { return m.H - 200 }
}

// checkPlain compares the plain data of c with the model.
func (m *Model) checkPlain(c *radolan.Composite) error {
	if len(c.PlainData) != m.H {
		return fmt.Errorf("plain data has %d rows, want %d", len(c.PlainData), m.H)
	}
	for y := 0; y < m.H; y++ {
		row := m.plainRow(y)
		if len(c.PlainData[y]) != m.W {
			return fmt.Errorf("plain row %d has %d pixels, want %d", y, len(c.PlainData[y]), m.W)
		}
		for x, w := range row {
			if !w.ok(c.PlainData[y][x]) {
				return fmt.Errorf("plain pixel (x=%d, y=%d) is %v, want %v (%s)", x, y, c.PlainData[y][x], w, m.where(x, y))
			}
		}
	}
	return nil
}

func (m *Model) where(x, y int) string {
	if m.Enc == "rl" {
		return fmt.Sprintf("row bytes % x", m.row(y).bytes())
	}
	return fmt.Sprintf("product %s, encoding %s, precision %d, code %#04x", m.Product, m.Enc, m.Prec, m.code((m.H-1-y)*m.W+x))
}

// checkLayers compares layers, data view and accessors of c with the model.
func (m *Model) checkLayers(c *radolan.Composite) error {
	dz, dy, first := m.layers()
	if c.Dx != m.W || c.Dy != dy || c.Dz != dz {
		return fmt.Errorf("dimensions %dx%dx%d, want %dx%dx%d", c.Dx, c.Dy, c.Dz, m.W, dy, dz)
	}
	if len(c.DataZ) != dz {
		return fmt.Errorf("%d layers, want %d", len(c.DataZ), dz)
	}
	if len(c.Data) != dy {
		return fmt.Errorf("data has %d rows, want %d", len(c.Data), dy)
	}
	for z := 0; z < dz; z++ {
		if len(c.DataZ[z]) != dy {
			return fmt.Errorf("layer %d has %d rows, want %d", z, len(c.DataZ[z]), dy)
		}
		for y := 0; y < dy; y++ {
			row := m.plainRow(first(z) + y)
			if len(c.DataZ[z][y]) != m.W {
				return fmt.Errorf("layer %d row %d has %d pixels, want %d", z, y, len(c.DataZ[z][y]), m.W)
			}
			for x, w := range row {
				if !w.ok(c.DataZ[z][y][x]) {
					return fmt.Errorf("voxel (x=%d, y=%d, z=%d) is %v, want %v", x, y, z, c.DataZ[z][y][x], w)
				}
				if !w.ok(c.AtZ(x, y, z)) {
					return fmt.Errorf("AtZ(%d, %d, %d) is %v, want %v", x, y, z, c.AtZ(x, y, z), w)
				}
				if z == 0 && (!w.ok(c.Data[y][x]) || !w.ok(c.At(x, y))) {
					return fmt.Errorf("Data[%d][%d] is %v, At(%d, %d) is %v, want %v", y, x, c.Data[y][x], x, y, c.At(x, y), w)
				}
			}
		}
	}
	return nil
}

// parse runs the code under test on the model and insists on acceptance.
func (m *Model) parse() (*radolan.Composite, error) {
	c, err := radolan.NewComposite(bytes.NewReader(m.Bytes()))
	return c, m.accepted(c, err)
}

func (m *Model) accepted(c *radolan.Composite, err error) error {
	if m.unit() == uUnknown {
		if !errors.Is(err, radolan.ErrUnknownUnit) {
			return fmt.Errorf("composite of unknown product %q: error is %v, want ErrUnknownUnit", m.Product, err)
		}
	} else if err != nil {
		return fmt.Errorf("well-formed composite rejected: %v (header %q)", err, m.Header(len(m.Payload())))
	}
	if c == nil {
		return fmt.Errorf("well-formed composite gives nil")
	}
	return nil
}

// stamp fills the date of the model.
func (m *Model) setTime(t time.Time) {
	m.Stamp = t.Format("021504")
	m.MMYY = t.Format("0106")
}

// ---------------------------------------------------------------- equality

// sameComposite compares everything observable about two composites.
func sameComposite(a, b *radolan.Composite) error {
	if a == nil || b == nil {
		if a == b {
			return nil
		}
		return fmt.Errorf("one composite is nil")
	}
	switch {
	case a.Product != b.Product:
		return fmt.Errorf("product %q != %q", a.Product, b.Product)
	case !a.CaptureTime.Equal(b.CaptureTime):
		return fmt.Errorf("capture time %v != %v", a.CaptureTime, b.CaptureTime)
	case !a.ForecastTime.Equal(b.ForecastTime):
		return fmt.Errorf("forecast time %v != %v", a.ForecastTime, b.ForecastTime)
	case a.Interval != b.Interval:
		return fmt.Errorf("interval %v != %v", a.Interval, b.Interval)
	case a.DataUnit != b.DataUnit:
		return fmt.Errorf("unit %v != %v", a.DataUnit, b.DataUnit)
	case a.Px != b.Px || a.Py != b.Py || a.Dx != b.Dx || a.Dy != b.Dy || a.Dz != b.Dz:
		return fmt.Errorf("dimensions %d %d %d %d %d != %d %d %d %d %d", a.Px, a.Py, a.Dx, a.Dy, a.Dz, b.Px, b.Py, b.Dx, b.Dy, b.Dz)
	case !same64(a.Rx, b.Rx) || !same64(a.Ry, b.Ry):
		return fmt.Errorf("resolution %v,%v != %v,%v", a.Rx, a.Ry, b.Rx, b.Ry)
	case a.HasProjection != b.HasProjection:
		return fmt.Errorf("HasProjection %v != %v", a.HasProjection, b.HasProjection)
	case a.Format != b.Format:
		return fmt.Errorf("format %v != %v", a.Format, b.Format)
	}
	if err := samePlane(a.PlainData, b.PlainData); err != nil {
		return fmt.Errorf("plain data: %v", err)
	}
	if err := samePlane(a.Data, b.Data); err != nil {
		return fmt.Errorf("data: %v", err)
	}
	if len(a.DataZ) != len(b.DataZ) {
		return fmt.Errorf("%d layers != %d", len(a.DataZ), len(b.DataZ))
	}
	for z := range a.DataZ {
		if err := samePlane(a.DataZ[z], b.DataZ[z]); err != nil {
			return fmt.Errorf("layer %d: %v", z, err)
		}
	}
	for _, p := range [][2]float64{{51, 9}, {47.5, 12.25}, {54.9, 3.1}} {
		ax, ay := a.Project(p[0], p[1])
		bx, by := b.Project(p[0], p[1])
		if !same64(ax, bx) || !same64(ay, by) {
			return fmt.Errorf("Project(%v, %v): (%v, %v) != (%v, %v)", p[0], p[1], ax, ay, bx, by)
		}
	}
	return nil
}

func samePlane(a, b [][]float32) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d rows != %d", len(a), len(b))
	}
	for y := range a {
		if len(a[y]) != len(b[y]) {
			return fmt.Errorf("row %d: %d pixels != %d", y, len(a[y]), len(b[y]))
		}
		for x := range a[y] {
			if !same32(a[y][x], b[y][x]) {
				return fmt.Errorf("pixel (%d, %d): %v != %v", x, y, a[y][x], b[y][x])
			}
		}
	}
	return nil
}

func clonePlane(p [][]float32) [][]float32 {
	q := make([][]float32, len(p))
	for i := range p {
		q[i] = append([]float32{}, p[i]...)
	}
	return q
}

// snapshot is a deep copy of everything observable, to be compared with
// sameComposite later. The projection fields are shared with the original.
func snapshot(c *radolan.Composite) *radolan.Composite {
	s := *c
	s.PlainData = clonePlane(c.PlainData)
	s.Data = clonePlane(c.Data)
	s.DataZ = nil
	for _, l := range c.DataZ {
		s.DataZ = append(s.DataZ, clonePlane(l))
	}
	return &s
}

// ---------------------------------------------------------------- readers

// Delivery is a script of how a stream is cut into reads.
type Delivery struct {
	Chunks  []int // sizes of successive reads, cyclic; 0 is an empty read
	EOFData bool  // the last data is delivered together with io.EOF
	FailAt  int   // offset at which the stream fails, -1 for never
	ErrData bool  // the error is delivered together with the last data
	Err     int   // which error
	Once    bool  // the stream continues behind the error
}

// ioErrors are the ways a stream fails. A wrapped io.EOF is a failure, too.
// bufio.ErrBufferFull is not among them: bufio.Reader.ReadString takes it for
// its own and never returns.
var ioErrors = []error{fmt.Errorf("injected I/O error"), io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, fmt.Errorf("connection: %w", io.EOF), io.ErrNoProgress, context.Canceled, syscall.EIO,
	&os.PathError{Op: "read", Path: "file", Err: syscall.EISDIR}, io.ErrShortBuffer, io.ErrShortWrite, os.ErrClosed}

type scriptReader struct {
	data    []byte
	d       Delivery
	pos, n  int
	empties int
	failed  bool
	onRead  func()
}

func (r *scriptReader) Read(p []byte) (int, error) {
	if r.onRead != nil {
		r.onRead()
	}
	limit, end := len(r.data), io.EOF
	if r.d.FailAt >= 0 && r.d.FailAt < limit && !(r.d.Once && r.failed) {
		limit, end = r.d.FailAt, ioErrors[r.d.Err%len(ioErrors)]
	}
	size := len(p)
	if len(r.d.Chunks) > 0 {
		size = r.d.Chunks[r.n%len(r.d.Chunks)]
		r.n++
	}
	if size == 0 {
		r.empties++
		if r.empties <= 20 {
			return 0, nil
		}
		size = 1
	}
	r.empties = 0
	if size > len(p) {
		size = len(p)
	}
	if size > limit-r.pos {
		size = limit - r.pos
	}
	copy(p, r.data[r.pos:r.pos+size])
	r.pos += size
	if r.pos == limit {
		if size == 0 || (end == io.EOF && r.d.EOFData) || (end != io.EOF && r.d.ErrData) {
			r.failed = end != io.EOF
			return size, end
		}
	}
	return size, nil
}

func parseBytes(b []byte) (*radolan.Composite, error) {
	return radolan.NewComposite(bytes.NewReader(b))
}
