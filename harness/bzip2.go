package main

import (
	"index/suffixarray"
)

// A bzip2 compressor (the standard library only has a decompressor), with
// free choice of block boundaries, code tables and streams.

type bitWriter struct {
	b []byte
	n uint // bits used in the last byte (0 for none)
}

func (w *bitWriter) bits(v uint64, n uint) {
	for n > 0 {
		n--
		if w.n == 0 {
			w.b = append(w.b, 0)
		}
		w.b[len(w.b)-1] |= byte(v>>n&1) << (7 - w.n)
		w.n = (w.n + 1) % 8
	}
}

func (w *bitWriter) pos() int {
	if w.n == 0 {
		return len(w.b) * 8
	}
	return (len(w.b)-1)*8 + int(w.n)
}

var bzCRC [256]uint32

func init() {
	for i := range bzCRC {
		c := uint32(i) << 24
		for j := 0; j < 8; j++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
		bzCRC[i] = c
	}
}

// bzBlock records where a block ends: compressed bit offset, uncompressed
// byte offset.
type bzBlock struct{ Bits, Bytes int }

// BzOpts chooses among the many valid encodings of the same data.
type BzOpts struct {
	Level  int // 1..9
	Block  int // largest block (bytes of input); 0 for the format's maximum
	Tables int // 2..6
	Seed   uint64
	Split  int // a new stream begins after this many input bytes (0: single stream)
}

func bzCompress(data []byte, o BzOpts) ([]byte, []bzBlock) {
	if o.Level < 1 || o.Level > 9 {
		o.Level = 9
	}
	if o.Tables < 2 || o.Tables > 6 {
		o.Tables = 2
	}
	if o.Block > 0 {
		o.Block = max(o.Block, len(data)/16) // not too many blocks
	}
	if o.Split > 0 && o.Split < len(data) {
		a, ab := bzStream(data[:o.Split], o)
		b, bb := bzStream(data[o.Split:], o)
		for _, x := range bb {
			ab = append(ab, bzBlock{x.Bits + 8*len(a), x.Bytes + o.Split})
		}
		return append(a, b...), ab
	}
	return bzStream(data, o)
}

func bzStream(data []byte, o BzOpts) ([]byte, []bzBlock) {
	w := &bitWriter{}
	w.bits('B', 8)
	w.bits('Z', 8)
	w.bits('h', 8)
	w.bits(uint64('0'+o.Level), 8)
	var blocks []bzBlock
	combined := uint32(0)
	limit := o.Level*100000 - 20
	pos := 0
	for pos < len(data) {
		// first run-length stage
		start := pos
		var rle []byte
		for pos < len(data) && len(rle) < limit-6 && (o.Block == 0 || pos-start < o.Block) {
			run := 1
			for run < 255 && pos+run < len(data) && data[pos+run] == data[pos] && (o.Block == 0 || pos+run-start < o.Block) {
				run++
			}
			if run < 4 {
				for i := 0; i < run; i++ {
					rle = append(rle, data[pos])
				}
			} else {
				rle = append(rle, data[pos], data[pos], data[pos], data[pos], byte(run-4))
			}
			pos += run
		}
		crc := uint32(0xFFFFFFFF)
		for _, b := range data[start:pos] {
			crc = crc<<8 ^ bzCRC[byte(crc>>24)^b]
		}
		crc = ^crc
		combined = (combined<<1 | combined>>31) ^ crc
		bzWriteBlock(w, rle, crc, o, len(blocks))
		blocks = append(blocks, bzBlock{w.pos(), pos})
	}
	w.bits(0x177245385090, 48)
	w.bits(uint64(combined), 32)
	return w.b, blocks
}

func bzWriteBlock(w *bitWriter, s []byte, crc uint32, o BzOpts, nth int) {
	// Burrows-Wheeler transform of the rotations
	n := len(s)
	double := append(append(make([]byte, 0, 2*n), s...), s...)
	order := make([]int, 0, n)
	for _, i := range suffixOrder(double) {
		if i < n {
			order = append(order, i)
		}
	}
	last := make([]byte, n)
	orig := 0
	for i, p := range order {
		if p == 0 {
			orig = i
		}
		last[i] = s[(p+n-1)%n]
	}
	w.bits(0x314159265359, 48)
	w.bits(uint64(crc), 32)
	w.bits(0, 1)
	w.bits(uint64(orig), 24)

	// symbol map
	var used [256]bool
	for _, b := range s {
		used[b] = true
	}
	groups := uint64(0)
	for g := 0; g < 16; g++ {
		for i := 0; i < 16; i++ {
			if used[16*g+i] {
				groups |= 1 << (15 - g)
			}
		}
	}
	w.bits(groups, 16)
	var mtf []byte
	for g := 0; g < 16; g++ {
		if groups&(1<<(15-g)) == 0 {
			continue
		}
		for i := 0; i < 16; i++ {
			if used[16*g+i] {
				w.bits(1, 1)
				mtf = append(mtf, byte(16*g+i))
			} else {
				w.bits(0, 1)
			}
		}
	}
	nsym := len(mtf) + 2
	eob := nsym - 1

	// move to front and zero runs
	var syms []int
	zeros := 0
	flush := func() {
		for zeros > 0 {
			if zeros&1 == 1 {
				syms = append(syms, 0)
				zeros = (zeros - 1) / 2
			} else {
				syms = append(syms, 1)
				zeros = (zeros - 2) / 2
			}
		}
	}
	for _, b := range last {
		i := 0
		for mtf[i] != b {
			i++
		}
		copy(mtf[1:i+1], mtf[:i])
		mtf[0] = b
		if i == 0 {
			zeros++
			continue
		}
		flush()
		syms = append(syms, i+1)
	}
	flush()
	syms = append(syms, eob)

	// code tables
	freq := make([]int, nsym)
	for _, s := range syms {
		freq[s]++
	}
	lens := make([][]int, o.Tables)
	for t := range lens {
		switch t % 3 {
		case 0:
			lens[t] = huffLengths(freq, 17)
		case 1: // flat
			f := make([]int, nsym)
			for i := range f {
				f[i] = 1
			}
			lens[t] = huffLengths(f, 17)
		default: // skewed by the seed
			f := make([]int, nsym)
			for i := range f {
				f[i] = 1 + int(mix(o.Seed+uint64(nth), i+1000*t)%50)
			}
			lens[t] = huffLengths(f, 12)
		}
	}
	nsel := (len(syms) + 49) / 50
	w.bits(uint64(o.Tables), 3)
	w.bits(uint64(nsel), 15)
	sel := make([]int, nsel)
	front := make([]int, o.Tables)
	for i := range front {
		front[i] = i
	}
	for i := range sel {
		sel[i] = int(mix(o.Seed^0x55, i+nth*7919) % uint64(o.Tables))
		j := 0
		for front[j] != sel[i] {
			j++
		}
		copy(front[1:j+1], front[:j])
		front[0] = sel[i]
		for k := 0; k < j; k++ {
			w.bits(1, 1)
		}
		w.bits(0, 1)
	}
	codes := make([][]uint32, o.Tables)
	for t, ls := range lens {
		codes[t] = canonical(ls)
		cur := ls[0]
		w.bits(uint64(cur), 5)
		for _, l := range ls {
			for cur < l {
				w.bits(2, 2)
				cur++
			}
			for cur > l {
				w.bits(3, 2)
				cur--
			}
			w.bits(0, 1)
		}
	}
	for i, s := range syms {
		t := sel[i/50]
		w.bits(uint64(codes[t][s]), uint(lens[t][s]))
	}
}

// suffixOrder sorts the suffixes of b. The order of the rotations of s is that
// of the suffixes of s+s which start in the first half; rotations that are
// equal may come in any order.
func suffixOrder(b []byte) []int {
	idx := suffixarray.New(b)
	return suffixes(idx, b)
}

func suffixes(idx *suffixarray.Index, b []byte) []int {
	// the package has no accessor for the array; look up every present first
	// byte in ascending order (Lookup returns matches in suffix order)
	var present [256]bool
	for _, c := range b {
		present[c] = true
	}
	out := make([]int, 0, len(b))
	for c := 0; c < 256; c++ {
		if present[c] {
			out = append(out, idx.Lookup([]byte{byte(c)}, -1)...)
		}
	}
	return out
}

// huffLengths returns code lengths of at least 1 and at most limit bits.
func huffLengths(freq []int, limit int) []int {
	f := append([]int{}, freq...)
	for {
		type node struct {
			w    int
			l, r int
		}
		nodes := make([]node, len(f))
		var queue []int
		for i := range f {
			nodes[i] = node{max(f[i], 1), -1, -1}
			queue = append(queue, i)
		}
		for len(queue) > 1 {
			take := func() int { // the lightest
				k := 0
				for i := range queue {
					if nodes[queue[i]].w < nodes[queue[k]].w {
						k = i
					}
				}
				v := queue[k]
				queue[k] = queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				return v
			}
			a, b := take(), take()
			nodes = append(nodes, node{nodes[a].w + nodes[b].w, a, b})
			queue = append(queue, len(nodes)-1)
		}
		lens := make([]int, len(f))
		deepest := 0
		var walk func(i, d int)
		walk = func(i, d int) {
			if nodes[i].l < 0 {
				lens[i] = d
				deepest = max(deepest, d)
				return
			}
			walk(nodes[i].l, d+1)
			walk(nodes[i].r, d+1)
		}
		walk(queue[0], 0)
		if deepest <= limit {
			return lens
		}
		for i := range f {
			f[i] = f[i]/2 + 1
		}
	}
}

func canonical(lens []int) []uint32 {
	codes := make([]uint32, len(lens))
	code := uint32(0)
	for l := 1; l <= 20; l++ {
		for i, x := range lens {
			if x == l {
				codes[i] = code
				code++
			}
		}
		code <<= 1
	}
	return codes
}
