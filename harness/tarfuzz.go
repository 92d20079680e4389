package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Archives with deliberately odd tar headers: announced sizes without the data,
// sparse entries with holes of any size, other entry types, extended records.

// tarNumber encodes a numeric header field of n bytes.
func tarNumber(v int64, n int, binary bool) []byte {
	if !binary {
		s := fmt.Sprintf("%0*o", n-1, v)
		if v >= 0 && len(s) < n {
			return append([]byte(s), 0)
		}
	}
	b := make([]byte, n)
	u := uint64(v)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(u)
		u >>= 8
		if i == n-8 && v < 0 {
			u = ^uint64(0)
		}
	}
	if v < 0 {
		b[0] = 0xFF
	} else {
		b[0] |= 0x80
	}
	return b
}

// fixTar sets the checksum of the header block.
func fixTar(b []byte) {
	copy(b[148:156], "        ")
	sum := 0
	for _, c := range b[:512] {
		sum += int(c)
	}
	copy(b[148:156], fmt.Sprintf("%06o\x00 ", sum))
}

// tarHeader is a header block.
func tarHeader(name string, typ byte, size int64, magic string) []byte {
	b := make([]byte, 512)
	copy(b, name)
	copy(b[100:], "0000644\x000000000\x000000000\x00")
	copy(b[124:], tarNumber(size, 12, false))
	copy(b[136:], "14000000000\x00")
	b[156] = typ
	copy(b[257:], magic)
	fixTar(b)
	return b
}

func tarPad(b []byte) []byte {
	return append(b, make([]byte, (512-len(b)%512)%512)...)
}

// gnuSparse is an entry that consists of the data, then a hole up to size.
func gnuSparse(name string, data []byte, size int64) []byte {
	h := tarHeader(name, 'S', int64(len(data)), "ustar  \x00")
	copy(h[386:], tarNumber(0, 12, false))
	copy(h[398:], tarNumber(int64(len(data)), 12, false))
	copy(h[410:], tarNumber(size, 12, false))
	copy(h[422:], tarNumber(0, 12, false))
	copy(h[483:], tarNumber(size, 12, false))
	fixTar(h)
	return append(h, tarPad(append([]byte{}, data...))...)
}

func paxRecord(k, v string) string {
	n := len(k) + len(v) + 3
	for s := fmt.Sprint(n); len(s)+len(k)+len(v)+3 != n; s = fmt.Sprint(n) {
		n = len(s) + len(k) + len(v) + 3
	}
	return fmt.Sprintf("%d %s=%s\n", n, k, v)
}

// paxEntry is an entry with extended records.
func paxEntry(name string, typ byte, records string, data []byte) []byte {
	b := append(tarHeader("PaxHeaders/"+name, typ, int64(len(records)), "ustar\x0000"), tarPad([]byte(records))...)
	b = append(b, tarHeader(name, '0', int64(len(data)), "ustar\x0000")...)
	return append(b, tarPad(append([]byte{}, data...))...)
}

func paxSparse(name string, data []byte, size string) []byte {
	return paxEntry(name, 'x', paxRecord("GNU.sparse.major", "0")+paxRecord("GNU.sparse.minor", "1")+paxRecord("GNU.sparse.name", name)+
		paxRecord("GNU.sparse.size", size)+paxRecord("GNU.sparse.numblocks", "2")+paxRecord("GNU.sparse.map", fmt.Sprintf("0,%d,%s,0", len(data), size)), data)
}

var tarSizes = []int64{-1, 0, 1, 100, 511, 512, 513, 1 << 20, 1<<31 - 1, 1 << 31, 1 << 32, 1<<33 - 1, 1 << 40, 1 << 50, 1 << 62, 1<<63 - 1, -1 << 63, -512, 1<<63 - 512}

func bzPlain(b []byte) []byte {
	z, _ := bzCompress(b, BzOpts{Level: 9, Tables: 2, Seed: 1})
	return z
}

// tarBombs are small archives with an entry that seems to be huge.
func tarBombs(tier string, yield func(rawCase) bool) {
	m := tiny("RX")
	_, head, _ := m.Split()
	l := hollow("PG", 4, 3, Field{"BG", "003004"})
	_, lhead, _ := l.Split()
	for _, data := range [][]byte{[]byte("RX17"), nil, m.Bytes(), m.Bytes()[:head], l.Bytes()[:lhead], l.Bytes()[:lhead+1]} {
		for _, size := range []int64{1 << 20, 1 << 33, 1 << 40, 1<<62 + 12345, 1<<63 - 1} {
			for _, b := range [][]byte{gnuSparse("RX", data, size), paxSparse("RX", data, fmt.Sprint(size))} {
				b = append(b, make([]byte, 1024)...)
				if !yield(rawCase{Data: bzPlain(b), Archive: true, D: delivery0()}) {
					return
				}
				if tier == "quick" && size > 1<<33 && size < 1<<63-1 {
					break
				}
			}
		}
	}
	for _, data := range [][]byte{nil, m.Bytes()} { // data missing
		for _, size := range tarSizes {
			for _, typ := range []byte("0\x00157xgLKSDVM") {
				h := tarHeader("RX", typ, 0, "ustar\x0000")
				copy(h[124:], tarNumber(size, 12, size > 1<<33-1))
				fixTar(h)
				if !yield(rawCase{Data: bzPlain(append(h, tarPad(data)...)), Archive: true, D: delivery0()}) {
					return
				}
			}
		}
	}
}

func genTar(t *rapid.T) rawCase {
	var b []byte
	for i := rapid.IntRange(1, 3).Draw(t, "entries"); i > 0; i-- {
		m := genModel(t, GenOpts{Known: true, Local: -1, Small: true, MaxPix: 10})
		data, head, _ := m.Split()
		switch rapid.IntRange(0, 4).Draw(t, "content") {
		case 0:
			data = data[:rapid.IntRange(0, len(data)).Draw(t, "part")]
		case 1:
			data = mutate(t, data, head)
		}
		size := rapid.OneOf(rapid.SampledFrom(tarSizes), rapid.Int64Range(0, 3000)).Draw(t, "size")
		if size > 1<<25 && size < 1<<62 && chance(t, "moderate", 80) { // a hole takes its time
			size >>= 16
		}
		switch rapid.IntRange(0, 4).Draw(t, "kind") {
		case 0:
			b = append(b, gnuSparse("RX", data, size)...)
		case 1:
			b = append(b, paxSparse("RX", data, pick(t, "sparseSize", fmt.Sprint(size), "", "x", "99999999999999999999", "-1"))...)
		case 2:
			rec := ""
			for k := rapid.IntRange(1, 3).Draw(t, "records"); k > 0; k-- {
				rec += paxRecord(pick(t, "key", "path", "size", "mtime", "uid", "gname", "GNU.sparse.size", "GNU.sparse.major", "GNU.sparse.map", "GNU.sparse.numblocks", "GNU.sparse.realsize", "GNU.sparse.offset", "SCHILY.xattr.a", "comment", "linkpath"),
					pick(t, "value", fmt.Sprint(size), "0", "", "1", "-1", "1,2,3,4", "x", "0,10,20,5", "9223372036854775807", "1467000000.123"))
			}
			if chance(t, "cutRecord", 15) {
				rec = rec[:rapid.IntRange(0, len(rec)).Draw(t, "recLen")]
			}
			b = append(b, paxEntry(strings.Repeat("n", rapid.IntRange(0, 88).Draw(t, "nameLen")), pick(t, "ext", byte('x'), byte('g')), rec, data)...)
		default:
			h := tarHeader("RX", pick(t, "type", []byte("0\x001234567xgLKSDVMNZ")...), int64(len(data)), pick(t, "magic", "ustar\x0000", "ustar  \x00", "", "ustarx"))
			for k := rapid.IntRange(0, 2).Draw(t, "edits"); k > 0; k-- {
				f := rapid.SampledFrom([][2]int{{124, 12}, {124, 12}, {100, 8}, {108, 8}, {136, 12}, {329, 8}, {386, 12}, {398, 12}, {483, 12}}).Draw(t, "field")
				copy(h[f[0]:], tarNumber(size, f[1], f[1] == 12 && rapid.Bool().Draw(t, "binary")))
			}
			if chance(t, "blank", 10) {
				copy(h[124:136], pick(t, "sizeText", "            ", "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", "99999999999\x00", "-0000000001\x00"))
			}
			fixTar(h)
			b = append(append(b, h...), tarPad(data)...)
		}
	}
	if chance(t, "end", 70) {
		b = append(b, make([]byte, 1024)...)
	}
	return rawCase{Data: bzPlain(b), Archive: true, D: genDelivery(t)}
}
