package main

import (
	"fmt"
	"strings"
)

// Sizes around the 4096-byte buffer that readers commonly use: headers, rows
// and payloads that end just before, at and just behind a multiple of it.

// bufferEdges are the sizes to try.
func bufferEdges() []int {
	var ns []int
	for _, c := range []int{4096, 8192} {
		for d := -18; d <= 18; d++ {
			ns = append(ns, c+d)
		}
	}
	return ns
}

// withHeaderLen pads the list of sites until the header has n bytes.
func withHeaderLen(m *Model, n int) *Model {
	m = m.clone()
	m.dropField("MS")
	at := len(m.Fields) / 2
	fs := append([]Field{}, m.Fields[:at]...)
	fs = append(fs, Field{"MS", "<>"})
	m.Fields = append(fs, m.Fields[at:]...)
	if m.BYPos > at {
		m.BYPos++
	}
	short := len(m.Header(len(m.Payload())))
	if short > n {
		return m
	}
	m.Fields[at].V = "<" + strings.Repeat("boo,ros,emd,", n/12+1)[:n-short] + ">"
	return m
}

// edgeHeaders are composites of every encoding with headers of those sizes.
func edgeHeaders(yield func(*Model) bool) bool {
	for i, n := range bufferEdges() {
		for _, enc := range []string{"le", "sb", "rl"} {
			var m *Model
			if enc == "rl" {
				m = rlModel("PG", 5, 3, 3)
				m.Rows = []Row{{Line: 40, Off: 1, Runs: []byte{0x11, 0x22, 0x13}}, {Empty: true}, {Line: 41, Off: 0, Runs: []byte{0x53}}}
			} else {
				m = codesModel(enc, "FX", -1, 5, 3, 100+i, true)
			}
			m.Fields = append(m.Fields, Field{"VV", fmt.Sprintf(" %03d", i)}, Field{"INT", fmt.Sprintf("%4d", 5+i)}, Field{"VS", " 4"})
			if i%2 == 1 {
				m.BYPos = len(m.Fields) - 1
			}
			if !yield(withHeaderLen(m, n)) {
				return false
			}
		}
	}
	return true
}

// edgeRows are composites of one encoding whose rows end around those sizes.
func edgeRows(enc string) func(tier string, yield func(*Model) bool) {
	return func(tier string, yield func(*Model) bool) {
		for i, n := range bufferEdges() {
			if enc != "rl" {
				w := n
				if enc == "le" {
					if n%2 == 1 {
						continue
					}
					w = n / 2
				}
				m := codesModel(enc, "RX", -1, w, 3, 50+i, true)
				if !yield(m) || !yield(withHeaderLen(m, 4096)) {
					return
				}
				continue
			}
			// a row of n bytes with its newline, behind a row of k bytes
			for _, k := range []int{1, 2, 5} {
				m := rlModel("PG", 700, 4, 6)
				long := Row{Line: 40, Off: 3}
				for j := 0; len(long.Runs) < n-3; j++ {
					b := byte(j % 7) // empty runs
					if j%9 == 0 && j < 9*600 {
						b = byte(0x10 | j/9%7) // one pixel
					}
					long.Runs = append(long.Runs, b)
				}
				first := Row{Empty: true}
				switch k {
				case 2:
					first = Row{Line: 39, NoOff: true}
				case 5:
					first = Row{Line: 39, Off: 20, Runs: []byte{0x21, 0x32}}
				}
				m.Rows = []Row{first, long, {Line: 41, Off: 600, Runs: []byte{0xF1}}, long}
				if !yield(m) {
					return
				}
			}
		}
	}
}

// edgeDeliveries delivers those composites in different ways.
func edgeDeliveries(tier string, yield func(deliveryCase) bool) {
	ds := []Delivery{{FailAt: -1}, {FailAt: -1, Chunks: []int{1}}, {FailAt: -1, Chunks: []int{4096}, EOFData: true}, {FailAt: -1, Chunks: []int{4095, 0, 2}}, {FailAt: -1, Chunks: []int{1, 4095}}}
	i := 0
	all := func(m *Model) bool {
		i++
		_, h, needed := m.Split()
		for _, d := range ds {
			if !yield(deliveryCase{m, d}) {
				return false
			}
		}
		for _, at := range []int{h - 1, h, h + 1, needed - 1, 4095, 4096, 4097} {
			d := ds[i%len(ds)]
			d.FailAt, d.ErrData = at, i%2 == 0
			if at < needed && !yield(deliveryCase{m, d}) {
				return false
			}
		}
		return true
	}
	if !edgeHeaders(all) {
		return
	}
	for _, enc := range []string{"le", "sb", "rl"} {
		edgeRows(enc)(tier, all)
	}
}

// edgeCuts cuts those composites short.
func edgeCuts(tier string, yield func(truncCase) bool) {
	cut := func(m *Model) bool {
		_, h, needed := m.Split()
		for _, at := range []int{22, h - 2, h - 1, h, h + 1, needed - 2, needed - 1, 4095, 4096, 4097, 8192} {
			if at < needed && !yield(truncCase{m, at, Delivery{FailAt: -1, EOFData: at%2 == 0}}) {
				return false
			}
		}
		return true
	}
	if !edgeHeaders(cut) {
		return
	}
	for _, enc := range []string{"le", "sb", "rl"} {
		edgeRows(enc)(tier, cut)
	}
}
