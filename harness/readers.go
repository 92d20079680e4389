package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing/iotest"

	"gitlab.cs.fau.de/since/radolan"
	"pgregory.net/rapid"
)

// C09 with the readers that programs have: the same content in a file, a pipe,
// a buffer, a limited or compressed stream, some of them read before.

type readerCase struct {
	M      *Model
	Kind   string
	Before int // bytes in front that have been read already
	After  int // surplus bytes behind
	Size   int // buffer or piece size
	Split  int // per mille of the file, where it is split
	Cut    int // bytes missing at the end, 0 for none
}

var readerKinds = []string{"bytes.Reader", "bytes.Buffer", "strings.Reader", "bufio.Reader", "bufio.Reader part read", "file", "pipe file", "io.Pipe", "section", "limited", "multi", "tee", "gzip", "one byte", "half", "dataErr", "nested"}

func checkReader(cs readerCase, o *Obs) error {
	file, _, needed := cs.M.Split()
	file = append(append([]byte{}, file...), bytes.Repeat([]byte{0x5A}, cs.After)...)
	if cs.Cut > 0 {
		file = file[:max(0, needed-cs.Cut)]
	}
	front := make([]byte, cs.Before)
	for i := range front {
		front[i] = "RX171450100000716BY   1\x03\n"[i%25]
	}
	all := append(append([]byte{}, front...), file...)
	skip := func(r io.Reader) io.Reader {
		_, err := io.ReadFull(r, make([]byte, cs.Before))
		must(err)
		return r
	}
	var rd io.Reader
	switch cs.Kind {
	case "bytes.Reader":
		rd = skip(bytes.NewReader(all))
	case "bytes.Buffer":
		rd = skip(bytes.NewBuffer(all))
	case "strings.Reader":
		rd = skip(strings.NewReader(string(all)))
	case "bufio.Reader":
		rd = bufio.NewReaderSize(bytes.NewReader(file), cs.Size)
	case "bufio.Reader part read":
		rd = skip(bufio.NewReaderSize(bytes.NewReader(all), cs.Size))
	case "file":
		dir, done := scratch()
		defer done()
		name := filepath.Join(dir, "composite")
		must(os.WriteFile(name, all, 0o600))
		f, err := os.Open(name)
		must(err)
		defer f.Close()
		_, err = f.Seek(int64(cs.Before), io.SeekStart)
		must(err)
		rd = f
	case "pipe file", "io.Pipe":
		var w io.WriteCloser
		var r io.ReadCloser
		if cs.Kind == "io.Pipe" {
			r, w = io.Pipe()
		} else {
			pr, pw, err := os.Pipe()
			must(err)
			r, w = pr, pw
		}
		done := make(chan error, 1)
		go func() {
			var err error
			for b := all; len(b) > 0 && err == nil; {
				n := min(len(b), cs.Size)
				_, err = w.Write(b[:n])
				b = b[n:]
			}
			w.Close()
			done <- err
		}()
		defer func() { // the rest may never be read
			r.Close()
			if err := <-done; err != nil && !errors.Is(err, io.ErrClosedPipe) && !errors.Is(err, syscall.EPIPE) {
				fatal("pipe: %v", err)
			}
		}()
		rd = skip(r)
	case "section":
		rd = io.NewSectionReader(bytes.NewReader(append(append([]byte{}, all...), "more"...)), int64(cs.Before), int64(len(file)))
	case "limited":
		rd = io.LimitReader(skip(bytes.NewReader(all)), int64(len(file)))
	case "multi":
		at := cs.Split * len(file) / 1000
		rd = io.MultiReader(bytes.NewReader(file[:at]), strings.NewReader(""), bytes.NewBuffer(file[at:]))
	case "tee":
		rd = io.TeeReader(skip(bytes.NewReader(all)), io.Discard)
	case "gzip":
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		_, err := z.Write(file)
		must(err)
		must(z.Close())
		r, err := gzip.NewReader(&b)
		must(err)
		rd = r
	case "one byte":
		rd = iotest.OneByteReader(bytes.NewReader(file))
	case "half":
		rd = iotest.HalfReader(bytes.NewReader(file))
	case "dataErr":
		rd = iotest.DataErrReader(bytes.NewReader(file))
	case "nested": // small buffers in large ones
		rd = bufio.NewReaderSize(bufio.NewReaderSize(bytes.NewReader(file), cs.Size), 64)
	default:
		fatal("unknown reader %q", cs.Kind)
	}
	c, err := radolan.NewComposite(rd)
	o.Label("%s", cs.Kind)
	if cs.Cut > 0 {
		if !rejected(err) {
			return fmt.Errorf("%s with the last %d of %d bytes missing: error %v", cs.Kind, cs.Cut, needed, err)
		}
		o.Label("cut")
		return nil
	}
	if err := cs.M.accepted(c, err); err != nil {
		return fmt.Errorf("from a %s: %v", cs.Kind, err)
	}
	ref, err := cs.M.parse()
	if err != nil {
		return err
	}
	if err := sameComposite(c, ref); err != nil {
		return fmt.Errorf("from a %s, the composite differs from the one read from memory: %v", cs.Kind, err)
	}
	if err := cs.M.checkPlain(c); err != nil {
		return err
	}
	if cs.Before > 0 || cs.After > 0 || needed > cs.Size {
		o.NT()
	}
	return nil
}

func genReader(t *rapid.T) readerCase {
	cs := readerCase{Kind: rapid.SampledFrom(readerKinds).Draw(t, "reader")}
	o := GenOpts{Big: chance(t, "big", 15)}
	if chance(t, "wide", 20) {
		o = GenOpts{Local: -1, Shape: [2]int{rapid.IntRange(100, 300).Draw(t, "w"), rapid.IntRange(50, 300).Draw(t, "h")}}
	}
	cs.M = genModel(t, o)
	if chance(t, "before", 50) {
		cs.Before = rapid.OneOf(rapid.IntRange(1, 100), rapid.SampledFrom([]int{1, 25, 512, 4096, 5000})).Draw(t, "front")
	}
	if chance(t, "after", 50) {
		cs.After = rapid.OneOf(rapid.IntRange(1, 100), rapid.SampledFrom([]int{1, 4096, 70000})).Draw(t, "behind")
	}
	cs.Size = rapid.SampledFrom([]int{16, 16, 100, 1000, 4095, 4096, 4097, 8192, 65536}).Draw(t, "size")
	cs.Split = rapid.IntRange(0, 1000).Draw(t, "split")
	if chance(t, "cut", 15) {
		cs.Cut = rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, 300)).Draw(t, "missing")
	}
	return cs
}
