package main

import (
	"bytes"
	"fmt"
	"math"
	"os"

	"gitlab.cs.fau.de/since/radolan"
)

// mk builds a composite file whose announced length is right.
func mk(product, fields string, payload []byte) []byte {
	head := product + "171450100000716"
	n := len(head) + len("BY0000000") + len(fields) + 1 + len(payload)
	return append([]byte(fmt.Sprintf("%sBY%07d%s\x03", head, n, fields)), payload...)
}

func parse(b []byte) (*radolan.Composite, error) {
	return radolan.NewComposite(bytes.NewReader(b))
}

func mustParse(b []byte) *radolan.Composite {
	c, err := parse(b)
	check(err == nil, "well-formed composite rejected: %v", err)
	return c
}

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf("BROKEN: "+format+"\n", args...)
		os.Exit(1)
	}
}

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

func nan(f float32) bool { return f != f }

var _ = os.Args
