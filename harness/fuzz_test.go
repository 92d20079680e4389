package main

import (
	"os"
	"testing"

	"pgregory.net/rapid"
)

// The coverage-guided searches of the thorough tier (see fuzz.go).

func seeds(f *testing.F) {
	limitMemory()
	for _, m := range truncModels() {
		f.Add(m.Bytes(), false)
	}
	g := rapid.Custom(func(t *rapid.T) *Model { return genModel(t, GenOpts{Local: -1, Small: true}) })
	for i := 0; i < 60; i++ {
		f.Add(g.Example(i).Bytes(), false)
	}
	c := rapid.Custom(genConsistent)
	for i := 0; i < 60; i++ {
		if cs := c.Example(i); cs.Zeros < 5000 {
			f.Add(cs.file(), false)
		}
	}
	r := rapid.Custom(genRawArchive)
	for i := 0; i < 20; i++ {
		f.Add(r.Example(i).Data, true)
	}
}

func FuzzC01(f *testing.F) {
	seeds(f)
	f.Fuzz(func(t *testing.T, data []byte, archive bool) {
		if err := guarded(checkRobust, fuzzCase(data, archive), &Obs{}); err != nil {
			t.Fatal(err)
		}
	})
}

func FuzzC02(f *testing.F) {
	seeds(f)
	f.Fuzz(func(t *testing.T, data []byte, archive bool) {
		if archive {
			return
		}
		if err := guarded(checkMutantStructure, fuzzCase(data, archive), &Obs{}); err != nil {
			t.Fatal(err)
		}
	})
}

func TestMain(m *testing.M) { os.Exit(m.Run()) }
