package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

func fuzzCase(data []byte, archive bool) rawCase {
	return rawCase{Data: data, Archive: archive, D: delivery0()}
}

// fuzzed are the properties with a coverage-guided search in the thorough
// tier; what it finds is a case of the section "mutants".
var fuzzed = map[string]string{"C01": "FuzzC01", "C02": "FuzzC02"}

var execsLine = regexp.MustCompile(`execs: (\d+)`)
var interestingLine = regexp.MustCompile(`new interesting: (\d+)`)

// runFuzz runs the coverage-guided search for a while. It returns a confirmed
// violation, if there is one.
func runFuzz(p *Prop, bin, self, tmp string, d time.Duration, stats map[string]*SectionStat) (*Replay, error) {
	dir := filepath.Join(tmp, "fuzz")
	must(os.MkdirAll(dir, 0o755))
	cmd := exec.Command(bin, "-test.run", "^$", "-test.fuzz", "^"+fuzzed[p.ID]+"$", "-test.fuzztime", d.String(), "-test.fuzzminimizetime", "20s", "-test.fuzzcachedir", filepath.Join(dir, "cache"), "-test.parallel", "8")
	cmd.Dir = dir
	t := time.AfterFunc(d+10*time.Minute, func() { cmd.Process.Kill() })
	out, err := cmd.CombinedOutput()
	t.Stop()
	text := string(out)
	st := &SectionStat{Labels: map[string]int{}}
	stats["coverage-guided"] = st
	for _, m := range execsLine.FindAllStringSubmatch(text, -1) {
		st.Evaluations, _ = strconv.Atoi(m[1])
	}
	for _, m := range interestingLine.FindAllStringSubmatch(text, -1) {
		st.Labels["inputs with new coverage"], _ = strconv.Atoi(m[1])
	}
	if err == nil {
		return nil, nil
	}
	files, _ := filepath.Glob(filepath.Join(dir, "testdata", "fuzz", fuzzed[p.ID], "*"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		must(err)
		cs, err := parseCorpus(string(b))
		if err != nil {
			return nil, err
		}
		raw, err := json.Marshal(cs)
		must(err)
		r := &Replay{Property: p.ID, Section: "mutants", Message: "coverage-guided search: " + tail(text, 3000), Case: raw}
		again := filepath.Join(tmp, "fuzz.json")
		rb, _ := json.Marshal(r)
		must(os.WriteFile(again, rb, 0o644))
		o2, err := exec.Command(self, "-verif", *fDir, "-replay", again).CombinedOutput()
		if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 1 || p.CrashIsViolation && strings.Contains(string(o2), "fatal error:")) {
			r.Message = tail(string(o2), 3000)
			return r, nil
		}
	}
	return nil, fmt.Errorf("coverage-guided search ended with %v: %s", err, tail(text, 3000))
}

// parseCorpus reads a corpus file of the go fuzzing engine.
func parseCorpus(s string) (rawCase, error) {
	var cs rawCase
	cs.D = delivery0()
	lines := strings.Split(strings.TrimSpace(s), "\n")
	if len(lines) != 3 {
		return cs, fmt.Errorf("corpus file of %d lines", len(lines))
	}
	data, err := strconv.Unquote(strings.TrimSuffix(strings.TrimPrefix(lines[1], "[]byte("), ")"))
	cs.Data = []byte(data)
	cs.Archive = strings.Contains(lines[2], "true")
	return cs, err
}
