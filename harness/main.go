package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"
)

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

var (
	fProp    = flag.String("prop", "", "property id")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Int64("seed", 1, "seed")
	fShard   = flag.Int("shard", -1, "child shard number")
	fShards  = flag.Int("shards", 1, "number of shards")
	fOut     = flag.String("out", "", "child result file")
	fReplay  = flag.String("replay", "", "replay this file instead of searching")
	fDir     = flag.String("verif", "/verif", "directory of the framework")
	fOnly    = flag.String("section", "", "only this section")
	fScale   = flag.Float64("scale", 0, "scale the number of random cases")
	fRaceBin = flag.String("racebin", "", "race detector build of this program")
	fList    = flag.Bool("list", false, "list properties")
	fFuzzBin = flag.String("fuzzbin", "", "coverage instrumented build of the fuzz targets")
	fFuzz    = flag.Duration("fuzztime", 10*time.Minute, "duration of the coverage-guided search")
	fNoEv    = flag.Bool("noevidence", false, "do not write evidence")
)

const cpuLimit = 60.0

func main() {
	if os.Getenv("VERIF_COLD") != "" {
		os.Exit(coldMain())
	}
	if n, err := strconv.ParseUint(os.Getenv("VERIF_FSIZE"), 10, 64); err == nil { // run a program under a file size limit
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}))
		os.Unsetenv("VERIF_FSIZE")
		must(syscall.Exec(os.Args[1], os.Args[1:], os.Environ()))
	}
	testing.Init()
	must(flag.Set("rapid.nofailfile", "true"))
	shrink := "15s"
	if s := os.Getenv("VERIF_SHRINK"); s != "" { // planting bugs, a short one will do
		shrink = s
	}
	must(flag.Set("rapid.shrinktime", shrink))
	flag.Parse()
	if *fList {
		for _, id := range sortedKeys(props) {
			for _, s := range props[id].Sections {
				fmt.Println(id, s.Name)
			}
		}
		return
	}
	p := props[*fProp]
	if *fReplay != "" {
		os.Exit(replay(*fReplay))
	}
	if p == nil {
		fatal("unknown property %q", *fProp)
	}
	if *fShard >= 0 {
		child(p)
		return
	}
	os.Exit(supervise(p))
}

// limitMemory bounds the address space so that a runaway allocation ends this
// process and not the sandbox.
func limitMemory() {
	const lim = 4 << 30
	if !raceEnabled {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
}

func replay(path string) int {
	limitMemory()
	b, err := os.ReadFile(path)
	must(err)
	var r Replay
	must(json.Unmarshal(b, &r))
	p := props[r.Property]
	if p == nil {
		fatal("unknown property %q", r.Property)
	}
	for _, s := range p.Sections {
		if s.Name == r.Section {
			c := &Child{prop: p}
			go c.watch(cpuLimit)
			for _, b := range r.Before {
				for _, s := range p.Sections {
					if s.Name == b.Section {
						c.begin(s.Name, b.Case)
						s.replay(b.Case)
						c.end()
					}
				}
			}
			c.begin(s.Name, r.Case)
			if err := s.replay(r.Case); err != nil {
				fmt.Printf("%s/%s: %v\n", r.Property, r.Section, err)
				fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
				return 1
			}
			fmt.Printf("%s/%s: holds on %s\n", r.Property, r.Section, path)
			return 0
		}
	}
	fatal("unknown section %q", r.Section)
	return 2
}

// ChildResult is what a child reports to the supervisor.
type ChildResult struct {
	Stats   map[string]*SectionStat `json:"stats"`
	Failure *Replay                 `json:"failure"`
}

func child(p *Prop) {
	limitMemory()
	c := &Child{prop: p, tier: *fTier, seed: *fSeed, shard: *fShard, shards: *fShards, scale: *fScale,
		stats: map[string]*SectionStat{}, hashes: map[uint64]struct{}{}}
	var err error
	c.curFile, err = os.Create(*fOut + ".cur")
	must(err)
	go c.watch(cpuLimit)
	if c.shard == 0 && *fOnly == "" {
		c.regress()
	}
	for _, s := range p.Sections {
		if c.failure != nil {
			break
		}
		if *fOnly != "" && *fOnly != s.Name {
			continue
		}
		s.run(c)
	}
	for _, s := range c.stats {
		s.SampleList = s.Samples
	}
	hf, err := os.Create(*fOut + ".hash")
	must(err)
	w := bufio.NewWriter(hf)
	for h := range c.hashes {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], h)
		w.Write(b[:])
	}
	must(w.Flush())
	must(hf.Close())
	b, err := json.Marshal(ChildResult{c.stats, c.failure})
	must(err)
	must(os.WriteFile(*fOut, b, 0o644))
	if c.failure != nil {
		if c.history.First != nil {
			b, err := json.Marshal(c.history)
			must(err)
			must(os.WriteFile(*fOut+".history", b, 0o644))
		}
		os.Exit(1)
	}
}

// regress re-runs the saved regression cases without the search library.
func (c *Child) regress() {
	files, _ := filepath.Glob(filepath.Join(*fDir, "regress", c.prop.ID, "*.json"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		must(err)
		var r Replay
		must(json.Unmarshal(b, &r))
		for _, s := range c.prop.Sections {
			if s.Name != r.Section {
				continue
			}
			c.begin(s.Name, r.Case)
			err := s.replay(r.Case)
			c.end()
			if err != nil {
				c.failure = &Replay{c.prop.ID, s.Name, "regression " + filepath.Base(f) + ": " + err.Error(), r.Case, nil}
				return
			}
			c.stat("regression").Evaluations++
		}
	}
}

func supervise(p *Prop) int {
	start := time.Now()
	shards := 4
	if *fTier == "thorough" {
		shards = 8
	}
	tmp, err := os.MkdirTemp("", "verif-run-")
	must(err)
	defer os.RemoveAll(tmp)
	must(os.Chmod(tmp, 0o711)) // radolan2png runs as another user below it

	self, err := os.Executable()
	must(err)
	type job struct {
		bin, out string
		shard    int
		race     bool
		err      error
		stderr   bytes.Buffer
	}
	var jobs []*job
	for i := 0; i < shards; i++ {
		jobs = append(jobs, &job{bin: self, out: filepath.Join(tmp, fmt.Sprintf("s%d", i)), shard: i})
	}
	if p.Race && *fRaceBin != "" {
		for i := 0; i < 2; i++ {
			jobs = append(jobs, &job{bin: *fRaceBin, out: filepath.Join(tmp, fmt.Sprintf("race%d", i)), shard: i, race: true})
		}
	}
	limit := 800 * time.Second
	if *fTier == "thorough" {
		limit = 3 * time.Hour
	}
	done := make(chan *job, len(jobs))
	for _, j := range jobs {
		go func(j *job) {
			args := []string{"-prop", p.ID, "-tier", *fTier, "-seed", strconv.FormatInt(*fSeed, 10), "-shard", strconv.Itoa(j.shard),
				"-shards", strconv.Itoa(shards), "-out", j.out, "-verif", *fDir, "-section", *fOnly}
			if j.race {
				args = append(args, "-scale", "0.25")
			} else if *fScale > 0 {
				args = append(args, "-scale", fmt.Sprint(*fScale))
			}
			cmd := exec.Command(j.bin, args...)
			cmd.Stdout = &j.stderr
			cmd.Stderr = &j.stderr
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "VERIF_SCRATCH="+tmp)
			if err := cmd.Start(); err != nil {
				j.err = err
				done <- j
				return
			}
			t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
			j.err = cmd.Wait()
			t.Stop()
			done <- j
		}(j)
	}
	for range jobs {
		<-done
	}

	var failures []*Replay
	histories := map[*Replay]string{}
	harness := 0
	stats := map[string]*SectionStat{}
	hashes := map[uint64]struct{}{}
	for _, j := range jobs {
		code := 0
		if j.err != nil {
			code = -1
			if ee, ok := j.err.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
		}
		text := j.stderr.String()
		switch {
		case code == 0 || code == 1:
			b, err := os.ReadFile(j.out)
			if err != nil {
				fmt.Fprintf(os.Stderr, "shard %d: no result: %s\n", j.shard, tail(text, 4000))
				harness++
				continue
			}
			var r ChildResult
			must(json.Unmarshal(b, &r))
			if r.Failure != nil {
				failures = append(failures, r.Failure)
				histories[r.Failure] = j.out + ".history"
			}
			pre := ""
			if j.race {
				pre = "race:"
			}
			for k, s := range r.Stats {
				d := stats[pre+k]
				if d == nil {
					d = &SectionStat{Labels: map[string]int{}}
					stats[pre+k] = d
				}
				d.Evaluations += s.Evaluations
				d.Nontrivial += s.Nontrivial
				for l, n := range s.Labels {
					d.Labels[l] += n
				}
				d.SampleList = append(d.SampleList, s.SampleList...)
			}
			if hb, err := os.ReadFile(j.out + ".hash"); err == nil {
				for i := 0; i+8 <= len(hb); i += 8 {
					hashes[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
				}
			}
		case code == 66 && j.race && strings.Contains(text, "DATA RACE"):
			r := currentCase(p, j.out)
			if r == nil {
				harness++
				continue
			}
			r.Message = "data race detected:\n" + tail(text, 6000)
			failures = append(failures, r)
		default:
			// The process died. Confirm by running the case it was in alone.
			r := currentCase(p, j.out)
			if r == nil || code == 2 && strings.Contains(text, "HARNESS ERROR") {
				fmt.Fprintf(os.Stderr, "shard %d: exit %d: %s\n", j.shard, code, tail(text, 4000))
				harness++
				continue
			}
			again := filepath.Join(tmp, "again.json")
			b, _ := json.Marshal(r)
			must(os.WriteFile(again, b, 0o644))
			cmd := exec.Command(j.bin, "-replay", again)
			cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+tmp)
			t := time.AfterFunc(300*time.Second, func() { cmd.Process.Kill() })
			out, err := cmd.CombinedOutput()
			t.Stop()
			code2 := 0
			if ee, ok := err.(*exec.ExitError); ok {
				code2 = ee.ExitCode()
			}
			conc := p.Race && (concurrentMap(text) || concurrentMap(string(out)))
			fatalGo := strings.Contains(string(out), "fatal error:") || strings.Contains(string(out), "runtime: ")
			switch {
			case code == exitHang && code2 == exitHang:
				r.Message = "does not terminate (more than 60 s of CPU time, twice)"
				failures = append(failures, r)
			case conc:
				r.Message = "concurrent use of a map: " + tail(text, 3000)
				failures = append(failures, r)
			case code2 == 2 && fatalGo && p.CrashIsViolation:
				r.Message = "process dies: " + tail(string(out), 3000)
				failures = append(failures, r)
			case code2 == 1:
				r.Message = "violation on re-run: " + tail(string(out), 3000)
				failures = append(failures, r)
			default:
				fmt.Fprintf(os.Stderr, "shard %d: exit %d, re-run exit %d: %s\n%s\n", j.shard, code, code2, tail(text, 3000), tail(string(out), 3000))
				harness++
			}
		}
	}

	if *fFuzzBin != "" && len(failures) == 0 {
		r, err := runFuzz(p, *fFuzzBin, self, tmp, *fFuzz, stats)
		if r != nil {
			failures = append(failures, r)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			harness++
		}
	}

	if !*fNoEv {
		writeEvidence(p, stats, len(hashes), len(failures), time.Since(start), shards)
	}
	for _, k := range sortedKeys(stats) {
		fmt.Printf("%s/%s: %d cases, %d non-trivial\n", p.ID, k, stats[k].Evaluations, stats[k].Nontrivial)
	}
	if len(failures) > 0 {
		best := failures[0]
		for _, f := range failures {
			if len(f.Case) < len(best.Case) {
				best = f
			}
		}
		if h := histories[best]; h != "" && !p.Race {
			best = reproduce(best, h, self, tmp)
		}
		dir := filepath.Join(*fDir, "replays")
		must(os.MkdirAll(dir, 0o755))
		path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", p.ID, best.Section))
		b, err := json.MarshalIndent(best, "", " ")
		must(err)
		must(os.WriteFile(path, b, 0o644))
		fmt.Printf("%s/%s: %s\n", p.ID, best.Section, tail(best.Message, 3000))
		if len(best.Before) > 0 {
			fmt.Printf("after %d other cases (in the replay file)\n", len(best.Before))
		}
		fmt.Printf("case: %s\n", sample(best.Case))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if harness > 0 {
		fmt.Fprintf(os.Stderr, "%d shard(s) gave no answer\n", harness)
		return 2
	}
	return 0
}

// reproduce makes sure that a replay fails in a fresh process: if the case does
// not fail alone, it is preceded by as few of the earlier cases as it takes.
func reproduce(r *Replay, histFile, self, tmp string) *Replay {
	deadline := time.Now().Add(90 * time.Second)
	fails := func(r *Replay) bool {
		left := time.Until(deadline)
		if left <= 0 {
			return false
		}
		b, err := json.Marshal(r)
		must(err)
		file := filepath.Join(tmp, "reproduce.json")
		must(os.WriteFile(file, b, 0o644))
		cmd := exec.Command(self, "-verif", *fDir, "-replay", file)
		cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+tmp)
		t := time.AfterFunc(left, func() { cmd.Process.Kill() })
		defer t.Stop()
		ee, ok := cmd.Run().(*exec.ExitError)
		return ok && ee.ExitCode() == 1
	}
	if fails(r) {
		return r
	}
	b, err := os.ReadFile(histFile)
	if err != nil {
		return r
	}
	var h History
	must(json.Unmarshal(b, &h))
	if fails(h.First) {
		return h.First
	}
	with := func(r *Replay, steps []Step) *Replay {
		return &Replay{Property: r.Property, Section: r.Section, Message: r.Message, Case: r.Case, Before: steps}
	}
	var steps []Step
	for n := 1; steps == nil; n *= 4 {
		n = min(n, len(h.Steps))
		if s := h.Steps[len(h.Steps)-n:]; fails(with(h.First, s)) {
			steps = s
		} else if n == len(h.Steps) || time.Now().After(deadline) {
			return r // does not repeat
		}
	}
	for size := (len(steps) + 1) / 2; size >= 1 && time.Now().Before(deadline); { // remove what is not needed
		removed := false
		for i := 0; i < len(steps); {
			rest := append(append([]Step{}, steps[:i]...), steps[min(i+size, len(steps)):]...)
			if len(rest) < len(steps) && fails(with(h.First, rest)) {
				steps, removed = rest, true
			} else {
				i += size
			}
		}
		if size == 1 && !removed {
			break
		}
		if size > 1 {
			size /= 2
		}
	}
	if fails(with(r, steps)) { // the shrunk case, too
		return with(r, steps)
	}
	return with(h.First, steps)
}

func currentCase(p *Prop, out string) *Replay {
	b, err := os.ReadFile(out + ".cur")
	if err != nil || len(b) < 43 {
		return nil
	}
	n, err := strconv.Atoi(strings.TrimSpace(string(b[30:42])))
	if err != nil || len(b) < 43+n {
		return nil
	}
	return &Replay{Property: p.ID, Section: strings.TrimSpace(string(b[:30])), Case: json.RawMessage(b[43 : 43+n])}
}

// quote drops verdict lines of a run within this run.
func quote(s string) string {
	var ls []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, "VIOLATION ") {
			ls = append(ls, l)
		}
	}
	return strings.Join(ls, "\n")
}

func tail(s string, n int) string {
	s = quote(s)
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeEvidence(p *Prop, stats map[string]*SectionStat, distinct, violations int, wall time.Duration, shards int) {
	total := 0
	var samples []string
	sections := map[string]any{}
	for _, k := range sortedKeys(stats) {
		s := stats[k]
		total += s.Evaluations
		if len(s.SampleList) > 0 {
			samples = append(samples, k+": "+s.SampleList[0])
		}
		labels := map[string]int{}
		keys := sortedKeys(s.Labels)
		for i, l := range keys {
			if i < 160 {
				labels[l] = s.Labels[l]
			} else {
				labels["(more classes)"] += s.Labels[l]
			}
		}
		sections[k] = map[string]any{"evaluations": s.Evaluations, "nontrivial": s.Nontrivial, "classes": labels}
	}
	if samples == nil {
		samples = []string{}
	}
	ev := map[string]any{
		"property": p.ID,
		"tier":     *fTier,
		"seed":     *fSeed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         total,
			"distinct_nontrivial": distinct,
			"rule":                p.Rule,
			"samples":             samples,
			"sections":            sections,
			"shards":              shards,
		},
		"assumptions": p.Assume,
		"wall_s":      wall.Seconds(),
		"violations":  violations,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	dir := filepath.Join(*fDir, "evidence")
	must(os.MkdirAll(dir, 0o755))
	must(os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644))
}
