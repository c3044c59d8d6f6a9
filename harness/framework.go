package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Prop is the monitor of one property: a fixed list of generated cases, each of which drives the
// real code and judges what was observed.
type Prop struct {
	ID          string
	Level       string
	Shards      int // worker processes (each runs its cases one after another)
	MaxProcs    int // GOMAXPROCS of each worker
	Quick, Thor int // number of cases
	Run         func(c *Case)
	Rule        string
	Assumptions []string
	Min         map[string]int64 // fewer observed events than this: the run is inconclusive
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Shards == 0 {
		p.Shards = 8
	}
	if p.MaxProcs == 0 {
		p.MaxProcs = 2
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

// Case is one case of one property; everything in it follows from (seed, property, index)
type Case struct {
	P    *Prop
	Seed uint64
	Idx  int
	Tier string
	*Rand
	w *worker
}

func (c *Case) Thorough() bool { return c.Tier == "thorough" }

// Count adds to an event counter (reported in the evidence)
func (c *Case) Count(name string, n int) { c.w.counters[name] += int64(n) }

// Max keeps the highest value of a measure
func (c *Case) Max(name string, n int) {
	if v := c.w.maxima[name]; int64(n) > v {
		c.w.maxima[name] = int64(n)
	}
}

// NonTrivial records one evaluated, non-trivial case by what was observed in it
func (c *Case) NonTrivial(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xff})
	}
	c.w.seen[h.Sum64()] = struct{}{}
}

// Eval counts one evaluation of the oracle
func (c *Case) Eval() { c.w.evals++ }

// Sample keeps the first few cases of each worker, written out
func (c *Case) Sample(f func() any) {
	if len(c.w.samples) < 2 {
		c.w.samples = append(c.w.samples, f())
	}
}

type violation struct {
	What   string `json:"what"`
	Detail any    `json:"detail"`
}

// Fail ends the case with a violation
func (c *Case) Fail(what string, detail ...any) {
	var d any = detail
	if len(detail) == 1 {
		d = detail[0]
	}
	panic(&violation{What: what, Detail: d})
}

// Known reports a failure that may be one of the listed findings; any other is a violation
func (c *Case) Known(key, what string, detail ...any) {
	if c.w.known[key] {
		c.w.knownHit[key] = true
		return
	}
	c.Fail(what, detail...)
}

type worker struct {
	counters, maxima map[string]int64
	seen             map[uint64]struct{}
	evals            int64
	samples          []any
	known, knownHit  map[string]bool
}

type shardResult struct {
	Counters, Maxima map[string]int64
	Evals            int64
	Samples          []any
	KnownHit         []string
	Violation        *violation
	CaseIdx          int
	Done             bool
}

const (
	exitViolation = 41
	exitHang      = 42
	exitRace      = 66
)

var (
	fProp   = flag.String("prop", "", "property id")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fSeed   = flag.Uint64("seed", 1, "seed")
	fVerif  = flag.String("verif", "/verif", "directory of the framework")
	fTmp    = flag.String("tmp", "", "scratch directory")
	fWorker = flag.Bool("worker", false, "run as worker")
	fFrom   = flag.Int("from", 0, "first case of the worker")
	fStep   = flag.Int("step", 1, "step between cases of the worker")
	fTo     = flag.Int("to", -1, "end of the cases of the worker")
	fOut    = flag.String("out", "", "result file of the worker")
	fHang   = flag.Int("hang", 60, "seconds without progress in one case that count as a hang")
	fReplay = flag.String("replay", "", "replay file")
	fCases  = flag.Int("cases", 0, "override the number of cases")
)

func flagString(name, value, usage string) *string { return flag.String(name, value, usage) }

func main() {
	flag.Parse()
	if *fWorker {
		workerMain()
		return
	}
	os.Exit(supervise())
}

func (p *Prop) cases(tier string) int {
	if *fCases > 0 {
		return *fCases
	}
	if tier == "thorough" {
		return p.Thor
	}
	return p.Quick
}

func workerMain() {
	p := props[*fProp]
	runtime.GOMAXPROCS(p.MaxProcs)
	debug.SetMaxStack(512 << 20)
	w := &worker{
		counters: map[string]int64{}, maxima: map[string]int64{}, seen: map[uint64]struct{}{},
		known: loadKnown(p.ID), knownHit: map[string]bool{},
	}
	var current, started atomic.Int64
	res := &shardResult{}
	write := func() {
		res.Counters, res.Maxima, res.Evals, res.Samples = w.counters, w.maxima, w.evals, w.samples
		for k := range w.knownHit {
			res.KnownHit = append(res.KnownHit, k)
		}
		data, err := json.Marshal(res)
		if err != nil {
			data, _ = json.Marshal(&shardResult{Violation: res.Violation, CaseIdx: res.CaseIdx})
		}
		_ = os.WriteFile(*fOut, data, 0o644)
		buf := make([]byte, 0, len(w.seen)*8)
		for h := range w.seen {
			buf = binary.LittleEndian.AppendUint64(buf, h)
		}
		_ = os.WriteFile(*fOut+".seen", buf, 0o644)
	}
	progress, err := os.Create(*fOut + ".at")
	if err != nil {
		panic(err)
	}
	started.Store(time.Now().UnixNano())
	go func() { // watchdog: only detects that a case makes no progress at all
		for {
			time.Sleep(500 * time.Millisecond)
			if time.Now().UnixNano()-started.Load() > int64(*fHang)*int64(time.Second) {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				_ = os.WriteFile(*fOut+".hang", []byte(fmt.Sprintf("%d\n%s", current.Load(), buf[:n])), 0o644)
				os.Exit(exitHang)
			}
		}
	}()
	for i := *fFrom; i < *fTo; i += *fStep {
		current.Store(int64(i))
		started.Store(time.Now().UnixNano())
		_, _ = progress.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		if v := runCase(p, w, i); v != nil {
			res.Violation, res.CaseIdx = v, i
			write()
			os.Exit(exitViolation)
		}
	}
	res.Done = true
	write()
}

func runCase(p *Prop, w *worker, i int) (v *violation) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(tooBig); ok {
				w.counters["skipped_too_big"]++
				return
			}
			var ok bool
			if v, ok = r.(*violation); !ok {
				v = &violation{What: fmt.Sprintf("panic: %v", r), Detail: string(debug.Stack())}
			}
		}
	}()
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", p.ID, *fSeed, i)
	recCount = 0
	p.Run(&Case{P: p, Seed: *fSeed, Idx: i, Tier: *fTier, Rand: &Rand{s: h.Sum64()}, w: w})
	return nil
}

type finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

// findings reads KNOWN_FINDINGS.txt: lines "finding: property=<id> key=<key> <what>" are recorded
// defects that were not repaired; "fixed:" lines are history and suppress nothing
func findings(prop string) (result []finding) {
	data, err := os.ReadFile(filepath.Join(*fVerif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(data), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "finding:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
			result = append(result, finding{prop, f[2][4:], f[3]})
		}
	}
	return result
}

func loadKnown(prop string) map[string]bool {
	result := map[string]bool{}
	for _, f := range findings(prop) {
		result[f.Key] = true
	}
	return result
}

type replay struct {
	Property string     `json:"property"`
	Seed     uint64     `json:"seed"`
	Tier     string     `json:"tier"`
	Case     int        `json:"case"`
	From     int        `json:"shard_from"`
	Step     int        `json:"shard_step"`
	Cases    int        `json:"cases"`
	What     string     `json:"what"`
	Detail   any        `json:"detail"`
	HowTo    string     `json:"how_to_replay"`
	Viol     *violation `json:"-"`
}

type shard struct {
	from, step, to int
	out            string
	err            error
	stderr         string
	code           int
}

func (s *shard) run(timeout time.Duration, hang int) {
	self, _ := os.Executable()
	args := []string{"-worker", "-prop", *fProp, "-tier", *fTier, "-seed", strconv.FormatUint(*fSeed, 10), "-verif", *fVerif,
		"-from", strconv.Itoa(s.from), "-step", strconv.Itoa(s.step), "-to", strconv.Itoa(s.to), "-out", s.out, "-hang", strconv.Itoa(hang), "-src", *fSrc, "-exports", *fExports}
	cmd := exec.Command(self, args...)
	errFile, err := os.Create(s.out + ".stderr")
	if err != nil {
		s.err, s.code = err, -1
		return
	}
	defer errFile.Close()
	cmd.Stderr = errFile
	outFile, err := os.Create(s.out + ".stdout")
	if err != nil {
		s.err, s.code = err, -1
		return
	}
	defer outFile.Close()
	cmd.Stdout = outFile
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode="+strconv.Itoa(exitRace)+" history_size=4", "GOTRACEBACK=all")
	if err = cmd.Start(); err != nil {
		s.err, s.code = err, -1
		return
	}
	timer := time.AfterFunc(timeout, func() { _ = cmd.Process.Kill() })
	err = cmd.Wait()
	timer.Stop()
	s.code = cmd.ProcessState.ExitCode()
	data, _ := os.ReadFile(s.out + ".stderr")
	if len(data) > 20000 {
		data = append(data[:12000:12000], data[len(data)-8000:]...)
	}
	s.stderr = string(data)
}

// verdict of one worker: a violation, nothing, or an error (inconclusive)
func (s *shard) verdict() (v *violation, at int, err error) {
	at = -1
	if data, e := os.ReadFile(s.out + ".at"); e == nil {
		at, _ = strconv.Atoi(strings.TrimSpace(string(data)))
	}
	switch s.code {
	case 0:
		return nil, at, nil
	case exitViolation:
		res := s.result()
		if res == nil || res.Violation == nil {
			return nil, at, errors.New("worker reported a violation but no details")
		}
		return res.Violation, res.CaseIdx, nil
	case exitRace:
		return &violation{What: "data race", Detail: s.stderr}, at, nil
	case exitHang:
		data, _ := os.ReadFile(s.out + ".hang")
		return &violation{What: "hang", Detail: string(data)}, at, nil
	case 2: // the Go runtime gave up: unrecovered panic in another goroutine, fatal error, stack overflow
		if strings.Contains(s.stderr, "out of memory") {
			return nil, at, fmt.Errorf("worker ran out of memory: %s", s.stderr)
		}
		if strings.Contains(s.stderr, "goroutine ") || strings.Contains(s.stderr, "fatal error") {
			return &violation{What: "crash", Detail: s.stderr}, at, nil
		}
	}
	return nil, at, fmt.Errorf("worker ended with %d (%v): %s", s.code, s.err, s.stderr)
}

func (s *shard) result() *shardResult {
	data, err := os.ReadFile(s.out)
	if err != nil {
		return nil
	}
	res := &shardResult{}
	if json.Unmarshal(data, res) != nil {
		return nil
	}
	return res
}

func supervise() int {
	start := time.Now()
	if *fTmp == "" {
		d, err := os.MkdirTemp("", "aitchmon")
		if err != nil {
			fmt.Println(err)
			return 2
		}
		defer os.RemoveAll(d)
		*fTmp = d
	}
	if *fReplay != "" {
		return doReplay()
	}
	p := props[*fProp]
	if p == nil {
		fmt.Println("unknown property", *fProp)
		return 2
	}
	if !prepare() {
		return 3
	}
	n := p.cases(*fTier)
	var shards []*shard
	nsh := p.Shards
	if nsh > n {
		nsh = n
	}
	done := make(chan *shard)
	overall := 780 * time.Second
	if *fTier == "thorough" {
		overall = 6 * time.Hour
	}
	for i := 0; i < nsh; i++ {
		s := &shard{from: i, step: nsh, to: n, out: filepath.Join(*fTmp, fmt.Sprintf("shard-%d", i))}
		shards = append(shards, s)
		go func() { s.run(overall, *fHang); done <- s }()
	}
	for range shards {
		<-done
	}
	var first *violation
	firstAt, firstShard := -1, (*shard)(nil)
	var errs []string
	tried := 0
	for _, s := range shards {
		v, at, err := s.verdict()
		if err != nil {
			errs = append(errs, err.Error())
		}
		if v != nil && v.What == "hang" && (tried >= 3 || (first != nil && first.What == "hang")) {
			errs = append(errs, fmt.Sprintf("case %d made no progress", at))
			continue
		}
		if v != nil && v.What == "hang" { // believe a hang only if the case alone hangs again
			tried++
			r := &shard{from: at, step: 1, to: at + 1, out: s.out + "-again"}
			r.run(100*time.Second, 3**fHang/2)
			if rv, _, _ := r.verdict(); rv == nil {
				errs = append(errs, fmt.Sprintf("case %d made no progress once, but not again", at))
				continue
			}
		}
		if v != nil && (first == nil || at < firstAt) {
			first, firstAt, firstShard = v, at, s
		}
	}
	// evidence
	counters, maxima := map[string]int64{}, map[string]int64{}
	var evals int64
	var samples []any
	knownHit := map[string]bool{}
	seen := map[uint64]struct{}{}
	for _, s := range shards {
		res := s.result()
		if res == nil {
			continue
		}
		evals += res.Evals
		for k, v := range res.Counters {
			counters[k] += v
		}
		for k, v := range res.Maxima {
			if v > maxima[k] {
				maxima[k] = v
			}
		}
		for _, k := range res.KnownHit {
			knownHit[k] = true
		}
		if len(samples) < 4 && len(res.Samples) > 0 {
			samples = append(samples, res.Samples[0])
		}
		data, _ := os.ReadFile(s.out + ".seen")
		for i := 0; i+8 <= len(data); i += 8 {
			seen[binary.LittleEndian.Uint64(data[i:])] = struct{}{}
		}
	}
	violations := 0
	if first != nil {
		violations = 1
	}
	coverage := map[string]any{
		"evaluations": evals, "distinct_nontrivial": len(seen), "rule": p.Rule, "samples": samples,
		"cases": n, "observed": counters, "maxima": maxima, "workers": nsh, "inconclusive": errs,
	}
	ev := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": p.Level, "coverage": coverage,
		"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	_ = os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
	data, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(*fVerif, "evidence", p.ID+".json"), append(data, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	for _, f := range findings(p.ID) {
		if knownHit[f.Key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.What)
		}
	}
	if first != nil {
		r := &replay{Property: p.ID, Seed: *fSeed, Tier: *fTier, Case: firstAt, From: firstShard.from, Step: firstShard.step,
			Cases: n, What: first.What, Detail: first.Detail}
		dir := filepath.Join(*fVerif, "replays")
		_ = os.MkdirAll(dir, 0o755)
		file := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", p.ID, *fSeed, firstAt))
		r.HowTo = "cd " + *fVerif + " && bash check.sh --replay " + file
		data, _ := json.MarshalIndent(r, "", " ")
		_ = os.WriteFile(file, append(data, '\n'), 0o644)
		fmt.Println("what:", first.What)
		if d, e := json.Marshal(first.Detail); e == nil {
			if len(d) > 3000 {
				d = d[:3000]
			}
			fmt.Println("detail:", string(d))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
		return 1
	}
	if len(errs) > 0 {
		fmt.Println("INCONCLUSIVE property="+p.ID, strings.Join(errs, "; "))
		return 3
	}
	var few []string
	for k, min := range p.Min {
		if *fCases == 0 && counters[k] < min {
			few = append(few, fmt.Sprintf("%s=%d (expected at least %d)", k, counters[k], min))
		}
	}
	if len(few) > 0 {
		sort.Strings(few)
		fmt.Println("INCONCLUSIVE property="+p.ID+" too few events observed:", strings.Join(few, ", "))
		return 3
	}
	fmt.Printf("held property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs\n", p.ID, *fTier, *fSeed, n, evals, len(seen), time.Since(start).Seconds())
	keys := make([]string, 0, len(counters))
	for k := range counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %s=%d", k, counters[k])
	}
	fmt.Println()
	return 0
}

// prepare finds the export data that the monitors of code generation need
func prepare() bool {
	if *fProp == "C17" || *fProp == "C18" {
		*fExports = filepath.Join(*fTmp, "exports")
		if err := exportData(*fExports); err != nil {
			fmt.Println("INCONCLUSIVE", err)
			return false
		}
	}
	return true
}

// doReplay runs the case of a replay file again: alone, and then with the cases before it
func doReplay() int {
	data, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r := &replay{}
	if err = json.Unmarshal(data, r); err != nil {
		fmt.Println(err)
		return 2
	}
	if props[r.Property] == nil {
		fmt.Println("unknown property", r.Property)
		return 2
	}
	*fProp, *fTier, *fSeed = r.Property, r.Tier, r.Seed
	if !prepare() {
		return 3
	}
	for i, s := range []*shard{{from: r.Case, step: 1, to: r.Case + 1}, {from: r.From, step: r.Step, to: r.Case + 1}} {
		s.out = filepath.Join(*fTmp, fmt.Sprintf("replay-%d", i))
		s.run(780*time.Second, *fHang)
		v, at, err := s.verdict()
		if err != nil {
			fmt.Println(err)
			return 3
		}
		if v != nil {
			d, _ := json.MarshalIndent(v.Detail, "", " ")
			fmt.Printf("case %d: %s\n%s\nVIOLATION property=%s replay=%s\n", at, v.What, d, r.Property, *fReplay)
			return 1
		}
	}
	fmt.Println("not reproduced")
	return 0
}
