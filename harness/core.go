package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/arr-ai/wbnf/parser"
)

// Check is the machinery that decides one property.
type Check struct {
	ID    string
	Rule  string // how cases are made and what makes one non-trivial
	Level string
	Cases map[string]int // per tier
	// Run executes one case.
	Run func(c *Case)
	// Generated, if set, makes the grammars for which code is to be generated and compiled in.
	Generated func(r *rand.Rand) (parser.Grammar, []parser.Rule, GenOpts)
	// GeneratedOnly gives the one grammar text to generate code for, and where to start.
	GeneratedOnly func() (text, start string)
	// Typed says that every fourth case is about package wbnf.
	Typed bool
	// StrictTypes keeps each name in a rule for one kind of thing.
	StrictTypes bool
	// Whole, if set, replaces the sharded execution of cases.
	Whole func(m *Merged, tier string, seed uint64)
	// Assumptions are recorded in the evidence.
	Assumptions []string
	// Workers limits the number of worker processes (0: one per CPU).
	Workers int
	// CPUSeconds is the CPU time one case may take (0: default).
	CPUSeconds float64
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

// Violation is one observed violation of a property.
type Violation struct {
	Property string         `json:"property"`
	Tier     string         `json:"tier"`
	Seed     uint64         `json:"seed"`
	Case     int            `json:"case"`
	Message  string         `json:"message"`
	Details  map[string]any `json:"details,omitempty"`
}

// Case is the context in which a case runs.
type Case struct {
	*rand.Rand
	ID     string
	Tier   string
	Seed   uint64
	Index  int
	out    *Merged
	failed bool
	notes  map[string]any
}

// Merged holds what was measured.
type Merged struct {
	Evaluations int64            `json:"evaluations"`
	Stats       map[string]int64 `json:"stats"`
	Hashes      map[uint64]bool  `json:"-"`
	HashList    []uint64         `json:"hashes"`
	Samples     []any            `json:"samples"`
	Violations  []Violation      `json:"violations"`
	mu          sync.Mutex
}

func newMerged() *Merged {
	return &Merged{Stats: map[string]int64{}, Hashes: map[uint64]bool{}}
}

func (m *Merged) merge(o *Merged) {
	m.Evaluations += o.Evaluations
	for k, v := range o.Stats {
		if strings.HasPrefix(k, "max ") {
			if v > m.Stats[k] {
				m.Stats[k] = v
			}
			continue
		}
		m.Stats[k] += v
	}
	for _, h := range o.HashList {
		m.Hashes[h] = true
	}
	for _, s := range o.Samples {
		if len(m.Samples) < 8 {
			m.Samples = append(m.Samples, s)
		}
	}
	m.Violations = append(m.Violations, o.Violations...)
}

// Eval counts one execution that was judged.
func (c *Case) Eval() { c.out.mu.Lock(); c.out.Evaluations++; c.out.mu.Unlock() }

// Stat adds to a measured count.
func (c *Case) Stat(name string, n int) {
	c.out.mu.Lock()
	c.out.Stats[name] += int64(n)
	c.out.mu.Unlock()
}

// Max keeps the largest value seen.
func (c *Case) Max(name string, n int) {
	c.out.mu.Lock()
	if int64(n) > c.out.Stats["max "+name] {
		c.out.Stats["max "+name] = int64(n)
	}
	c.out.mu.Unlock()
}

// Distinct records a non-trivial case by what identifies it.
func (c *Case) Distinct(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	c.out.mu.Lock()
	c.out.Hashes[h.Sum64()] = true
	c.out.mu.Unlock()
}

// Sample offers an actual case for the evidence.
func (c *Case) Sample(v any) {
	c.out.mu.Lock()
	if len(c.out.Samples) < 2 {
		c.out.Samples = append(c.out.Samples, v)
	}
	c.out.mu.Unlock()
}

// Note records details that go with any violation of this case.
func (c *Case) Note(k string, v any) {
	c.notes[k] = v
	if showNotes {
		fmt.Fprintf(os.Stderr, "%s: %v\n", k, v)
	}
}

// showNotes is for debugging.
var showNotes = os.Getenv("VH_NOTES") != ""

// Fail reports a violation.
func (c *Case) Fail(format string, args ...any) {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	if c.failed {
		return
	}
	c.failed = true
	notes := map[string]any{}
	for k, v := range c.notes {
		notes[k] = v
	}
	c.out.Violations = append(c.out.Violations, Violation{
		Property: c.ID, Tier: c.Tier, Seed: c.Seed, Case: c.Index,
		Message: clip(fmt.Sprintf(format, args...), msgLimit), Details: notes,
	})
}

// Try runs f and reports a panic as a violation. It returns false if f panicked.
func (c *Case) Try(what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			c.Fail("%s panicked: %v\n%s", what, r, clip(string(debug.Stack()), 3000))
			ok = false
		}
	}()
	f()
	return true
}

// catch runs f and returns what it panicked with, or nil.
func catch(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func caseRand(id string, seed uint64, index int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", id, seed)
	return rand.New(rand.NewPCG(h.Sum64(), uint64(index)*0x9E3779B97F4A7C15+1))
}

// -----------------------------------------------------------------------------
// Workers

type recordKind string

type record struct {
	Kind string  `json:"kind"` // "delta", "done", "hang", "memory"
	Case int     `json:"case"`
	M    *Merged `json:"m,omitempty"`
	Msg  string  `json:"msg,omitempty"`
}

const maxViolationsPerWorker = 5

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func heapBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func runCase(chk *Check, tier string, seed uint64, index int, out *Merged) {
	c := &Case{Rand: caseRand(chk.ID, seed, index), ID: chk.ID, Tier: tier, Seed: seed, Index: index,
		out: out, notes: map[string]any{}}
	defer func() {
		if r := recover(); r != nil {
			c.Fail("panic: %v\n%s", r, clip(string(debug.Stack()), 3500))
		}
	}()
	chk.Run(c)
}

// worker runs the cases start, start+step, … below n.
func worker(id, tier string, seed uint64, start, step, n int, outFile string) {
	chk := checks[id]
	debug.SetMaxStack(512 << 20)
	f, err := os.OpenFile(outFile, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	must(err)
	state, err := os.OpenFile(outFile+".state", os.O_CREATE|os.O_RDWR, 0o644)
	must(err)
	var fmu sync.Mutex
	emit := func(r record) {
		fmu.Lock()
		defer fmu.Unlock()
		if r.M != nil {
			for h := range r.M.Hashes {
				r.M.HashList = append(r.M.HashList, h)
			}
		}
		b, err := json.Marshal(r)
		must(err)
		_, err = f.Write(append(b, '\n'))
		must(err)
	}
	limit := chk.CPUSeconds
	if limit == 0 {
		limit = 20
	}
	var current, began atomic.Int64
	current.Store(-1)
	var beganWall atomic.Int64
	beganWall.Store(time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			i := current.Load()
			if i < 0 {
				continue
			}
			b := began.Load()
			if cpu := cpuSeconds() - float64(b)/1e3; cpu > limit && current.Load() == i && began.Load() == b {
				emit(record{Kind: "hang", Case: int(i), Msg: fmt.Sprintf("did not finish within %.0f s of CPU time", limit)})
				os.Exit(7)
			}
			if time.Since(time.Unix(0, beganWall.Load())) > 240*time.Second && current.Load() == i {
				emit(record{Kind: "hang", Case: int(i), Msg: "made no progress for 240 s"})
				os.Exit(7)
			}
			if h := heapBytes(); h > 3<<30 {
				emit(record{Kind: "memory", Case: int(i), Msg: fmt.Sprintf("live heap grew to %d MB", h>>20)})
				os.Exit(7)
			}
		}
	}()
	out := newMerged()
	total := 0
	lastFlush := time.Now()
	for i := start; i < n; i += step {
		_, err := state.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		must(err)
		began.Store(int64(cpuSeconds() * 1e3))
		beganWall.Store(time.Now().UnixNano())
		current.Store(int64(i))
		runCase(chk, tier, seed, i, out)
		current.Store(-1)
		total += len(out.Violations)
		if time.Since(lastFlush) > time.Second {
			emit(record{Kind: "delta", Case: i, M: out})
			out = newMerged()
			lastFlush = time.Now()
		} else if len(out.Violations) > 0 {
			emit(record{Kind: "delta", Case: i, M: out})
			out = newMerged()
		}
		if total >= maxViolationsPerWorker {
			break
		}
	}
	emit(record{Kind: "done", M: out})
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vh:", err)
		os.Exit(3)
	}
}

// -----------------------------------------------------------------------------
// Master

func runSharded(chk *Check, tier string, seed uint64, m *Merged) {
	n := chk.Cases[tier]
	workers := runtime.NumCPU()
	if chk.Workers != 0 && workers > chk.Workers {
		workers = chk.Workers
	}
	if workers > 8 {
		workers = 8
	}
	if workers > n {
		workers = n
	}
	dir, err := os.MkdirTemp("", "vh-"+chk.ID+"-")
	must(err)
	defer os.RemoveAll(dir)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			start := w
			for attempt := 0; start < n; attempt++ {
				out := filepath.Join(dir, fmt.Sprintf("w%d.%d", w, attempt))
				cmd := selfCommand("worker", chk.ID, tier, strconv.FormatUint(seed, 10),
					strconv.Itoa(start), strconv.Itoa(workers), strconv.Itoa(n), out)
				stderr := &tailBuffer{}
				cmd.Stderr = stderr
				cmd.Stdout = stderr
				err := cmd.Run()
				done, bad := false, false
				mu.Lock()
				for _, r := range readRecords(out) {
					switch r.Kind {
					case "delta", "done":
						m.merge(r.M)
						done = done || r.Kind == "done"
					default:
						bad = true
						start = r.Case + workers
						m.Violations = append(m.Violations, Violation{Property: chk.ID, Tier: tier, Seed: seed, Case: r.Case,
							Message: "case " + strconv.Itoa(r.Case) + " " + r.Msg})
					}
				}
				if !done && !bad {
					b, _ := os.ReadFile(out + ".state")
					i, convErr := strconv.Atoi(strings.TrimSpace(string(b)))
					if convErr != nil {
						fmt.Fprintf(os.Stderr, "vh: worker did not start: %v\n%s\n", err, stderr)
						mu.Unlock()
						os.Exit(3)
					}
					start = i + workers
					m.Violations = append(m.Violations, Violation{Property: chk.ID, Tier: tier, Seed: seed, Case: i,
						Message: fmt.Sprintf("the process died (%v) in this case:\n%s", err, stderr.head())})
				}
				enough := len(m.Violations) >= 4*maxViolationsPerWorker
				mu.Unlock()
				if done || enough || attempt > 5 {
					return
				}
			}
		}(w)
	}
	wg.Wait()
}

func readRecords(file string) (out []record) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		var r record
		if line != "" && json.Unmarshal([]byte(line), &r) == nil {
			out = append(out, r)
		}
	}
	return out
}

// tailBuffer keeps the first part of what is written to it.
type tailBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuffer) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

// head returns the part that says why a Go process died.
func (t *tailBuffer) head() string {
	s := t.String()
	for _, mark := range []string{"WARNING: DATA RACE", "fatal error:", "panic:"} {
		if i := strings.Index(s, mark); i >= 0 {
			return clip(s[i:], 3000)
		}
	}
	return clip(s, 3000)
}

func evidencePath(id string) string {
	return filepath.Join(verifDir(), "evidence", id+".json")
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func runCheck(id, tier string, seed uint64) int {
	chk := checks[id]
	if chk == nil {
		fmt.Fprintln(os.Stderr, "vh: no such check:", id)
		return 2
	}
	began := time.Now()
	m := newMerged()
	if chk.Whole != nil {
		chk.Whole(m, tier, seed)
	}
	if chk.Run != nil {
		runSharded(chk, tier, seed, m)
	}
	for h := range m.Hashes {
		_ = h
	}
	known := 0
	if len(m.Violations) == 0 {
		var otherwise []string
		known, otherwise = runKnownFindings(id)
		for _, message := range otherwise {
			m.Violations = append(m.Violations, Violation{Property: id, Tier: tier, Seed: seed, Case: -1, Message: message})
		}
	}
	sort.SliceStable(m.Violations, func(i, j int) bool { return m.Violations[i].Case < m.Violations[j].Case })
	coverage := map[string]any{
		"evaluations":         m.Evaluations,
		"distinct_nontrivial": len(m.Hashes),
		"rule":                chk.Rule,
		"samples":             m.Samples,
		"measured":            m.Stats,
		"known_findings_seen": known,
	}
	if m.Samples == nil {
		coverage["samples"] = []any{}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": chk.Level,
		"coverage": coverage, "wall_s": time.Since(began).Seconds(), "violations": len(m.Violations),
		"assumptions": append([]string{
			"the Go toolchain, its regexp package and runtime are correct",
			"verdicts cover the executions of this run only (seeded, reproducible case by case)",
		}, chk.Assumptions...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(verifDir(), "evidence", "replays"), 0o755))
	must(os.WriteFile(evidencePath(id), append(b, '\n'), 0o644))
	if len(m.Violations) == 0 {
		fmt.Printf("%s %s: held on %d evaluations (%d distinct non-trivial), %.1f s\n",
			id, tier, m.Evaluations, len(m.Hashes), time.Since(began).Seconds())
		if m.Evaluations == 0 {
			fmt.Fprintln(os.Stderr, "vh: nothing was evaluated")
			return 2
		}
		return 0
	}
	for i, v := range m.Violations {
		if i >= 5 {
			fmt.Printf("… and %d more\n", len(m.Violations)-i)
			break
		}
		path := filepath.Join(verifDir(), "evidence", "replays", fmt.Sprintf("%s-%s-%d-%d.json", id, tier, seed, v.Case))
		b, _ := json.MarshalIndent(v, "", " ")
		must(os.WriteFile(path, append(b, '\n'), 0o644))
		fmt.Printf("case %d: %s\n", v.Case, clip(v.Message, 1500))
		if len(v.Details) > 0 {
			d, _ := json.Marshal(v.Details)
			fmt.Printf("  details: %s\n", clip(string(d), 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}
	return 1
}

// msgLimit is how long messages may be.
var msgLimit = 4000

func init() {
	if showNotes {
		msgLimit = 1 << 20
	}
}
