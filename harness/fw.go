package main

// Framework: deterministic case lists, worker pool, verdicts, evidence.
//
// A check is a list of groups; a group runs n cases. Every case draws its
// inputs from its own generator, seeded from (seed, property, group, index), so
// a case is reproduced from its index alone whatever the schedule was.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// splitmix is a rand.Source64.
type splitmix struct{ s uint64 }

func (s *splitmix) Uint64() uint64 {
	s.s += 0x9e3779b97f4a7c15
	z := s.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (s *splitmix) Int63() int64    { return int64(s.Uint64() >> 1) }
func (s *splitmix) Seed(seed int64) { s.s = uint64(seed) }

func hashStr(parts ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h ^= uint64(p[i])
			h *= 1099511628211
		}
		h ^= 0xff
		h *= 1099511628211
	}
	return h
}

func newRand(seed uint64) *rand.Rand {
	s := &splitmix{seed}
	s.Uint64()
	return rand.New(s)
}

type violation struct {
	Key, Group string
	Index      int
	Msg        string
	Notes      []string
}

// Ctx is the state of one check run.
type Ctx struct {
	prop, tier string
	seed       uint64
	scale      float64
	onlyGroup  string
	onlyIndex  int
	known      map[string]string

	evals    int64
	mu       sync.Mutex
	classes  map[string]int64
	distinct map[uint64]struct{}
	distOver int64
	samples  []string
	sampled  map[string]int
	viol     []violation
	knownHit map[string]violation
	rule     []string
	level    string
	assume   []string
	extra    map[string]interface{}
	inconcl  []string
	needs    []need
	groups   []string
	apart    float64 // >0: this share of the cases, on goroutines that share nothing (runApart)
}

type need struct {
	class string
	min   int64
}

const maxDistinct = 1 << 21

// T is one running case.
type T struct {
	c       *Ctx
	R       *rand.Rand
	Group   string
	Index   int
	evals   int64
	classes map[string]int64
	hashes  []uint64
	notes   []string
	sample  string
	failed  []violation
	kept    *[]keptResult
}

// keptResult is something the library handed out, which later calls must not change.
type keptResult struct {
	what, before string
	show         func() string
}

const keepMax = 48

// Keep remembers a result the library handed out, and requires after some further
// cases (or at the end of the group) that it still shows the same.
func (t *T) Keep(what string, show func() string) {
	if t.kept == nil {
		return
	}
	if len(*t.kept) >= keepMax {
		t.checkKept()
	}
	*t.kept = append(*t.kept, keptResult{what, show(), show})
}

func (t *T) checkKept() {
	for _, k := range *t.kept {
		t.classes[t.Group+"/results looked at again later"]++
		if now := k.show(); now != k.before {
			t.Failf("kept:"+k.what, "%s, returned by an earlier call, was changed by later ones: before %s, now %s", k.what, k.before, now)
		}
	}
	*t.kept = (*t.kept)[:0]
}

func (t *T) Class(name string)                 { t.classes[t.Group+"/"+name]++ }
func (t *T) Classf(f string, a ...interface{}) { t.classes[t.Group+"/"+fmt.Sprintf(f, a...)]++ }

// Eval counts one evaluation of the oracle on the case described by the key.
// Cases with equal key count once as distinct; an empty key is trivial.
func (t *T) Eval(key ...string) {
	t.evals++
	if len(key) > 0 {
		t.hashes = append(t.hashes, hashStr(append([]string{t.Group}, key...)...))
	}
}

// EvalH is Eval with an already computed hash.
func (t *T) EvalH(h ...uint64) {
	t.evals++
	x := hashStr(t.Group)
	for _, v := range h {
		x = (x ^ v) * 0xff51afd7ed558ccd
		x ^= x >> 29
	}
	t.hashes = append(t.hashes, x)
}
func (t *T) Note(f string, a ...interface{}) {
	if len(t.notes) < 60 {
		t.notes = append(t.notes, fmt.Sprintf(f, a...))
	}
}

// ResetNotes forgets notes of an earlier sub-case.
func (t *T) ResetNotes() { t.notes = t.notes[:0] }
func (t *T) Sample(f string, a ...interface{}) {
	if t.Index < 3 && t.sample == "" {
		t.sample = fmt.Sprintf(f, a...)
	}
}

// Failf records a violation; key identifies the failing input class or site.
func (t *T) Failf(key, f string, a ...interface{}) {
	if len(t.failed) < 5 {
		t.failed = append(t.failed, violation{Key: key, Group: t.Group, Index: t.Index, Msg: fmt.Sprintf(f, a...), Notes: append([]string(nil), t.notes...)})
	}
}
func (t *T) Check(ok bool, key, f string, a ...interface{}) bool {
	if !ok {
		t.Failf(key, f, a...)
	}
	return ok
}

// PanicVal runs f and returns what it panicked with (nil: no panic).
func PanicVal(f func()) (val interface{}, panicked bool) {
	panicked = true
	defer func() {
		val = recover()
	}()
	f()
	panicked = false
	return
}

// MustPanic requires f to panic.
func (t *T) MustPanic(key string, f func(), what string, a ...interface{}) {
	if _, p := PanicVal(f); !p {
		t.Failf(key, "did not panic: "+what, a...)
	}
}

type running struct {
	start time.Time
	desc  string
}

var runningCases sync.Map // worker id -> *running

const hangLimit = 240 * time.Second

// Run runs n cases of a group on all cores. n is scaled in the thorough tier.
func (c *Ctx) Run(group string, n int, fn func(t *T)) {
	if c.scale != 1 {
		n = int(float64(n) * c.scale)
	}
	c.run(group, n, fn, runtime.GOMAXPROCS(0))
}

// RunN runs exactly n cases (no scaling), e.g. for enumerations.
func (c *Ctx) RunN(group string, n int, fn func(t *T)) { c.run(group, n, fn, runtime.GOMAXPROCS(0)) }

// RunSeq runs n cases one after another.
func (c *Ctx) RunSeq(group string, n int, fn func(t *T)) { c.run(group, n, fn, 1) }

func (c *Ctx) tooMany() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol) >= 12
}

func (c *Ctx) run(group string, n int, fn func(t *T), workers int) {
	if c.onlyGroup != "" && c.onlyGroup != group {
		return
	}
	if c.apart > 0 {
		c.runApart(group, n, fn, workers)
		return
	}
	c.mu.Lock()
	c.groups = append(c.groups, group)
	c.mu.Unlock()
	start := time.Now()
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			wid := fmt.Sprintf("%s#%d", group, w)
			defer runningCases.Delete(wid)
			local := map[string]int64{}
			var kept []keptResult
			var evals int64
			var hashes []uint64
			flush := func() {
				c.mu.Lock()
				for k, v := range local {
					c.classes[k] += v
					delete(local, k)
				}
				for _, h := range hashes {
					if len(c.distinct) < maxDistinct {
						c.distinct[h] = struct{}{}
					} else {
						c.distOver++
					}
				}
				hashes = hashes[:0]
				c.mu.Unlock()
				atomic.AddInt64(&c.evals, evals)
				evals = 0
			}
			defer flush()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if c.onlyGroup != "" && c.onlyIndex >= 0 && i != c.onlyIndex {
					continue
				}
				if i%64 == 0 && c.tooMany() {
					return
				}
				t := &T{c: c, Group: group, Index: i, classes: local, hashes: hashes, kept: &kept,
					R: newRand(hashStr(c.prop, group) ^ (c.seed * 0x9e3779b97f4a7c15) ^ (uint64(i)+1)*0xd6e8feb86659fd93)}
				runningCases.Store(wid, &running{time.Now(), fmt.Sprintf("group %s case %d", group, i)})
				func() {
					defer func() {
						if r := recover(); r != nil {
							st := trimStack(string(debug.Stack()))
							t.Failf("panic:"+stackSite(st), "unexpected panic: %v\n%s", r, st)
						}
					}()
					fn(t)
					if len(kept) > 0 && (c.onlyGroup != "" || i+2*workers >= n) {
						t.checkKept()
					}
				}()
				evals += t.evals
				hashes = t.hashes
				if len(hashes) > 4096 || len(t.failed) > 0 {
					flush()
				}
				if t.sample != "" || len(t.failed) > 0 {
					c.mu.Lock()
					if t.sample != "" && c.sampled[group] < 2 {
						c.sampled[group]++
						c.samples = append(c.samples, fmt.Sprintf("[%s #%d] %s", group, i, t.sample))
					}
					for _, v := range t.failed {
						c.addViolation(v)
					}
					c.mu.Unlock()
				}
			}
		}(w)
	}
	wg.Wait()
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "group %-28s n=%-7d %.2fs\n", group, n, time.Since(start).Seconds())
	}
}

// runApart runs a part of the cases on goroutines that do not synchronize with each
// other before they end, so that whatever memory two of them have in common is
// reported by the race detector however they happened to be scheduled.
// The verdicts of the cases are dropped: they belong to the property of the cases.
func (c *Ctx) runApart(group string, n int, fn func(t *T), workers int) {
	if workers < 2 {
		return // cases which use global state
	}
	workers = 8
	m := int(float64(n) * c.apart)
	if c.prop == "C03" && m > 1200 { // expensive cases
		m = 1200
	}
	if m < 64 {
		m = 64
	}
	if m > n {
		m = n
	}
	start := time.Now()
	evals := make([]int64, workers)
	var wg sync.WaitGroup
	wid := c.prop + " " + group
	runningCases.Store(wid, &running{start, "group " + wid})
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for k := w; k < m; k += workers {
				i := int(int64(k) * int64(n) / int64(m))
				t := &T{c: c, Group: group, Index: i, classes: map[string]int64{},
					R: newRand(hashStr(c.prop, group) ^ (c.seed * 0x9e3779b97f4a7c15) ^ (uint64(i)+1)*0xd6e8feb86659fd93)}
				func() {
					defer func() { _ = recover() }()
					fn(t)
				}()
				evals[w] += t.evals
			}
		}(w)
	}
	wg.Wait()
	runningCases.Delete(wid)
	for _, e := range evals {
		c.evals += e
	}
	c.classes["cases"] += int64(m)
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "apart %-5s %-28s n=%-7d %.2fs\n", c.prop, group, m, time.Since(start).Seconds())
	}
}

func (c *Ctx) addViolation(v violation) {
	if _, ok := c.known[v.Key]; ok {
		if _, seen := c.knownHit[v.Key]; !seen {
			c.knownHit[v.Key] = v
		}
		return
	}
	if len(c.viol) < 40 {
		c.viol = append(c.viol, v)
	}
}

// Need: the run is inconclusive unless class was observed at least min times.
func (c *Ctx) Need(class string, min int64) { c.needs = append(c.needs, need{class, min}) }
func (c *Ctx) Rule(s string)                { c.rule = append(c.rule, s) }
func (c *Ctx) Assume(s string)              { c.assume = append(c.assume, s) }

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 45 {
		lines = lines[:45]
	}
	return strings.Join(lines, "\n")
}

// stackSite names the first frame outside the runtime and the harness.
func stackSite(st string) string {
	seenPanic := false
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "GottfriedHerold/Bandersnatch") || strings.HasPrefix(l, "main.") {
			if i := strings.LastIndex(l, "/"); i >= 0 {
				l = l[i+1:]
			}
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "unknown"
}

type replayFile struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Group    string   `json:"group"`
	Index    int      `json:"case"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Inputs   []string `json:"inputs"`
	Command  string   `json:"replay_command"`
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", "  ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

// finish prints verdicts, writes evidence, and returns the exit status.
func (c *Ctx) finish(evidencePath, replayDir string, start time.Time) int {
	status := 0
	if c.onlyGroup == "" {
		for _, nd := range c.needs {
			if c.classes[nd.class] < nd.min {
				c.inconcl = append(c.inconcl, fmt.Sprintf("class %q observed %d times, need %d", nd.class, c.classes[nd.class], nd.min))
			}
		}
	}
	keys := make([]string, 0, len(c.knownHit))
	for k := range c.knownHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, c.known[k])
	}
	sort.SliceStable(c.viol, func(i, j int) bool {
		if c.viol[i].Group != c.viol[j].Group {
			return c.viol[i].Group < c.viol[j].Group
		}
		return c.viol[i].Index < c.viol[j].Index
	})
	seen := map[string]bool{}
	for _, v := range c.viol {
		if seen[v.Key] {
			continue
		}
		seen[v.Key] = true
		name := fmt.Sprintf("%s-%016x.json", c.prop, hashStr(v.Key, v.Group, fmt.Sprint(v.Index), fmt.Sprint(c.seed)))
		path := filepath.Join(replayDir, name)
		_ = os.MkdirAll(replayDir, 0o755)
		_ = writeJSON(path, replayFile{c.prop, c.seed, c.tier, v.Group, v.Index, v.Key, v.Msg, v.Notes,
			fmt.Sprintf("python3 check.py %s --replay %s", c.prop, path)})
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
		fmt.Printf("  key: %s (group %s, case %d)\n  %s\n", v.Key, v.Group, v.Index, strings.ReplaceAll(v.Msg, "\n", "\n  "))
		for _, n := range v.Notes {
			fmt.Printf("    %s\n", n)
		}
		status = 1
	}
	if status == 0 && len(c.inconcl) > 0 {
		for _, s := range c.inconcl {
			fmt.Printf("INCONCLUSIVE property=%s %s\n", c.prop, s)
		}
		status = 3
	}
	hist := map[string]int64{}
	for k, v := range c.classes {
		hist[k] = v
	}
	cov := map[string]interface{}{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                strings.Join(c.rule, " "),
		"samples":             c.samples,
		"observed_classes":    hist,
		"groups":              c.groups,
	}
	if c.distOver > 0 {
		cov["distinct_note"] = fmt.Sprintf("counting of distinct cases stopped at %d", maxDistinct)
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": c.level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(seen),
		"assumptions": c.assume,
	}
	if evidencePath != "" {
		if err := writeJSON(evidencePath, ev); err != nil {
			fmt.Println("cannot write evidence:", err)
			if status == 0 {
				status = 3
			}
		}
	}
	return status
}

func scaled(c *Ctx, n int) int {
	if c.scale != 1 {
		return int(float64(n) * c.scale)
	}
	return n
}
