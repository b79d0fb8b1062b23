// Package vk is the property-check framework: a rapid generator draws a plan (plain data), an
// executor runs it against veri and an oracle; failing plans are shrunk and saved for replay.
package vk

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	cache "github.com/bgokden/go-cache"
	"github.com/bgokden/veri/state"
	"pgregory.net/rapid"
)

// Ctx is handed to an executor; it records what the case did and how it failed.
type Ctx struct {
	T          *testing.T
	base       string
	dirs       int
	caseNo     int
	labels     map[string]bool
	nontrivial bool
	cleanups   []func()
	inBubble   bool
	wantLeak   bool
	Thorough   bool
}

type failure struct {
	Kind   string
	Detail string
}

// Failf reports a violation of the property. kind names the way it fails (stable while shrinking).
func (c *Ctx) Failf(kind string, format string, args ...any) {
	panic(failure{kind, fmt.Sprintf(format, args...)})
}

// Label classifies the case.
func (c *Ctx) Label(l string) { c.labels[l] = true }

// LabelIf classifies the case if cond holds.
func (c *Ctx) LabelIf(cond bool, l string) {
	if cond {
		c.labels[l] = true
	}
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// NonTrivialIf marks the case as non-trivial when cond holds.
func (c *Ctx) NonTrivialIf(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// Cleanup registers f to run (LIFO) when the case ends, inside the bubble, whether or not it failed.
func (c *Ctx) Cleanup(f func()) { c.cleanups = append(c.cleanups, f) }

// ExpectNoLeak makes goroutines left in the bubble after clean-up a violation.
func (c *Ctx) ExpectNoLeak() { c.wantLeak = true }

// Dir returns a fresh scratch directory, removed when the case ends.
func (c *Ctx) Dir() string {
	c.dirs++
	d := filepath.Join(c.base, fmt.Sprintf("case%d-%d", c.caseNo, c.dirs))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic("vk: scratch: " + err.Error())
	}
	return d
}

// Check is one sub-check of a property.
type Check struct {
	Name     string
	Quick    int // cases per run, all workers together
	Thorough int
	Bubble   bool
	Attempts int // how often a replay is tried (real concurrency), default 1
	slowLog  bool
	confirm  int
	gen      func(t *rapid.T) any
	run      func(c *Ctx, plan any)
	decode   func(b []byte) (any, error)
}

// Sub builds a sub-check from a plan generator and an executor.
func Sub[P any](name string, quick, thorough int, bubble bool, gen func(t *rapid.T) P, run func(c *Ctx, p P)) *Check {
	return &Check{
		Name: name, Quick: quick, Thorough: thorough, Bubble: bubble, Attempts: 1,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(c *Ctx, p any) { run(c, p.(P)) },
		decode: func(b []byte) (any, error) {
			var p P
			err := json.Unmarshal(b, &p)
			return p, err
		},
	}
}

// Retries sets how often a replay is attempted.
func (ch *Check) Retries(n int) *Check { ch.Attempts = n; return ch }

// Confirm makes a failure count only if one of n further executions of the same plan fails, too: for checks over the real
// network and clock, in which a busy machine could look like a failure once.
func (ch *Check) Confirm(n int) *Check { ch.confirm = n; return ch }

// SlowLog makes every log line of veri a point at which the goroutine may lose the processor for a while.
func (ch *Check) SlowLog() *Check { ch.slowLog = true; return ch }

type slowWriter struct {
	n      atomic.Uint32
	bubble bool
}

func (w *slowWriter) Write(b []byte) (int, error) {
	switch x := w.n.Add(1) * 2654435761 >> 20; {
	case x%3 == 1 && !w.bubble: // in a bubble, sleeping with the lock of the logger held would stop the clock
		time.Sleep(time.Duration(x%300) * time.Microsecond)
	case x%3 != 0:
		for i := uint32(0); i < x%20; i++ {
			runtime.Gosched()
		}
	}
	return len(b), nil
}

type subResult struct {
	Evaluations int               `json:"evaluations"`
	Skipped     int               `json:"skipped"`
	Hashes      []string          `json:"hashes"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
}

// Failure is a shrunk failing case.
type Failure struct {
	Sub    string          `json:"sub"`
	Kind   string          `json:"kind"`
	Detail string          `json:"detail"`
	Plan   json.RawMessage `json:"plan"`
}

type result struct {
	Subs     map[string]*subResult `json:"subs"`
	Failures []*Failure            `json:"failures"`
	Harness  string                `json:"harness_error,omitempty"`
	Done     bool                  `json:"done"`
}

// outcome of one execution
type outcome struct {
	fail    *failure
	harness string
}

type fakeTB struct {
	name   string
	failed bool
	msgs   []string
}

func (f *fakeTB) Helper()      {}
func (f *fakeTB) Name() string { return f.name }
func (f *fakeTB) Logf(format string, args ...any) {
	if len(f.msgs) < 50 {
		f.msgs = append(f.msgs, fmt.Sprintf(format, args...))
	}
}
func (f *fakeTB) Log(args ...any)                   { f.Logf("%s", fmt.Sprint(args...)) }
func (f *fakeTB) Skipf(format string, args ...any)  { panic("skip") }
func (f *fakeTB) Skip(args ...any)                  { panic("skip") }
func (f *fakeTB) SkipNow()                          { panic("skip") }
func (f *fakeTB) Errorf(format string, args ...any) { f.failed = true; f.Logf(format, args...) }
func (f *fakeTB) Error(args ...any)                 { f.failed = true; f.Log(args...) }
func (f *fakeTB) Fatalf(format string, args ...any) { f.Errorf(format, args...); panic(tbStop{}) }
func (f *fakeTB) Fatal(args ...any)                 { f.Error(args...); panic(tbStop{}) }
func (f *fakeTB) FailNow()                          { f.failed = true; panic(tbStop{}) }
func (f *fakeTB) Fail()                             { f.failed = true }
func (f *fakeTB) Failed() bool                      { return f.failed }

type tbStop struct{}

type runner struct {
	t        *testing.T
	scratch  string
	cur      *os.File
	res      *result
	thorough bool
	caseNo   int
	deadline time.Time
}

func classify(r any, stack string) outcome {
	if f, ok := r.(failure); ok {
		return outcome{fail: &f}
	}
	msg := fmt.Sprint(r)
	if inVeri(stack) {
		return outcome{fail: &failure{"panic", "panic in veri: " + msg + "\n" + trimStack(stack)}}
	}
	return outcome{harness: "harness panic: " + msg + "\n" + stack}
}

// inVeri: the frame that panicked (first non-runtime frame) or a caller below it belongs to veri.
func inVeri(stack string) bool {
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen {
			continue
		}
		if strings.HasPrefix(l, "github.com/bgokden/veri") {
			return true
		}
		if strings.HasPrefix(l, "vharness/") {
			return false
		}
	}
	return false
}

func trimStack(s string) string {
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func (r *runner) exec(ch *Check, plan any, raw []byte, c *Ctx) (out outcome) {
	h := fnv.New64a()
	h.Write(raw)
	rand.Seed(int64(h.Sum64()))
	state.Health, state.Ready, state.Drain = false, false, false
	if ch.slowLog {
		log.SetOutput(&slowWriter{bubble: ch.Bubble})
		defer log.SetOutput(io.Discard)
	}
	r.caseNo++
	c.base = r.scratch
	c.caseNo = r.caseNo
	c.Thorough = r.thorough
	c.labels = map[string]bool{}
	c.T = r.t
	c.inBubble = ch.Bubble
	defer func() {
		for i := 1; i <= c.dirs; i++ {
			os.RemoveAll(filepath.Join(c.base, fmt.Sprintf("case%d-%d", c.caseNo, i)))
		}
	}()
	body := func() {
		defer func() {
			if rec := recover(); rec != nil {
				out = classify(rec, string(debug.Stack()))
			}
		}()
		defer func() {
			rec := recover()
			var st string
			if rec != nil {
				st = string(debug.Stack())
			}
			for i := len(c.cleanups) - 1; i >= 0; i-- {
				func() {
					defer func() {
						if rec2 := recover(); rec2 != nil && rec == nil {
							rec, st = rec2, string(debug.Stack())
						}
					}()
					c.cleanups[i]()
				}()
			}
			if c.inBubble {
				time.Sleep(3 * time.Second) // virtual: lets Data.Run loops see Alive == false
			}
			cache.StopAll()
			if rec != nil {
				o := classify(rec, st)
				out = o
			}
		}()
		ch.run(c, plan)
	}
	if !ch.Bubble {
		body()
		return out
	}
	func() {
		defer func() {
			if rec := recover(); rec != nil {
				msg := fmt.Sprint(rec)
				if out.fail != nil || out.harness != "" {
					return
				}
				if strings.Contains(msg, "deadlock") {
					if strings.Contains(msg, "main bubble goroutine has exited") {
						if c.wantLeak {
							out = outcome{fail: &failure{"goroutine-leak", "goroutines remain blocked after the case: " + msg}}
						} else {
							c.labels["leaked-goroutine"] = true
						}
					} else {
						out = outcome{fail: &failure{"deadlock", msg}}
					}
					return
				}
				out = classify(rec, string(debug.Stack()))
			}
		}()
		synctest.Test(r.t, func(bt *testing.T) {
			c.T = bt
			body()
		})
	}()
	return out
}

func (r *runner) writeCur(ch *Check, raw []byte) {
	if r.cur == nil {
		return
	}
	b := fmt.Sprintf("%d %s\n", len(raw), ch.Name)
	buf := append([]byte(b), raw...)
	r.cur.WriteAt(buf, 0)
}

func (r *runner) idle() {
	if r.cur != nil {
		r.cur.WriteAt([]byte("0 -\n"), 0)
	}
}

func (r *runner) runOne(ch *Check, plan any, sr *subResult, seen map[string]bool) outcome {
	raw, err := json.Marshal(plan)
	if err != nil {
		return outcome{harness: "plan does not marshal: " + err.Error()}
	}
	r.writeCur(ch, raw)
	c := &Ctx{}
	out := r.exec(ch, plan, raw, c)
	if out.fail != nil && ch.confirm > 0 {
		confirmed := false
		for i := 0; i < ch.confirm && !confirmed; i++ {
			again := r.exec(ch, plan, raw, &Ctx{})
			confirmed = again.fail != nil
		}
		if !confirmed {
			out = outcome{}
			c.labels["unconfirmed"] = true
		}
	}
	r.idle()
	if sr != nil {
		sr.Evaluations++
		for l := range c.labels {
			sr.Labels[l]++
		}
		if c.nontrivial {
			h := fnv.New64a()
			h.Write(raw)
			k := strconv.FormatUint(h.Sum64(), 36)
			if !seen[k] {
				seen[k] = true
				if len(sr.Samples) < 3 && len(raw) < 6000 {
					sr.Samples = append(sr.Samples, raw)
				}
			}
		}
	}
	return out
}

func (r *runner) check(ch *Check, n int, seed uint64) {
	sr := &subResult{Labels: map[string]int{}}
	r.res.Subs[ch.Name] = sr
	seen := map[string]bool{}
	defer func() {
		for k := range seen {
			sr.Hashes = append(sr.Hashes, k)
		}
		sort.Strings(sr.Hashes)
	}()
	if n <= 0 {
		return
	}
	if seed == 0 {
		seed = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "15s")
	if r.thorough {
		flag.Set("rapid.shrinktime", "60s")
	}
	var last *Failure
	var harness string
	var firstFail time.Time
	tb := &fakeTB{name: ch.Name}
	func() {
		defer func() {
			if rec := recover(); rec != nil {
				if _, ok := rec.(tbStop); !ok {
					harness = "rapid: " + fmt.Sprint(rec) + "\n" + string(debug.Stack())
				}
			}
		}()
		rapid.Check(tb, func(rt *rapid.T) {
			if last == nil && time.Now().After(r.deadline) {
				sr.Skipped++
				return
			}
			if last != nil && time.Since(firstFail) > 150*time.Second {
				return // shrinking takes too long; keep what we have
			}
			plan := ch.gen(rt)
			out := r.runOne(ch, plan, sr, seen)
			if out.harness != "" {
				harness = out.harness
				rt.Fatalf("harness")
			}
			if out.fail != nil {
				raw, _ := json.Marshal(plan)
				if last == nil || last.Kind == out.fail.Kind {
					if last == nil {
						firstFail = time.Now()
					}
					last = &Failure{Sub: ch.Name, Kind: out.fail.Kind, Detail: out.fail.Detail, Plan: raw}
					r.save()
				}
				rt.Fatalf("%s", out.fail.Kind)
			}
		})
	}()
	if harness != "" {
		r.res.Harness += ch.Name + ": " + harness + "\n"
		return
	}
	if last != nil {
		r.res.Failures = append(r.res.Failures, last)
		return
	}
	if tb.failed {
		r.res.Harness += ch.Name + ": rapid: " + strings.Join(tb.msgs, "; ") + "\n"
	}
}

func (r *runner) save() {
	out := os.Getenv("VK_OUT")
	if out == "" {
		return
	}
	b, _ := json.Marshal(r.res)
	os.WriteFile(out+".tmp", b, 0o644)
	os.Rename(out+".tmp", out)
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Main runs the sub-checks as told by the environment (see check.py).
func Main(t *testing.T, checks ...*Check) {
	log.SetOutput(io.Discard)
	scratch := os.Getenv("VK_SCRATCH")
	if scratch == "" {
		scratch = t.TempDir()
	}
	r := &runner{t: t, scratch: scratch, res: &result{Subs: map[string]*subResult{}}}
	if f, err := os.OpenFile(filepath.Join(scratch, "cur.json"), os.O_CREATE|os.O_RDWR, 0o644); err == nil {
		r.cur = f
		r.idle()
	}
	r.thorough = os.Getenv("VK_TIER") == "thorough"
	r.deadline = time.Now().Add(time.Duration(envInt("VK_BUDGET", 60)) * time.Second)
	if f := os.Getenv("VK_REPLAY"); f != "" {
		r.replay(checks, f)
		r.res.Done = true
		r.save()
		return
	}
	workers := envInt("VK_WORKERS", 1)
	worker := envInt("VK_WORKER", 0)
	seed := uint64(envInt("VK_SEED", 1))
	only := os.Getenv("VK_SUB")
	if worker == 0 {
		r.corpus(checks)
	}
	final := r.deadline
	for i, ch := range checks {
		if only != "" && only != ch.Name {
			continue
		}
		// sub-checks share the remaining time budget evenly
		r.deadline = time.Now().Add(time.Until(final) / time.Duration(len(checks)-i))
		n := ch.Quick
		if r.thorough {
			n = ch.Thorough
		}
		mine := n / workers
		if worker < n%workers {
			mine++
		}
		r.check(ch, mine, (seed*1000003+uint64(worker))*1009+uint64(i)+1)
		r.save()
	}
	r.res.Done = true
	r.save()
	for _, f := range r.res.Failures {
		t.Logf("FAIL %s/%s: %s\n%s", f.Sub, f.Kind, f.Detail, string(f.Plan))
	}
	if r.res.Harness != "" {
		t.Logf("HARNESS %s", r.res.Harness)
	}
	if os.Getenv("VK_OUT") == "" {
		b, _ := json.Marshal(r.res.Subs)
		if len(b) > 3000 {
			b = b[:3000]
		}
		for n, s := range r.res.Subs {
			t.Logf("%s: evals=%d skipped=%d nontrivial=%d labels=%v", n, s.Evaluations, s.Skipped, len(s.Hashes), s.Labels)
		}
		if len(r.res.Failures) > 0 || r.res.Harness != "" {
			t.Fail()
		}
	}
}

// corpus replays the committed plans of past findings (corpus/*.json next to the package).
func (r *runner) corpus(checks []*Check) {
	dir := os.Getenv("VK_CORPUS")
	if dir == "" {
		return
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.json"))
	sort.Strings(files)
	for _, f := range files {
		r.replay(checks, f)
	}
}

func (r *runner) replay(checks []*Check, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		r.res.Harness += err.Error()
		return
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		r.res.Harness += err.Error()
		return
	}
	for _, ch := range checks {
		if ch.Name != f.Sub {
			continue
		}
		sr := r.res.Subs["corpus"]
		if sr == nil {
			sr = &subResult{Labels: map[string]int{}}
			r.res.Subs["corpus"] = sr
		}
		for i := 0; i < ch.Attempts; i++ {
			plan, err := ch.decode(f.Plan)
			if err != nil {
				r.res.Harness += file + ": " + err.Error()
				return
			}
			out := r.runOne(ch, plan, sr, map[string]bool{})
			if out.harness != "" {
				r.res.Harness += out.harness
				return
			}
			if out.fail != nil {
				raw, _ := json.Marshal(plan)
				r.res.Failures = append(r.res.Failures, &Failure{Sub: ch.Name, Kind: out.fail.Kind, Detail: out.fail.Detail, Plan: raw})
				return
			}
		}
		return
	}
	r.res.Harness += "no sub-check " + f.Sub
}
