// Package verifkit is the recorder shared by every monitor in /verif. It is
// compiled into the tree under test through a go overlay; nothing of it lives
// in /repo.
package verifkit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// Run collects what one monitor observed.
type Run struct {
	T    *testing.T
	Prop string
	Name string
	Seed int64
	Tier string

	mu           sync.Mutex
	evals        int64
	distinct     map[uint64]struct{}
	counters     map[string]int64
	samples      []interface{}
	sampleEvery  int64
	violations   []Violation
	inconclusive []string
	known        map[string]int64
	minEvals     int64
	start        time.Time
	recorded     map[string]bool
	finished     bool
}

// Violation is a witness.
type Violation struct {
	Kind   string      `json:"kind"`
	Detail string      `json:"detail"`
	Replay interface{} `json:"replay"`
}

type result struct {
	Property     string           `json:"property"`
	Monitor      string           `json:"monitor"`
	Evaluations  int64            `json:"evaluations"`
	Distinct     int64            `json:"distinct"`
	Counters     map[string]int64 `json:"counters"`
	Samples      []interface{}    `json:"samples"`
	Violations   []Violation      `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	Known        map[string]int64 `json:"known"`
	MinEvals     int64            `json:"min_evaluations"`
	WallS        float64          `json:"wall_s"`
}

// Start begins a monitor run. name must be unique within the property.
func Start(t *testing.T, prop, name string) *Run {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	return &Run{T: t, Prop: prop, Name: name, Seed: seed, Tier: tier,
		distinct: make(map[uint64]struct{}), counters: make(map[string]int64),
		known: make(map[string]int64), start: time.Now()}
}

// Thorough tells whether the deep tier is running.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks a workload size by tier.
func (r *Run) N(quick, thorough int) int {
	n := quick
	if r.Thorough() {
		n = thorough
	}
	if d, _ := strconv.Atoi(os.Getenv("VERIF_DIV")); d > 1 { // under the race detector, for another property
		if n /= d; n < 1 {
			n = 1
		}
	}
	return n
}

// Rand returns the generator of case i: the whole case is determined by
// (property, monitor, seed, i).
func (r *Run) Rand(i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d", r.Prop, r.Name, r.Seed, i)
	return rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
}

// Eval records one judged execution. key identifies it; nontrivial says
// whether it counts as a distinct non-trivial one.
func (r *Run) Eval(key string, nontrivial bool) {
	h := fnv.New64a()
	h.Write([]byte(key))
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if nontrivial {
		r.distinct[h.Sum64()] = struct{}{}
	}
}

// Evals returns the number of evaluations so far.
func (r *Run) Evals() int64 { r.mu.Lock(); defer r.mu.Unlock(); return r.evals }

// Count adds to a named counter of observed events.
func (r *Run) Count(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Max keeps the maximum of a named gauge.
func (r *Run) Max(name string, n int64) {
	r.mu.Lock()
	if r.counters[name] < n {
		r.counters[name] = n
	}
	r.mu.Unlock()
}

// Counter reads a counter.
func (r *Run) Counter(name string) int64 { r.mu.Lock(); defer r.mu.Unlock(); return r.counters[name] }

// Sample keeps a few written-out cases.
func (r *Run) Sample(v interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 4 {
		r.samples = append(r.samples, v)
	}
}

// Violation records a refutation.
func (r *Run) Violation(kind, detail string, replay interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.violations) < 20 {
		r.violations = append(r.violations, Violation{Kind: kind, Detail: detail, Replay: replay})
	}
	if r.counters["violations_total"]++; r.counters["violations_total"] == 1 {
		r.T.Logf("VIOLATION-RECORDED %s/%s: %s: %s", r.Prop, r.Name, kind, detail)
	}
}

// Recorded records a refutation which known_findings.jsonl may list: the run goes on, and one of a kind is enough.
func (r *Run) Recorded(kind, detail string, replay interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.recorded[kind] {
		return
	}
	if r.recorded == nil {
		r.recorded = map[string]bool{}
	}
	r.recorded[kind] = true
	r.violations = append(r.violations, Violation{Kind: kind, Detail: detail, Replay: replay})
}

// Failed tells whether a violation was recorded.
func (r *Run) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violations) > len(r.recorded)
}

// Inconclusive records that the run cannot be judged.
func (r *Run) Inconclusive(msg string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.inconclusive) < 20 {
		r.inconclusive = append(r.inconclusive, msg)
	}
	r.T.Logf("INCONCLUSIVE %s/%s: %s", r.Prop, r.Name, msg)
}

// Require makes the run inconclusive when fewer than n evaluations or events
// named counter (empty: evaluations) were observed.
func (r *Run) Require(counter string, n int64) {
	v := r.Evals()
	if counter != "" {
		v = r.Counter(counter)
	}
	if v < n {
		r.Inconclusive(fmt.Sprintf("observed only %d %s, need %d", v, counter, n))
	}
}

// Finish writes the result. Always deferred.
func (r *Run) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.finished {
		return
	}
	r.finished = true
	res := result{Property: r.Prop, Monitor: r.Name, Evaluations: r.evals, Distinct: int64(len(r.distinct)),
		Counters: r.counters, Samples: r.samples, Violations: r.violations, Inconclusive: r.inconclusive,
		Known: r.known, WallS: time.Since(r.start).Seconds()}
	if res.Samples == nil {
		res.Samples = []interface{}{}
	}
	dir := os.Getenv("VERIF_OUT")
	if dir == "" {
		r.T.Logf("%+v", res)
		return
	}
	b, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		for i := range res.Violations {
			res.Violations[i].Replay = fmt.Sprintf("%+v", res.Violations[i].Replay)
		}
		for i := range res.Samples {
			res.Samples[i] = fmt.Sprintf("%+v", res.Samples[i])
		}
		b, err = json.MarshalIndent(res, "", " ")
	}
	if err == nil {
		err = ioutil.WriteFile(filepath.Join(dir, r.Prop+"-"+r.Name+"-"+os.Getenv("VERIF_JOB")+".json"), b, 0644)
	}
	if err != nil {
		r.T.Fatalf("verifkit: cannot write result: %v", err)
	}
}

// Verdict of Bounded.
type Verdict int

// Results of Bounded.
const (
	Completed Verdict = iota
	Panicked
	Stuck
	Unknown
)

// StuckReport describes a call that did not come back.
type StuckReport struct {
	Panic  string `json:"panic,omitempty"`
	Stacks string `json:"stacks,omitempty"`
}

// Bounded runs f in its own goroutine. It returns Panicked with the stack if f
// panics, and Stuck only if f has not come back after the (very generous)
// patience AND its goroutine is seen parked on a lock, channel, wait group or
// condition at the same place in every one of several looks. Anything else
// that does not come back is Unknown (inconclusive).
func Bounded(patience time.Duration, f func()) (Verdict, StuckReport) {
	done := make(chan string, 1)
	var gid string
	ready := make(chan struct{})
	go func() {
		gid = goid()
		close(ready)
		defer func() {
			if e := recover(); e != nil {
				buf := make([]byte, 1<<16)
				done <- fmt.Sprintf("%v\n%s", e, buf[:runtime.Stack(buf, false)])
				return
			}
			done <- ""
		}()
		f()
	}()
	<-ready
	timer := time.NewTimer(patience)
	defer timer.Stop()
	select {
	case p := <-done:
		if p != "" {
			return Panicked, StuckReport{Panic: p}
		}
		return Completed, StuckReport{}
	case <-timer.C:
	}
	first := ""
	for look := 0; look < 6; look++ {
		st := Goroutines()[gid]
		if st == "" {
			break
		}
		head := st
		if i := strings.Index(st, "\n"); i >= 0 {
			head = st[:i]
		}
		if !parked(head) {
			return Unknown, StuckReport{Stacks: AllStacks()}
		}
		body := strings.SplitN(st, "\n", 2)[1]
		if first == "" {
			first = body
		} else if first != body {
			return Unknown, StuckReport{Stacks: AllStacks()}
		}
		select {
		case p := <-done:
			if p != "" {
				return Panicked, StuckReport{Panic: p}
			}
			return Completed, StuckReport{}
		case <-time.After(300 * time.Millisecond):
		}
	}
	return Stuck, StuckReport{Stacks: AllStacks()}
}

func parked(head string) bool {
	for _, s := range []string{"chan receive", "chan send", "semacquire", "sync.Mutex", "sync.RWMutex", "sync.Cond", "sync.WaitGroup", "select", "IO wait"} {
		if strings.Contains(head, "["+s) {
			return true
		}
	}
	return false
}

func goid() string {
	buf := make([]byte, 64)
	buf = buf[:runtime.Stack(buf, false)]
	f := strings.Fields(string(buf))
	return f[1]
}

// AllStacks dumps every goroutine.
func AllStacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// Goroutines returns the dump by goroutine id.
func Goroutines() map[string]string {
	r := make(map[string]string)
	for _, g := range strings.Split(AllStacks(), "\n\n") {
		f := strings.Fields(g)
		if len(f) > 1 && f[0] == "goroutine" {
			r[f[1]] = g
		}
	}
	return r
}

// Catch runs f and returns the panic it raised ("" if none).
func Catch(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 1<<14)
			p = fmt.Sprintf("%v\n%s", e, buf[:runtime.Stack(buf, false)])
		}
	}()
	f()
	return ""
}

// Short cuts a string for reports.
func Short(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(+%d bytes)", len(s)-n)
	}
	return s
}

// SortedKeys of a counter map.
func SortedKeys(m map[string]int64) []string {
	k := make([]string, 0, len(m))
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// Eventually polls cond until it is true or patience ran out.
func Eventually(patience time.Duration, cond func() bool) bool {
	deadline := time.Now().Add(patience)
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if time.Now().After(deadline) {
			return cond()
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
}
