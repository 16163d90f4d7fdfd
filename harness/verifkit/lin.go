package verifkit

import (
	"strconv"
	"sync/atomic"
)

// LinOp is one completed (or pending) call in a history. Call and Ret come
// from one Clock.
type LinOp struct {
	Client  int         `json:"client"`
	In      interface{} `json:"in"`
	Out     interface{} `json:"out"`
	Call    int64       `json:"call"`
	Ret     int64       `json:"ret"`
	Pending bool        `json:"pending,omitempty"`
}

// Clock is a logical clock consistent with real time order.
type Clock struct{ n int64 }

// Tick returns the next instant.
func (c *Clock) Tick() int64 { return atomic.AddInt64(&c.n, 1) }

// LinResult of Linearize.
type LinResult int

// Verdicts of Linearize.
const (
	LinOK LinResult = iota
	LinIllegal
	LinUnknown
)

// Linearize searches for a legal sequential order (Wing and Gong, with
// memoization on (done set, state)). step must be deterministic; for a pending
// op it is called with out == nil and must accept. Histories up to 62 ops.
func Linearize(ops []LinOp, init string, step func(state string, in, out interface{}) (bool, string), budget int) LinResult {
	if len(ops) > 62 {
		return LinUnknown
	}
	seen := make(map[string]struct{})
	var need uint64
	for i, o := range ops {
		if !o.Pending {
			need |= 1 << uint(i)
		}
	}
	nodes := 0
	over := false
	var dfs func(done uint64, st string) bool
	dfs = func(done uint64, st string) bool {
		if done&need == need {
			return true
		}
		key := strconv.FormatUint(done, 36) + "|" + st
		if _, ok := seen[key]; ok {
			return false
		}
		seen[key] = struct{}{}
		if nodes++; nodes > budget {
			over = true
			return false
		}
		// the earliest return among the ops not yet linearized bounds the candidates
		min := int64(1<<62 - 1)
		for i, o := range ops {
			if done&(1<<uint(i)) == 0 && !o.Pending && o.Ret < min {
				min = o.Ret
			}
		}
		for i, o := range ops {
			if done&(1<<uint(i)) != 0 || o.Call > min {
				continue
			}
			out := o.Out
			if o.Pending {
				out = nil
			}
			if ok, ns := step(st, o.In, out); ok {
				if dfs(done|1<<uint(i), ns) {
					return true
				}
			}
		}
		return false
	}
	if dfs(0, init) {
		return LinOK
	}
	if over {
		return LinUnknown
	}
	return LinIllegal
}
