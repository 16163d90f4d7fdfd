package playback

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/verifkit"
)

type c06Op struct {
	Kind  string `json:"op"` // add, insert, remove, songs
	Song  string `json:"song,omitempty"`
	Index int    `json:"index,omitempty"`
}

func c06Clip(i, n int) int {
	if i < 0 {
		return 0
	}
	if i > n {
		return n
	}
	return i
}

// c06Step is the specification: a list of songs with clipped indices.
func c06Step(state string, in, out interface{}) (bool, string) {
	var l []string
	if state != "" {
		l = strings.Split(state, "/")
	}
	op := in.(c06Op)
	switch op.Kind {
	case "add":
		l = append(append([]string{}, l...), op.Song)
	case "insert":
		i := c06Clip(op.Index, len(l))
		n := append([]string{}, l[:i]...)
		n = append(n, op.Song)
		l = append(n, l[i:]...)
	case "remove":
		removed := ""
		if len(l) > 0 {
			i := c06Clip(op.Index, len(l)-1)
			removed = l[i]
			l = append(append([]string{}, l[:i]...), l[i+1:]...)
		}
		if out != nil && out.(string) != removed {
			return false, state
		}
	case "songs":
		if out != nil && out.(string) != strings.Join(l, "/") {
			return false, state
		}
	}
	return true, strings.Join(l, "/")
}

func c06Do(pl *Playlist, op c06Op) interface{} {
	switch op.Kind {
	case "add":
		pl.AddSong(op.Song)
		return ""
	case "insert":
		pl.InsertSong(op.Song, op.Index)
		return ""
	case "remove":
		return pl.RemoveSong(op.Index)
	}
	return strings.Join(pl.Songs(), "/")
}

func c06RandOp(rng *rand.Rand, id *int, hint int) c06Op {
	idx := func() int {
		switch rng.Intn(12) {
		case 0:
			return math.MinInt32 - rng.Intn(10)
		case 1:
			return math.MaxInt32 + rng.Intn(10)
		case 2:
			return -1 - rng.Intn(3)
		case 3:
			return math.MaxInt64
		case 4:
			return math.MinInt64
		}
		return rng.Intn(hint + 3)
	}
	*id++
	switch rng.Intn(8) {
	case 0, 1:
		return c06Op{Kind: "add", Song: fmt.Sprintf("s%d", *id)}
	case 2, 3, 4:
		return c06Op{Kind: "insert", Song: fmt.Sprintf("s%d", *id), Index: idx()}
	case 5, 6:
		return c06Op{Kind: "remove", Index: idx()}
	}
	return c06Op{Kind: "songs"}
}

// Sequential histories against the model, every step followed by a listing.
func TestVerif_C06_seq(t *testing.T) {
	r := verifkit.Start(t, "C06", "sequential")
	defer r.Finish()
	for c := 0; c < r.N(400, 4000) && !r.Failed(); c++ {
		rng := r.Rand(c)
		id := 0
		n0 := rng.Intn(5)
		init := make([]string, 0, n0+rng.Intn(4))
		for i := 0; i < n0; i++ {
			init = append(init, fmt.Sprintf("i%d", i))
		}
		pl := NewPlaylist(16, init, 0)
		st := strings.Join(init, "/")
		var hist []c06Op
		for k := 0; k < 60; k++ {
			n := 0
			if st != "" {
				n = strings.Count(st, "/") + 1
			}
			op := c06RandOp(rng, &id, n)
			hist = append(hist, op)
			var out interface{}
			if p := verifkit.Catch(func() { out = c06Do(pl, op) }); p != "" {
				r.Violation("panic", fmt.Sprintf("%+v on list [%s] panicked: %s", op, st, p), hist)
				return
			}
			ok, ns := c06Step(st, op, out)
			r.Count("op_"+op.Kind, 1)
			if !ok {
				r.Violation("wrong-result", fmt.Sprintf("%+v on list [%s] returned %v", op, st, out), hist)
				return
			}
			st = ns
			got := strings.Join(pl.Songs(), "/")
			if got != st {
				r.Violation("wrong-list", fmt.Sprintf("after %+v the list is [%s], want [%s]", op, got, st), hist)
				return
			}
			// a listing is a snapshot: writing to it must not reach the playlist
			l := pl.Songs()
			for i := range l {
				l[i] = "scribble"
			}
			if got := strings.Join(pl.Songs(), "/"); got != st {
				r.Violation("aliased-list", fmt.Sprintf("writing to a returned listing changed the playlist to [%s]", got), hist)
				return
			}
			r.Eval(fmt.Sprintf("%d|%+v", n, op), op.Kind != "songs")
		}
		if c < 2 {
			r.Sample(hist[:8])
		}
	}
	r.Require("", 5000)
}

// Concurrent short histories, checked for linearizability.
func TestVerif_C06_lin(t *testing.T) {
	r := verifkit.Start(t, "C06", "linearizable")
	defer r.Finish()
	for c := 0; c < r.N(4000, 40000) && !r.Failed(); c++ {
		rng := r.Rand(c)
		id := 0
		n0 := rng.Intn(4)
		var init []string
		for i := 0; i < n0; i++ {
			init = append(init, fmt.Sprintf("i%d", i))
		}
		pl := NewPlaylist(16, append([]string{}, init...), 0)
		var clk verifkit.Clock
		procs := 2 + rng.Intn(3)
		per := 2 + rng.Intn(3)
		plan := make([][]c06Op, procs)
		for p := range plan {
			for k := 0; k < per; k++ {
				plan[p] = append(plan[p], c06RandOp(rng, &id, 3))
			}
		}
		hist := make([][]verifkit.LinOp, procs)
		var bar int32
		v, rep := verifkit.Bounded(60*time.Second, func() {
			var wg sync.WaitGroup
			for p := 0; p < procs; p++ {
				wg.Add(1)
				go func(p int) {
					defer wg.Done()
					atomic.AddInt32(&bar, 1)
					for atomic.LoadInt32(&bar) < int32(procs) {
						runtime.Gosched()
					}
					for _, op := range plan[p] {
						call := clk.Tick()
						out := c06Do(pl, op)
						hist[p] = append(hist[p], verifkit.LinOp{Client: p, In: op, Out: out, Call: call, Ret: clk.Tick()})
					}
				}(p)
			}
			wg.Wait()
		})
		if v == verifkit.Stuck {
			r.Violation("stuck", "concurrent playlist edits never returned", rep)
			return
		} else if v != verifkit.Completed {
			r.Inconclusive(fmt.Sprintf("workload did not complete: %v", v))
			return
		}
		var ops []verifkit.LinOp
		overlap := 0
		for p := range hist {
			ops = append(ops, hist[p]...)
		}
		for _, a := range ops {
			for _, b := range ops {
				if a.Client < b.Client && a.Call < b.Ret && b.Call < a.Ret {
					overlap++
				}
			}
		}
		ops = append(ops, verifkit.LinOp{Client: 99, In: c06Op{Kind: "songs"}, Out: strings.Join(pl.Songs(), "/"), Call: clk.Tick(), Ret: clk.Tick()})
		r.Count("overlapping_pairs", int64(overlap))
		switch verifkit.Linearize(ops, strings.Join(init, "/"), c06Step, 400000) {
		case verifkit.LinIllegal:
			r.Violation("not-linearizable", "no sequential order of these playlist calls explains their results", map[string]interface{}{"initial": init, "history": ops})
			return
		case verifkit.LinUnknown:
			r.Count("checker_gave_up", 1)
		}
		r.Eval(fmt.Sprintf("%v|%d", plan, overlap), overlap > 0)
		if overlap > 0 {
			r.Sample(ops)
		}
	}
	r.Require("overlapping_pairs", 50)
}

// Long contended runs: nothing lost, nothing doubled.
func TestVerif_C06_conserve(t *testing.T) {
	r := verifkit.Start(t, "C06", "conservation")
	defer r.Finish()
	for c := 0; c < r.N(40, 300) && !r.Failed(); c++ {
		pl := NewPlaylist(16, []string{}, 0)
		const procs = 8
		per := 300
		removed := make([][]string, procs)
		added := make([][]string, procs)
		var order = make([][]string, procs)
		v, rep := verifkit.Bounded(60*time.Second, func() {
			var wg sync.WaitGroup
			for p := 0; p < procs; p++ {
				wg.Add(1)
				go func(p int) {
					defer wg.Done()
					rng := r.Rand(c*100 + p)
					for k := 0; k < per; k++ {
						switch rng.Intn(5) {
						case 0, 1:
							s := fmt.Sprintf("p%d-%d", p, k)
							added[p] = append(added[p], s)
							pl.AddSong(s)
						case 2:
							s := fmt.Sprintf("p%d-%d", p, k)
							added[p] = append(added[p], s)
							pl.InsertSong(s, rng.Intn(40)-4)
						case 3:
							if x := pl.RemoveSong(rng.Intn(60) - 4); x != "" {
								removed[p] = append(removed[p], x)
							}
						case 4:
							l := pl.Songs()
							order[p] = l
							seen := map[string]bool{}
							for _, s := range l {
								if s == "" || seen[s] {
									r.Violation("torn-listing", fmt.Sprintf("a listing shows %q twice or empty", s), l)
								}
								seen[s] = true
							}
						}
					}
				}(p)
			}
			wg.Wait()
		})
		if v == verifkit.Stuck {
			r.Violation("stuck", "concurrent playlist edits never returned", rep)
			return
		} else if v != verifkit.Completed {
			r.Inconclusive(fmt.Sprintf("workload did not complete: %v", v))
			return
		}
		count := map[string]int{}
		nAdd, nRem := 0, 0
		for p := range added {
			for _, s := range added[p] {
				count[s]++
				nAdd++
			}
			for _, s := range removed[p] {
				count[s]--
				nRem++
			}
		}
		left := pl.Songs()
		for _, s := range left {
			count[s]--
		}
		for s, n := range count {
			if n != 0 {
				r.Violation("not-conserved", fmt.Sprintf("song %q: added minus removed minus left = %d (added %d, removed %d, left %d)", s, n, nAdd, nRem, len(left)), left)
				return
			}
		}
		r.Count("added", int64(nAdd))
		r.Count("removed", int64(nRem))
		r.Eval(fmt.Sprintf("%d/%d/%d", nAdd, nRem, len(left)), true)
	}
	r.Require("added", 1000)
}
