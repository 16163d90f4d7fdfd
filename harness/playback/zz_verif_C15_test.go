package playback

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/verifkit"
)

type c15Item struct {
	s [2]float64
	t int64
}

func c15Make(id int) c15Item {
	return c15Item{[2]float64{float64(id), -float64(id) - .5}, int64(id)*7 + 3}
}

// c15Id returns which item this is, -1 if it is none that was made
func c15Id(s [2]float64, t int64) int {
	id := int(s[0])
	if id < 0 || c15Make(id) != (c15Item{s, t}) {
		return -1
	}
	return id
}

// alone: exactly a bounded list
func TestVerif_C15_model(t *testing.T) {
	r := verifkit.Start(t, "C15", "fifo-model")
	defer r.Finish()
	for i := 0; i < r.N(3000, 60000); i++ {
		rng := r.Rand(i)
		size := []int{1, 1, 2, 3, 4, 5, 7, 8, 16, 100}[rng.Intn(10)]
		q := newTimedSampleQueue(size)
		var model []int
		next := 0
		var trace []string
		fail := func(f string, a ...interface{}) {
			r.Violation("not-a-fifo", fmt.Sprintf("queue of %d after %s: ", size, strings.Join(trace, " "))+fmt.Sprintf(f, a...), trace)
		}
		bias := rng.Intn(3)
		for k := 0; k < 6*size+20; k++ {
			op := rng.Intn(4)
			if bias == 0 && rng.Intn(2) == 0 {
				op = 0
			} else if bias == 1 && rng.Intn(2) == 0 {
				op = 1
			}
			v := verifkit.Completed
			switch {
			case op == 0 && len(model) < size:
				it := c15Make(next)
				trace = append(trace, fmt.Sprint("add", next))
				v, _ = verifkit.Bounded(60*time.Second, func() { q.Add(it.s, it.t) })
				model = append(model, next)
				next++
			case op == 1 && len(model) > 0:
				trace = append(trace, "remove")
				var s [2]float64
				var tm int64
				v, _ = verifkit.Bounded(60*time.Second, func() { s, tm = q.Remove() })
				if v == verifkit.Completed && c15Id(s, tm) != model[0] {
					fail("removed %v at %d instead of item %d", s, tm, model[0])
					return
				}
				model = model[1:]
			case op == 2 && len(model) > 0:
				trace = append(trace, "peek")
				var s [2]float64
				var tm int64
				v, _ = verifkit.Bounded(60*time.Second, func() { s, tm = q.Peek() })
				if v == verifkit.Completed && c15Id(s, tm) != model[0] {
					fail("peeked %v at %d instead of item %d", s, tm, model[0])
					return
				}
			}
			if v == verifkit.Stuck {
				fail("the last call waits though the queue holds %d of %d", len(model), size)
				return
			} else if v != verifkit.Completed {
				r.Inconclusive("a call on the queue did not return")
				return
			}
			if l := q.Len(); l != len(model) || q.Cap() != size {
				fail("length %d of %d reported, it is %d of %d", l, q.Cap(), len(model), size)
				return
			}
		}
		r.Count("operations", int64(len(trace)))
		r.Eval(strings.Join(trace, " "), next > size)
	}
}

// many at once: nothing lost, doubled, torn or reordered; nobody waits who could go on
func TestVerif_C15_concurrent(t *testing.T) {
	r := verifkit.Start(t, "C15", "concurrent")
	defer r.Finish()
	for i := 0; i < r.N(500, 10000); i++ {
		rng := r.Rand(i)
		size := []int{1, 1, 2, 3, 5, 16}[rng.Intn(6)]
		prods, cons := 1+rng.Intn(4), 1+rng.Intn(4)
		per := 20 + rng.Intn(200)
		total := prods * per
		q := newTimedSampleQueue(size)
		runtime.GOMAXPROCS([]int{1, 2, 4, 8}[rng.Intn(4)])
		slow := rng.Intn(4)
		got := make([][]int, cons)
		var bad atomic.Value
		var taken int64
		var wg sync.WaitGroup
		work := make(chan struct{}, total)
		for k := 0; k < total; k++ {
			work <- struct{}{}
		}
		close(work)
		for p := 0; p < prods; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				for k := 0; k < per; k++ {
					it := c15Make(k*prods + p)
					q.Add(it.s, it.t)
					if slow == 1 && k%7 == 0 {
						runtime.Gosched()
					}
				}
			}(p)
		}
		for c := 0; c < cons; c++ {
			wg.Add(1)
			go func(c int) {
				defer wg.Done()
				for range work {
					if slow == 3 && c == 0 { // peeking in between takes nothing
						if s, tm := q.Peek(); c15Id(s, tm) < 0 {
							bad.Store(fmt.Sprintf("peeked %v at %d, which was never added", s, tm))
						}
					}
					s, tm := q.Remove()
					id := c15Id(s, tm)
					if id < 0 || id >= total {
						bad.Store(fmt.Sprintf("removed %v at %d, which was never added", s, tm))
					}
					got[c] = append(got[c], id)
					atomic.AddInt64(&taken, 1)
					if slow == 2 && len(got[c])%5 == 0 {
						runtime.Gosched()
					}
				}
			}(c)
		}
		stop := make(chan struct{})
		var lw sync.WaitGroup
		lw.Add(1)
		var lens int64
		go func() {
			defer lw.Done()
			for {
				select {
				case <-stop:
					return
				default:
					if l := q.Len(); l < 0 || l > size {
						bad.Store(fmt.Sprintf("length %d reported, the capacity is %d", l, size))
					}
					lens++
					runtime.Gosched()
				}
			}
		}()
		// (each holds a token for an item of its own, so that peeking never waits forever)
		v, rep := verifkit.Bounded(40*time.Second, wg.Wait)
		if v == verifkit.Stuck {
			r.Violation("waits-forever", fmt.Sprintf("queue of %d, %d producers, %d consumers, as many items added as removed: %d of %d taken, then all wait", size, prods, cons, atomic.LoadInt64(&taken), total), rep)
			return
		}
		close(stop)
		lw.Wait()
		if b := bad.Load(); b != nil {
			r.Violation("torn", fmt.Sprintf("queue of %d, %d producers, %d consumers: %v", size, prods, cons, b), nil)
			return
		}
		if v != verifkit.Completed {
			r.Inconclusive("consumers and producers did not finish")
			return
		}
		seen := map[int]int{}
		for c := range got {
			lastOf := map[int]int{}
			for _, id := range got[c] {
				seen[id]++
				p := id % prods
				if l, ok := lastOf[p]; ok && id <= l {
					r.Violation("reordered", fmt.Sprintf("queue of %d: a consumer got item %d after item %d, added by the same producer before", size, id, l), nil)
					return
				}
				lastOf[p] = id
			}
		}
		if len(seen) != total {
			r.Violation("lost", fmt.Sprintf("queue of %d: %d items added, %d different ones removed", size, total, len(seen)), nil)
			return
		}
		r.Count("items", int64(total))
		r.Count("length_reads", lens)
		r.Eval(fmt.Sprint(size, prods, cons, per, slow, i), prods+cons > 2)
	}
	runtime.GOMAXPROCS(runtime.NumCPU())
}

// waiting: exactly while full or empty
func TestVerif_C15_waiting(t *testing.T) {
	r := verifkit.Start(t, "C15", "waiting")
	defer r.Finish()
	for i := 0; i < r.N(150, 3000); i++ {
		rng := r.Rand(i)
		size := 1 + rng.Intn(6)
		q := newTimedSampleQueue(size)
		next, out := 0, 0
		for k := rng.Intn(4 * size); k > 0; k-- { // anywhere in the ring
			it := c15Make(next)
			q.Add(it.s, it.t)
			q.Remove()
			next++
			out++
		}
		add := func() { it := c15Make(next); q.Add(it.s, it.t) }
		if rng.Intn(2) == 0 {
			// remove and peek wait while it is empty
			var gotS [2]float64
			var gotT int64
			done := make(chan struct{})
			peek := rng.Intn(2) == 0
			go func() {
				if peek {
					gotS, gotT = q.Peek()
				} else {
					gotS, gotT = q.Remove()
				}
				close(done)
			}()
			c15Settle(done)
			select {
			case <-done:
				r.Violation("did-not-wait", fmt.Sprintf("taking (peek %v) from an empty queue of %d returned %v at %d", peek, size, gotS, gotT), nil)
				return
			default:
			}
			add()
			if !c15Returns(r, done, fmt.Sprintf("taking (peek %v) from a queue of %d after an item was added", peek, size)) {
				return
			}
			if c15Id(gotS, gotT) != next {
				r.Violation("not-a-fifo", fmt.Sprintf("got %v at %d instead of item %d", gotS, gotT, next), nil)
				return
			}
		} else {
			for q.Len() < size {
				add()
				next++
			}
			done := make(chan struct{})
			go func() { add(); close(done) }()
			c15Settle(done)
			select {
			case <-done:
				r.Violation("did-not-wait", fmt.Sprintf("adding to a full queue of %d returned", size), nil)
				return
			default:
			}
			if l := q.Len(); l != size {
				r.Violation("length", fmt.Sprintf("a full queue of %d with an adder waiting reports length %d", size, l), nil)
				return
			}
			for k := 0; k < size+1; k++ {
				s, tm := q.Remove()
				if c15Id(s, tm) != out {
					r.Violation("not-a-fifo", fmt.Sprintf("got %v at %d instead of item %d", s, tm, out), nil)
					return
				}
				out++
				if k == 0 && !c15Returns(r, done, fmt.Sprintf("adding to a queue of %d after an item was removed", size)) {
					return
				}
			}
		}
		r.Eval(fmt.Sprint(size, next, i), true)
	}
}

// c15Settle gives a goroutine every chance to return
func c15Settle(done chan struct{}) {
	for k := 0; k < 200; k++ {
		select {
		case <-done:
			return
		default:
			runtime.Gosched()
		}
	}
	time.Sleep(200 * time.Microsecond)
}

func c15Returns(r *verifkit.Run, done chan struct{}, what string) bool {
	v, rep := verifkit.Bounded(60*time.Second, func() { <-done })
	if v == verifkit.Stuck {
		r.Violation("waits-forever", what+" waits though it could proceed", rep)
		return false
	}
	return v == verifkit.Completed
}
