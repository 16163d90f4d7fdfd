package timing

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/aristanetworks/goarista/monotime"
)

// The clock under test runs on a virtual raw clock; the server's clock is the
// virtual true time plus a skew which may step between the syncs.

type c02Clock struct{ now, skew int64 }

func (c *c02Clock) raw() int64      { return atomic.LoadInt64(&c.now) }
func (c *c02Clock) advance(d int64) { atomic.AddInt64(&c.now, d) }
func (c *c02Clock) server() int64   { return atomic.LoadInt64(&c.now) + c.skew }
func (c *c02Clock) error() int64    { return GetSyncedTime() - c.server() }
func c02Delay(rng *rand.Rand) int64 {
	switch rng.Intn(8) {
	case 0:
		return 0
	case 1:
		return rng.Int63n(10)
	case 2:
		return rng.Int63n(5e9)
	case 3:
		return 1
	}
	return rng.Int63n(1 + rng.Int63n(50e6))
}

func c02Setup(rng *rand.Rand) *c02Clock {
	c := &c02Clock{now: 1e9 + rng.Int63n(1e17)}
	monotime.SetSource(func() uint64 { return uint64(atomic.LoadInt64(&c.now)) })
	c.step(rng)
	return c
}

func (c *c02Clock) step(rng *rand.Rand) {
	switch rng.Intn(5) {
	case 0:
		c.skew = 0
	case 1:
		c.skew = rng.Int63n(2e6) - 1e6
	case 2:
		c.skew += rng.Int63n(2001) - 1000
	case 3:
		c.skew = rng.Int63n(2e18) - 1e18
	default:
		c.skew = rng.Int63n(2e12) - 1e12
	}
}

func TestVerif_C02_exchanges(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	r := verifkit.Start(t, "C02", "exchanges")
	defer r.Finish()
	for i := 0; i < r.N(1500, 40000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		c := c02Setup(rng)
		asym := rng.Intn(4)
		var trace []string
		bad := func(kind, f string, a ...interface{}) {
			r.Violation(kind, fmt.Sprintf(f, a...), map[string]interface{}{"case": i, "trace": trace})
		}
		for sync := 0; sync < 1+rng.Intn(5) && !r.Failed(); sync++ {
			if sync > 0 {
				c.step(rng)
				c.advance(rng.Int63n(6e11))
			}
			n := []int{1, 2, 3, 10, 32, 100, 500}[rng.Intn(7)]
			stop := n
			if rng.Intn(4) == 0 {
				stop = rng.Intn(n) // exchanges get lost
			}
			before := GetSyncedTime() - GetRawTime()
			ResetOffsets(n)
			var total int64
			for k := 0; k < stop; k++ {
				if o := GetSyncedTime() - GetRawTime(); o != before {
					bad("disturbed", "after %d of %d exchanges of a sync the offset used changed from %d to %d", k, n, before, o)
					return
				}
				d1, d2, proc := c02Delay(rng), c02Delay(rng), int64(0)
				if asym == 1 {
					d1 = 0
				} else if asym == 2 {
					d2 = 0
				} else if asym == 3 {
					d2 = d1
				}
				if rng.Intn(3) == 0 {
					proc = c02Delay(rng)
				}
				cs := c.raw()
				c.advance(d1)
				sr := c.server()
				c.advance(proc)
				ss := c.server()
				c.advance(d2)
				UpdateOffset(cs, sr, ss, c.raw())
				total += d1 + d2
				c.advance(rng.Int63n(20e6))
			}
			if len(trace) < 50 {
				trace = append(trace, fmt.Sprintf("sync of %d exchanges (%d done), skew %d, mean rtt %d", n, stop, c.skew, total/int64(n)))
			}
			r.Count("exchanges", int64(stop))
			if stop < n {
				if o := GetSyncedTime() - GetRawTime(); o != before {
					bad("disturbed", "after %d of %d exchanges of a sync the offset used changed from %d to %d", stop, n, before, o)
				}
				r.Count("incomplete_syncs", 1)
				continue
			}
			bound := float64(total)/float64(n)/2 + 3 // (integer arithmetic)
			if e := c.error(); float64(e) > bound || float64(e) < -bound {
				bad("off", "after a sync of %d exchanges with a mean round trip of %.0f ns and a skew of %d the time is off by %d ns", n, float64(total)/float64(n), c.skew, e)
			}
			c.advance(rng.Int63n(1e12))
			if e := c.error(); float64(e) > bound || float64(e) < -bound {
				bad("off", "long after a sync the time is off by %d ns, the mean round trip was %.0f ns", e, float64(total)/float64(n))
			}
			r.Eval(fmt.Sprint(n, c.skew, total, i, sync), total > 0 && c.skew != 0)
		}
	}
}

// readers meanwhile see the offset before or after, never anything else, and once after always after
func TestVerif_C02_readers(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	r := verifkit.Start(t, "C02", "readers")
	defer r.Finish()
	for i := 0; i < r.N(200, 4000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		c := c02Setup(rng)
		ResetOffsets(1)
		UpdateOffset(c.raw(), c.server(), c.server(), c.raw())
		old := GetSyncedTime()
		if old != c.server() {
			r.Violation("off", fmt.Sprintf("a sync without delay is off by %d ns", c.error()), nil)
			return
		}
		c.step(rng)
		if c.skew+c.now == old {
			c.skew += 77
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var reads int64
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				seen := false
				for {
					v := GetSyncedTime()
					atomic.AddInt64(&reads, 1)
					if v == c.server() {
						seen = true
					} else if v != old {
						r.Violation("torn", fmt.Sprintf("while syncing the time from %d to %d, %d is read", old, c.server(), v), nil)
						return
					} else if seen {
						r.Violation("torn", fmt.Sprintf("after the time is synced to %d, the old time is read", c.server()), nil)
						return
					}
					select {
					case <-stop:
						return
					default:
					}
				}
			}()
		}
		n := 64 + rng.Intn(200)
		ResetOffsets(n)
		var ex sync.WaitGroup
		for g := 0; g < 4; g++ { // answers are handled concurrently
			lo, hi := g*n/4, (g+1)*n/4
			ex.Add(1)
			go func() {
				defer ex.Done()
				for k := lo; k < hi; k++ {
					UpdateOffset(c.raw(), c.server(), c.server(), c.raw())
				}
			}()
		}
		ex.Wait()
		if e := c.error(); e != 0 {
			r.Violation("off", fmt.Sprintf("after %d exchanges without delay, handled concurrently, the time is off by %d ns", n, e), nil)
		}
		close(stop)
		wg.Wait()
		r.Count("reads", reads)
		r.Eval(fmt.Sprint(i, n), true)
	}
}
