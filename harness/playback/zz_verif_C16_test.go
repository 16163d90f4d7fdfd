package playback

import (
	"context"
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/faiface/beep"
)

// Every sample carries its producer, chunk and index; some are silence markers.

type c16Chunk struct {
	id          int
	start       int64
	n           int
	called, ret int64 // clock ticks
}

func c16Samples(c *c16Chunk, nan int) [][2]float64 {
	s := make([][2]float64, c.n)
	for i := range s {
		s[i] = [2]float64{float64(c.id), float64(i)}
		if nan > 0 && i%nan == 0 {
			s[i] = [2]float64{math.NaN(), math.NaN()}
		}
	}
	return s
}

func TestVerif_C16_chunks(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	r := verifkit.Start(t, "C16", "chunks")
	defer r.Finish()
	defer runtime.GOMAXPROCS(runtime.NumCPU())
	for i := 0; i < r.N(150, 2500) && !r.Failed(); i++ {
		rng := r.Rand(i)
		rate := []int{50, 100, 1000, 8000, 44100, 48000}[rng.Intn(6)]
		format = beep.Format{SampleRate: beep.SampleRate(rate), NumChannels: 2, Precision: 2}
		initStreamer()
		runtime.GOMAXPROCS([]int{1, 2, 4, 8}[rng.Intn(4)])
		ctx, cancel := context.WithCancel(context.Background())
		reader := make(chan struct{})
		tms := streamer
		startReader := func() {
			go func() {
				tms.ReadChunks(ctx)
				close(reader)
			}()
		}
		prods := []int{1, 1, 2, 4, 8}[rng.Intn(5)]
		per := 1 + rng.Intn(40)
		nan := []int{0, 0, 1, 2, 7}[rng.Intn(5)]
		all := make([][]*c16Chunk, prods)
		total := 0
		for p := range all {
			for k := 0; k < per; k++ {
				c := &c16Chunk{id: k*prods + p, start: rng.Int63n(1 << 55), n: []int{0, 1, 2, rng.Intn(50), rate / 10, rng.Intn(300), rate / 20}[rng.Intn(7)]}
				if rng.Intn(10) == 0 {
					c.start = -c.start
				}
				all[p] = append(all[p], c)
				total += c.n
			}
		}
		if total == 0 {
			all[0][0].n = 5
			total = 5
		}
		what := fmt.Sprintf("rate %d, %d goroutines queueing %d chunks each, %d samples", rate, prods, per, total)
		var clock verifkit.Clock
		type out struct {
			s [2]float64
			t int64
		}
		got := make([]out, 0, total)
		consume := func() {
			for len(got) < total {
				s, tm := tms.samples.Remove()
				got = append(got, out{s, tm})
				if len(got)%97 == 0 && rate < 2000 {
					runtime.Gosched()
				}
			}
		}
		mode := rng.Intn(4) // 0: nothing is played before everything is queued; 1: not even read
		if mode != 1 {
			startReader()
		}
		var consumer, queuers sync.WaitGroup
		if mode >= 2 {
			consumer.Add(1)
			go func() { defer consumer.Done(); consume() }()
		}
		var queued int64
		for p := range all {
			queuers.Add(1)
			go func(p int) {
				defer queuers.Done()
				for k, c := range all[p] {
					s := c16Samples(c, nan)
					c.called = clock.Tick()
					QueueChunk(c.start, int64(c.id), s)
					c.ret = clock.Tick()
					atomic.AddInt64(&queued, 1)
					if mode == 3 && k%3 == 0 {
						time.Sleep(time.Duration(k%5) * 300 * time.Microsecond) // the reader runs dry
					}
				}
			}(p)
		}
		v, rep := verifkit.Bounded(40*time.Second, queuers.Wait)
		if v == verifkit.Stuck {
			r.Violation("queueing-waits", fmt.Sprintf("%s (mode %d): %d queued, then queueing waits for the playback", what, mode, atomic.LoadInt64(&queued)), rep)
			cancel()
			return
		} else if v != verifkit.Completed {
			r.Inconclusive("queueing did not finish")
			cancel()
			return
		}
		if mode == 1 {
			startReader()
		}
		if mode < 2 {
			consumer.Add(1)
			go func() { defer consumer.Done(); consume() }()
		}
		v, rep = verifkit.Bounded(40*time.Second, consumer.Wait)
		if v == verifkit.Stuck {
			r.Violation("chunk-lost", fmt.Sprintf("%s (mode %d): playback waits for samples forever though all chunks are queued", what, mode), rep)
			cancel()
			return
		} else if v != verifkit.Completed {
			r.Inconclusive("playing did not finish")
			cancel()
			return
		}
		cancel()
		// at the end nothing is left over
		vr, _ := verifkit.Bounded(40*time.Second, func() { <-reader })
		if vr == verifkit.Completed && tms.samples.Len() != 0 {
			r.Violation("chunk-repeated", fmt.Sprintf("%s: %d samples left after all queued ones were played", what, tms.samples.Len()), nil)
			return
		}
		// chunk after chunk
		byStart := map[int64]*c16Chunk{}
		for _, cs := range all {
			for _, c := range cs {
				byStart[c.start] = c
			}
		}
		bad := func(kind, f string, a ...interface{}) {
			r.Violation(kind, fmt.Sprintf("%s (mode %d): ", what, mode)+fmt.Sprintf(f, a...), nil)
		}
		var order []*c16Chunk
		seen := map[int]bool{}
		for at := 0; at < total; {
			o := got[at]
			c := byStart[o.t]
			if c == nil || c.n == 0 {
				bad("chunk-order", "sample %d has time %d, no chunk starts then", at, o.t)
				return
			}
			if seen[c.id] {
				bad("chunk-repeated", "chunk %d is played twice", c.id)
				return
			}
			seen[c.id] = true
			order = append(order, c)
			for k := 0; k < c.n; k++ {
				if at >= total {
					bad("chunk-cut", "chunk %d of %d samples ends after %d", c.id, c.n, k)
					return
				}
				o := got[at]
				marker := nan > 0 && k%nan == 0
				if marker != math.IsNaN(o.s[0]) || marker != math.IsNaN(o.s[1]) || !marker && (o.s[0] != float64(c.id) || o.s[1] != float64(k)) {
					bad("chunk-order", "sample %d of chunk %d (%d samples) is %v", k, c.id, c.n, o.s)
					return
				}
				want := float64(k) * 1e9 / float64(rate)
				if d := float64(o.t-c.start) - want; d > 1000 || d < -1000 {
					bad("sample-time", "sample %d of a chunk has time start+%d ns, it should be start+%.0f", k, o.t-c.start, want)
					return
				}
				at++
			}
		}
		for k := 1; k < len(order); k++ {
			for j := k - 1; j >= 0 && j >= k-3*prods; j-- {
				if order[k].ret < order[j].called {
					bad("chunk-order", "chunk %d is played before chunk %d which was queued before", order[j].id, order[k].id)
					return
				}
			}
		}
		// (ids of one producer ascend in the order they were queued)
		lastOf := map[int]int{}
		for _, c := range order {
			if l, ok := lastOf[c.id%prods]; ok && c.id < l {
				bad("chunk-order", "chunk %d is played after chunk %d which was queued after it", c.id, l)
				return
			}
			lastOf[c.id%prods] = c.id
		}
		r.Count("samples", int64(total))
		r.Count("chunks", int64(prods*per))
		r.Count([]string{"queued_then_played", "queued_then_read", "played_while_queueing", "player_runs_dry"}[mode], 1)
		r.Eval(fmt.Sprint(rate, prods, per, nan, mode, total), len(order) > 1)
	}
}

// queueing while the player has all it can hold
func TestVerif_C16_backlog(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	r := verifkit.Start(t, "C16", "backlog")
	defer r.Finish()
	for i := 0; i < r.N(6, 60); i++ {
		rng := r.Rand(i)
		rate := []int{50, 1000, 44100}[rng.Intn(3)]
		format = beep.Format{SampleRate: beep.SampleRate(rate), NumChannels: 2, Precision: 2}
		initStreamer()
		tms := streamer
		ctx, cancel := context.WithCancel(context.Background())
		go tms.ReadChunks(ctx)
		n := 3000
		size := 1 + rate/10
		done := int64(0)
		v, rep := verifkit.Bounded(40*time.Second, func() {
			for k := 0; k < n; k++ {
				c := &c16Chunk{id: k, n: size, start: int64(k)}
				QueueChunk(c.start, int64(k), c16Samples(c, 0))
				atomic.AddInt64(&done, 1)
			}
		})
		if v == verifkit.Stuck {
			r.Violation("queueing-waits", fmt.Sprintf("%d chunks of %d samples queued while nothing is played, then queueing waits", done, size), rep)
			cancel()
			return
		}
		for k := 0; v == verifkit.Completed && k < n*size; k++ {
			s, _ := tms.samples.Remove()
			if s[0] != float64(k/size) || s[1] != float64(k%size) {
				r.Violation("chunk-order", fmt.Sprintf("sample %d is sample %v of chunk %v, chunks of %d samples were queued", k, s[1], s[0], size), nil)
				break
			}
		}
		cancel()
		r.Count("chunks_in_backlog", int64(n))
		r.Eval(fmt.Sprint(rate, i), true)
	}
}

type c16Early struct {
	N    int `json:"n"`
	Size int `json:"size"`
}

// chunks before Init
func TestVerifChild_C16(t *testing.T) {
	var c c16Early
	verifkit.ChildArgs(t, &c)
	log.DefaultCutoffLevel = log.LevelOff
	for k := 0; k < c.N; k++ {
		ch := &c16Chunk{id: k, n: c.Size}
		QueueChunk(int64(k), int64(k), c16Samples(ch, 0))
	}
	format = beep.Format{SampleRate: 100, NumChannels: 2, Precision: 2}
	initStreamer()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go streamer.ReadChunks(ctx)
	ch := &c16Chunk{id: 4711, n: 150}
	QueueChunk(99, 4711, c16Samples(ch, 0))
	bad := ""
	for k := 0; k < ch.n && bad == ""; k++ {
		s, _ := streamer.samples.Remove()
		if s[0] != 4711 || s[1] != float64(k) {
			bad = fmt.Sprintf("sample %d after the player is ready is %v of chunk %v", k, s[1], s[0])
		}
	}
	verifkit.ChildDone(bad)
}

func TestVerif_C16_early(t *testing.T) {
	r := verifkit.Start(t, "C16", "early")
	defer r.Finish()
	for i := 0; i < r.N(4, 30); i++ {
		rng := r.Rand(i)
		c := c16Early{N: 1 + rng.Intn(300), Size: rng.Intn(100)}
		res := verifkit.RunChild("C16", c, 100*time.Second)
		bad := ""
		if r.Judge(res, c, &bad) && bad != "" {
			r.Violation("early-chunk", bad, c)
		}
		r.Count("chunks_before_ready", int64(c.N))
		r.Eval(fmt.Sprint(c), true)
	}
}

func TestVerif_C16_combine(t *testing.T) {
	r := verifkit.Start(t, "C16", "combine")
	defer r.Finish()
	for i := 0; i < r.N(3000, 60000); i++ {
		rng := r.Rand(i)
		ch := func(n int) []float64 {
			if n == 0 && rng.Intn(2) == 0 {
				return nil
			}
			s := make([]float64, n)
			for k := range s {
				s[k] = rng.NormFloat64()
				if rng.Intn(20) == 0 {
					s[k] = math.NaN()
				}
			}
			return s
		}
		n := rng.Intn(40)
		m := n
		if rng.Intn(2) == 0 {
			m = rng.Intn(40)
		}
		low, high := ch(n), ch(m)
		var res [][2]float64
		if p := verifkit.Catch(func() { res = CombineSamples(low, high) }); p != "" {
			r.Violation("crash", fmt.Sprintf("combining %d and %d samples: %s", n, m, p), nil)
			return
		}
		want := n
		if m < n {
			want = m
		}
		if len(res) != want {
			r.Violation("unequal", fmt.Sprintf("combining %d and %d samples yields %d", n, m, len(res)), nil)
			return
		}
		same := func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }
		for k := range res {
			if !same(res[k][0], low[k]) || !same(res[k][1], high[k]) {
				r.Violation("unequal", fmt.Sprintf("sample %d combined of %v and %v is %v", k, low[k], high[k], res[k]), nil)
				return
			}
		}
		r.Eval(fmt.Sprint(n, m), n != m)
	}
}
