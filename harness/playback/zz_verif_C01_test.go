package playback

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/aristanetworks/goarista/monotime"
	"github.com/hajimehoshi/oto"
)

// A whole player (Init, QueueChunk, SetVolume, and the sync of its clock) runs
// against a virtual audio device and a virtual clock: time passes only because
// the device plays (or, while the player is blocked for want of data, because
// the monitor lets the next delivery happen).

type c01Case struct {
	Rate      int     `json:"rate"`
	Skew      int64   `json:"raw_clock_minus_server_ns"`
	SyncAt    int64   `json:"sync_after_ns"` // after player start; 0: synced before
	Lead      int64   `json:"delivery_lead_ns"`
	Late      int64   `json:"stream_start_before_player_ns"`
	ChunkSize int     `json:"chunk_size"`
	DriftPPM  float64 `json:"device_drift_ppm"`
	Segs      []int   `json:"segments"` // audio, gap, audio, gap, ...
	LeadGap   int     `json:"leading_gap"`
	Base      int64   `json:"server_clock_ns"`
}

type c01Answer struct {
	Problems  []string `json:"problems"`
	Starts    int      `json:"alignments"`
	Frames    int      `json:"frames"`
	Blocked   int      `json:"blocked_waits"`
	Dropped   int      `json:"late_samples_dropped"`
	Judged    int      `json:"alignments_judged"`
	Offsets   []int    `json:"alignment_error_millisamples"`
	NotPlayed int      `json:"not_played"`
	Rounded   int      `json:"single_samples_lost_to_rounding"`
}

func c01Gen(rng *rand.Rand, i int) c01Case {
	c := c01Case{}
	c.Rate = []int{8000, 11025, 12000, 16000, 22050, 44100, 48000, 1000}[rng.Intn(8)]
	buf := c.Rate / 10
	c.Base = rng.Int63n(1e15)
	switch rng.Intn(4) {
	case 0:
		c.Skew = 0
	case 1:
		c.Skew = rng.Int63n(2e9) - 1e9
	default:
		c.Skew = rng.Int63n(2e14) - 1e14
	}
	if c.Base+c.Skew < 1e12 {
		c.Base += 2e14
	}
	c.Lead = []int64{15e9, 15e9, 3e9, 1e9}[rng.Intn(4)]
	c.ChunkSize = []int{buf / 2, buf, buf + 7, c.Rate / 4, c.Rate, c.Rate + 13, c.Rate/40 + 3}[rng.Intn(7)]
	if c.Lead < 3e9 && c.ChunkSize > c.Rate/4 {
		c.ChunkSize = c.Rate / 4
	}
	if rng.Intn(3) == 0 {
		c.SyncAt = rng.Int63n(6e9)
	}
	if rng.Intn(3) == 0 {
		c.Late = rng.Int63n(3e9)
	} else {
		c.Late = -rng.Int63n(3e9)
	}
	if rng.Intn(3) == 0 {
		c.DriftPPM = float64(rng.Intn(801) - 400)
	}
	if rng.Intn(2) == 0 {
		c.LeadGap = rng.Intn(c.Rate)
	}
	total := 0
	for total < 25*c.Rate || len(c.Segs) < 12 {
		a := []int{1 + rng.Intn(5), 1 + rng.Intn(buf), buf, 2 * buf, buf + 1, rng.Intn(2*c.Rate) + 1, rng.Intn(2*c.Rate) + 1}[rng.Intn(7)]
		g := []int{1 + rng.Intn(3), buf - 1, buf, buf + 1, 1 + rng.Intn(buf), rng.Intn(c.Rate) + 1, c.Rate, 512, 512 * (1 + rng.Intn(8)), 3 * c.Rate}[rng.Intn(10)]
		if rng.Intn(25) == 0 {
			g = 25 * c.Rate // a long pause: the player runs out of samples
		}
		c.Segs = append(c.Segs, a, g)
		total += a + g
	}
	c.Segs = append(c.Segs, 5*c.Rate, 0)
	return c
}

func TestVerifChild_C01(t *testing.T) {
	var c c01Case
	verifkit.ChildArgs(t, &c)
	log.DefaultCutoffLevel = log.LevelOff
	runtime.GOMAXPROCS(4)
	verifkit.ChildDone(c01Run(c))
}

func c01Run(c c01Case) c01Answer {
	ans := c01Answer{}
	problem := func(f string, a ...interface{}) {
		if len(ans.Problems) < 5 {
			ans.Problems = append(ans.Problems, fmt.Sprintf(f, a...))
		}
	}
	// the stream
	var audio []bool
	var seg []int
	var segFirst, segLast []int
	add := func(n int, a bool) {
		for k := 0; k < n; k++ {
			audio = append(audio, a)
			if a {
				seg = append(seg, len(segFirst)-1)
			} else {
				seg = append(seg, -1)
			}
		}
	}
	add(c.LeadGap, false)
	for k := 0; k+1 < len(c.Segs); k += 2 {
		segFirst = append(segFirst, len(audio))
		add(c.Segs[k], true)
		segLast = append(segLast, len(audio)-1)
		add(c.Segs[k+1], false)
	}
	for len(audio)%c.ChunkSize != 0 {
		segLast[len(segLast)-1] = len(audio)
		audio = append(audio, true)
		seg = append(seg, len(segFirst)-1)
	}
	chunks := len(audio) / c.ChunkSize
	chunkTime := int64(c.ChunkSize) * 1e9 / int64(c.Rate)
	playerStart := c.Base
	streamStart := playerStart - c.Late
	if c.Late < 0 {
		streamStart = playerStart + 2e8 - c.Late
	}
	sched := func(i int) int64 {
		return streamStart + int64(i/c.ChunkSize)*chunkTime + int64(float64(i%c.ChunkSize)*1e9/float64(c.Rate))
	}
	deliverAt := func(k int) int64 {
		d := streamStart + int64(k)*chunkTime - c.Lead
		if d < playerStart {
			d = playerStart
		}
		return d
	}
	samplesOf := func(k int) [][2]float64 {
		s := make([][2]float64, c.ChunkSize)
		for j := range s {
			i := k*c.ChunkSize + j
			if audio[i] {
				s[j] = [2]float64{float64(i%30000+1) / 32768, float64(i/30000+1) / 32768}
			} else {
				s[j] = [2]float64{math.NaN(), math.NaN()}
			}
		}
		return s
	}

	// the world
	var vnow int64 = playerStart
	monotime.SetSource(func() uint64 { return uint64(atomic.LoadInt64(&vnow) + c.Skew) })
	synced := false
	var mu sync.Mutex
	next := 0
	doSync := func() {
		timing.ResetOffsets(1)
		timing.UpdateOffset(1000+c.Skew, 1000, 1000, 1000+c.Skew)
		synced = true
	}
	world := func() { // mu held: everything due by now happens
		v := atomic.LoadInt64(&vnow)
		if !synced && v >= playerStart+c.SyncAt {
			doSync()
		}
		for next < chunks && deliverAt(next) <= v {
			QueueChunk(streamStart+int64(next)*chunkTime, int64(next), samplesOf(next))
			next++
		}
	}
	type buffer struct {
		at        int64
		idx       []int32
		disturbed bool
	}
	var log []buffer
	disturbed := false
	var writes int64
	dev := int64(1e9) // parts per billion of clock per device second
	dev += int64(c.DriftPPM * 1000)
	oto.OnWrite = func(b []byte) (int, error) {
		mu.Lock()
		defer mu.Unlock()
		n := len(b) / 4
		bu := buffer{at: atomic.LoadInt64(&vnow), idx: make([]int32, n), disturbed: disturbed}
		disturbed = false
		for j := 0; j < n; j++ {
			l := int(int16(uint16(b[4*j]) | uint16(b[4*j+1])<<8))
			h := int(int16(uint16(b[4*j+2]) | uint16(b[4*j+3])<<8))
			if l == 0 && h == 0 {
				bu.idx[j] = -1
			} else if l < 1 || l > 30000 || h < 1 || (h-1)*30000+l-1 >= len(audio) {
				bu.idx[j] = -2
			} else {
				bu.idx[j] = int32((h-1)*30000 + l - 1)
			}
		}
		log = append(log, bu)
		dur := int64(n) * 1e9 / int64(c.Rate)
		atomic.AddInt64(&vnow, dur/1000*dev/1e6)
		atomic.AddInt64(&writes, 1)
		world()
		return len(b), nil
	}
	SetVolume(1)
	if c.SyncAt == 0 {
		doSync()
	}
	if err := Init(c.Rate); err != nil {
		problem("init failed: %v", err)
		return ans
	}
	mu.Lock()
	world()
	mu.Unlock()
	// the player waits for data: all its goroutines are parked or asleep, at least one of them parked
	blockedNow := func() bool {
		waits := false
		for _, g := range verifkit.Goroutines() {
			if !strings.Contains(g, "/music-sync/playback.") || strings.Contains(g, "c01Run(") {
				continue
			}
			head := strings.SplitN(g, "\n", 2)[0]
			if strings.Contains(head, "sync.Cond.Wait") || strings.Contains(head, "chan receive") || strings.Contains(head, "semacquire") || strings.Contains(head, "select") {
				waits = true
			} else if !strings.Contains(head, "[sleep") {
				return false
			}
		}
		return waits
	}
	deadline := time.Now().Add(150 * time.Second)
	last := int64(-1)
	idle := 0
	for time.Now().Before(deadline) {
		time.Sleep(500 * time.Microsecond)
		w := atomic.LoadInt64(&writes)
		if w != last {
			last, idle = w, 0
			continue
		}
		// long enough for one who sleeps a millisecond between looks at what was queued
		if !blockedNow() || atomic.LoadInt64(&writes) != w {
			idle = 0
			continue
		}
		if idle++; idle < 6 {
			continue
		}
		idle = 0
		mu.Lock()
		if atomic.LoadInt64(&writes) != w {
			mu.Unlock()
			continue
		}
		if next >= chunks {
			mu.Unlock()
			break
		}
		ans.Blocked++
		disturbed = true
		if d := deliverAt(next); d > atomic.LoadInt64(&vnow) {
			atomic.StoreInt64(&vnow, d)
		}
		world()
		mu.Unlock()
	}
	mu.Lock()
	defer mu.Unlock()
	if next < chunks {
		ans.Problems = append(ans.Problems, "INCONCLUSIVE: the run did not finish in time")
		return ans
	}

	// the oracle
	dt := 1e9 / float64(c.Rate)
	bufDur := float64(c.Rate/10) * dt
	judgeFrom := playerStart + 1
	if c.SyncAt > 0 && c.Skew != 0 {
		judgeFrom = playerStart + c.SyncAt + c.Lead + chunkTime + 1e9
	}
	prev := -1         // last audio sample played
	prevSilent := true // the last frame was silence
	endAt := float64(playerStart)
	distSince := false
	for _, b := range log {
		if b.disturbed {
			distSince = true
		}
		for j, i32 := range b.idx {
			i := int(i32)
			tau := float64(b.at) + float64(j)*dt
			ans.Frames++
			if i == -2 {
				problem("frame %d is neither silence nor a sample of the stream", ans.Frames)
				return ans
			}
			if i == -1 {
				if prev >= 0 && !prevSilent {
					if prev+1 < len(audio) && audio[prev+1] {
						problem("playback stopped after sample %d in the middle of a stretch of audio (frame %d)", prev, ans.Frames)
						return ans
					}
					endAt = tau
				}
				prevSilent = true
				continue
			}
			if i <= prev {
				problem("sample %d played after sample %d (frame %d)", i, prev, ans.Frames)
				return ans
			}
			if !prevSilent && i == prev+1 {
				prev = i
				continue
			}
			if !prevSilent {
				if prev+1 < len(audio) && audio[prev+1] {
					problem("playback skipped from sample %d to %d in the middle of a stretch of audio (frame %d)", prev, i, ans.Frames)
					return ans
				}
				endAt = tau
			}
			if !audio[i] {
				problem("sample %d is not audio", i)
				return ans
			}
			ans.Starts++
			ti := float64(sched(i))
			if sched(i) >= judgeFrom && !b.disturbed && b.at >= judgeFrom {
				ans.Judged++
				off := (tau - ti) / dt
				ans.Offsets = append(ans.Offsets, int(off*1000))
				if off > 1.1+100/dt || off < -1.1-100/dt {
					problem("alignment: sample %d scheduled at %d was played at %.0f, %.2f samples off (stretch of audio %d, first %d, frame %d, gap before %v)", i, sched(i), tau, off, seg[i], segFirst[seg[i]], ans.Frames, c.Segs)
					return ans
				}
			}
			// what was skipped must have been late
			sk := i - 1
			for sk > prev && !audio[sk] {
				sk--
			}
			if sk > prev && sched(sk) >= judgeFrom {
				ready := math.Max(endAt, float64(playerStart))
				if d := float64(deliverAt(sk / c.ChunkSize)); d > ready {
					ready = d
				}
				tol := 1.2 * dt
				if distSince {
					tol += bufDur + float64(chunkTime)
				}
				// one sample may fall to the rounding (or drift) between two buffers
				if (tau-float64(sched(sk)) < 1.5*dt || segFirst[seg[sk]] == segLast[seg[sk]]) && (sk-1 == prev || !audio[sk-1]) {
					ans.Rounded++
				} else if float64(sched(sk)) > ready+tol {
					problem("sample %d (scheduled at %d) was not played although the player was ready at %.0f; playback went on with %d at %.0f", sk, sched(sk), ready, i, tau)
					return ans
				}
				ans.Dropped++
			}
			prev, prevSilent = i, false
			distSince = false
			continue
		}
		if len(b.idx) > 0 && b.idx[len(b.idx)-1] >= 0 {
			prevSilent = false
		}
	}
	if ans.Judged >= 8 && c.DriftPPM == 0 && ans.Rounded*2 > ans.Judged {
		problem("the first sample was not played at %d of %d alignments: more than rounding", ans.Rounded, ans.Judged)
		return ans
	}
	lastJudged := len(segFirst) - 2
	if lastJudged >= 0 && sched(segFirst[lastJudged]) >= judgeFrom && prev < segLast[lastJudged] {
		ans.NotPlayed++
		problem("the stream was played only up to sample %d of %d although all of it was delivered in time", prev, len(audio))
	}
	return ans
}

func TestVerif_C01_align(t *testing.T) {
	r := verifkit.Start(t, "C01", "virtual-device")
	defer r.Finish()
	n := r.N(70, 1500)
	type job struct {
		i int
		c c01Case
	}
	jobs := make(chan job)
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if r.Failed() {
					continue
				}
				var a c01Answer
				res := verifkit.RunChild("C01", j.c, 200*time.Second)
				if !r.Judge(res, j.c, &a) {
					continue
				}
				if len(a.Problems) > 0 && strings.HasPrefix(a.Problems[0], "INCONCLUSIVE") {
					r.Inconclusive(fmt.Sprintf("case %d: %s %+v", j.i, a.Problems[0], j.c))
					continue
				}
				if len(a.Problems) > 0 {
					r.Violation("misplayed", strings.Join(a.Problems, "; "), j.c)
					continue
				}
				r.Count("frames_observed", int64(a.Frames))
				r.Count("alignment_points", int64(a.Starts))
				r.Count("alignment_points_judged", int64(a.Judged))
				r.Count("first_samples_lost_to_rounding", int64(a.Rounded))
				r.Count("blocked_waits", int64(a.Blocked))
				r.Count("starts_with_late_samples_dropped", int64(a.Dropped))
				r.Eval(fmt.Sprintf("%+v", j.c), a.Judged > 0)
				r.Sample(map[string]interface{}{"case": j.c, "observed": a})
			}
		}()
	}
	for i := 0; i < n; i++ {
		jobs <- job{i, c01Gen(r.Rand(i), i)}
	}
	close(jobs)
	wg.Wait()
	if !r.Failed() {
		r.Require("alignment_points_judged", int64(n))
	}
}
