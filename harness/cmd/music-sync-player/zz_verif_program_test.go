package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifsync"
	"github.com/hajimehoshi/oto"
)

// The player as its main starts it - its message handlers, schedule.Player, its connection - is sent a stream by a scripted server
// and plays it on a virtual device: time passes as the device plays.

type vprogCase struct {
	Seed    int64
	Rate    int
	Skew    int64
	Base    int64
	Cycles  int
	Chunk   int
	Start   int64 // from now on
	Segs    []int // audio, gap, audio, gap, ...
	Shift   int64 // of the raw clock, before a second sync
	Volumes []float64
}

type vprogAnswer struct {
	Problems                              []string
	Unclear                               string
	Frames, Starts, Rounded, Volumes, Max int
}

type vprogBuffer struct {
	at  int64
	b   []byte
	vol float64
}

type vprogRig struct {
	c    vprogCase
	w    *verifsync.World
	s    *verifsync.Server
	ans  *vprogAnswer
	mu   sync.Mutex
	log  []vprogBuffer
	gate chan struct{} // each write waits for one
	vol  float64
}

// vprogStart starts the player and returns when it is ready: synced and subscribed
func vprogStart(c vprogCase, ans *vprogAnswer) *vprogRig {
	log.DefaultCutoffLevel = log.LevelOff
	runtime.GOMAXPROCS(4)
	r := &vprogRig{c: c, w: &verifsync.World{}, ans: ans, gate: make(chan struct{})}
	r.w.Use(c.Base, c.Skew)
	opened := make(chan [3]int, 10)
	oto.OnContext = func(rate, channels, depth, buffer int) { opened <- [3]int{rate, channels, depth} }
	oto.OnWrite = func(b []byte) (int, error) {
		<-r.gate
		r.mu.Lock()
		r.log = append(r.log, vprogBuffer{at: r.w.Now(), b: append([]byte{}, b...), vol: r.vol})
		r.mu.Unlock()
		r.w.Advance(int64(len(b)/4) * 1e9 / int64(c.Rate))
		return len(b), nil
	}
	schedule.SampleRate = c.Rate
	schedule.TimeSyncCycles, schedule.TimeSyncCycleDelay, schedule.TimeSyncInterval = c.Cycles, 0, time.Hour
	var err error
	if r.s, err = verifsync.Connect(r.w, newPlayerPackageHandler()); err != nil {
		ans.Unclear = err.Error()
		return nil
	}
	go schedule.Player(r.s.Sender)
	go func() {
		for req := range r.s.Requests {
			r.s.Send(&comm.TimeSyncResponse{ClientSendTime: req.ClientSend, ServerRecvTime: r.w.Now(), ServerSendTime: r.w.Now()})
		}
	}()
	select {
	case ch := <-r.s.Channels:
		if ch != comm.Channel_AUDIO {
			ans.Problems = append(ans.Problems, fmt.Sprintf("the player subscribes to %v", ch))
			return nil
		}
	case <-time.After(time.Minute):
		ans.Unclear = "the player does not subscribe"
		return nil
	}
	select {
	case o := <-opened:
		if o != [3]int{c.Rate, 2, 2} {
			ans.Problems = append(ans.Problems, fmt.Sprintf("the player is to play %d samples per second, and opens its device with %v", c.Rate, o))
			return nil
		}
	case <-time.After(time.Minute):
		ans.Unclear = "the player does not open its device"
		return nil
	}
	if !verifkit.Eventually(time.Minute, func() bool {
		if timing.GetSyncedTime() != r.w.Now() {
			return false
		}
		works := false
		for _, g := range verifkit.Goroutines() {
			for _, l := range strings.Split(g, "\n") {
				if strings.HasPrefix(l, "created by ") || !strings.Contains(l, "music-sync/playback.") || strings.HasPrefix(l, "\t") {
					continue
				}
				if strings.Contains(l, "playback.Init(") {
					return false
				}
				works = true
			}
		}
		return works
	}) {
		ans.Unclear = fmt.Sprintf("the player is not ready: off by %d", timing.GetSyncedTime()-r.w.Now())
		return nil
	}
	return r
}

func (r *vprogRig) setVolume(v float64) bool {
	n := r.s.H.Volumes()
	r.s.Send(&comm.SetVolumeRequest{Volume: v})
	if !verifkit.Eventually(time.Minute, func() bool { return r.s.H.Volumes() == n+1 }) {
		r.ans.Unclear = "a volume is not handled"
		return false
	}
	r.mu.Lock()
	r.vol = v
	r.mu.Unlock()
	return true
}

// queue sends the stream; other messages and messages for others may come in between
func (r *vprogRig) queue(start int64, samples [][2]float64) bool {
	rng := rand.New(rand.NewSource(r.c.Seed + 1))
	chunkTime := int64(r.c.Chunk) * 1e9 / int64(r.c.Rate)
	sent := int64(0)
	for k := 0; k*r.c.Chunk < len(samples); k++ {
		m := &comm.QueueChunkRequest{StartTime: start + int64(k)*chunkTime, ChunkId: int64(k), FirstSampleIndex: uint64(k * r.c.Chunk)}
		for i := k * r.c.Chunk; i < (k+1)*r.c.Chunk && i < len(samples); i++ {
			m.SampleLow, m.SampleHigh = append(m.SampleLow, samples[i][0]), append(m.SampleHigh, samples[i][1])
		}
		r.s.Send(m)
		sent++
		switch rng.Intn(8) {
		case 0:
			r.s.Send(&comm.PingMessage{})
		case 1:
			r.s.Send(&comm.ChunkInfo{StartTime: 1, FirstSampleIndex: 2, ChunkSize: 3})
		case 2:
			r.s.Send(&comm.PauseInfo{Playing: rng.Intn(2) == 0, ToggleSampleIndex: rng.Uint64()})
		case 3:
			r.s.Send(&comm.NewSongInfo{FirstSampleOfSongIndex: 3, SongFileName: "x.mp3", SongLength: 7})
		}
		if !verifkit.Eventually(time.Minute, func() bool { return r.s.H.Chunks() == sent }) {
			r.ans.Unclear = "a chunk is not handled"
			return false
		}
	}
	return true
}

// play lets the device play until end, and for as long as the player has more for it
func (r *vprogRig) play(most int, end int64, each func(int) bool) bool {
	for n := 0; n < most; n++ {
		wait := time.Minute
		if r.w.Now() >= end {
			wait = 2 * time.Second // the end of the stream: the player waits for more
		}
		select {
		case r.gate <- struct{}{}:
		case <-time.After(wait):
			return n > 0
		}
		if !each(n) {
			return false
		}
	}
	return true
}

func (b vprogBuffer) frame(j int) (int, int) {
	return int(int16(uint16(b.b[4*j]) | uint16(b.b[4*j+1])<<8)), int(int16(uint16(b.b[4*j+2]) | uint16(b.b[4*j+3])<<8))
}

func TestVerifChild_C01program(t *testing.T) {
	var c vprogCase
	verifkit.ChildArgs(t, &c)
	ans := vprogAnswer{}
	vprogAlign(c, &ans)
	verifkit.ChildDone(ans)
}

func vprogAlign(c vprogCase, ans *vprogAnswer) {
	r := vprogStart(c, ans)
	if r == nil {
		return
	}
	if c.Shift != 0 { // the clock of the player is set, and it syncs again
		r.w.Skew(c.Skew + c.Shift)
		schedule.Infoer(r.s.Sender)
		<-r.s.Channels
		if !verifkit.Eventually(time.Minute, func() bool { return r.s.H.Syncs() == int64(2*c.Cycles) }) || !verifkit.Eventually(10*time.Second, func() bool { return timing.GetSyncedTime() == r.w.Now() }) {
			ans.Unclear = "the second sync does not end"
			if r.s.H.Syncs() == int64(2*c.Cycles) {
				ans.Problems, ans.Unclear = append(ans.Problems, fmt.Sprintf("after its second sync, of %d exchanges without any delay, the clock of the player is off by %d ns", c.Cycles, timing.GetSyncedTime()-r.w.Now())), ""
			}
			return
		}
	}
	if !r.setVolume(1) {
		return
	}
	var samples [][2]float64
	var first []int
	for k, n := range c.Segs {
		if k%2 == 0 {
			first = append(first, len(samples))
		}
		for ; n > 0; n-- {
			i := len(samples)
			if k%2 == 0 {
				samples = append(samples, [2]float64{float64(i%30000+1) / 32768, float64(i/30000+1) / 32768})
			} else {
				samples = append(samples, [2]float64{math.NaN(), math.NaN()})
			}
		}
	}
	audio := func(i int) bool { return i >= 0 && i < len(samples) && !math.IsNaN(samples[i][0]) }
	start := r.w.Now() + c.Start
	if !r.queue(start, samples) {
		return
	}
	buffers := len(samples)/(c.Rate/10) + int(c.Start/1e8) + 50
	if !r.play(buffers, start+int64(len(samples)-c.Rate)*1e9/int64(c.Rate), func(int) bool { return true }) {
		ans.Unclear = "nothing is played"
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	problem := func(f string, a ...interface{}) { ans.Problems = append(ans.Problems, fmt.Sprintf(f, a...)) }
	dt := 1e9 / float64(c.Rate)
	chunkTime := int64(c.Chunk) * 1e9 / int64(c.Rate)
	sched := func(i int) float64 {
		return float64(start + int64(i/c.Chunk)*chunkTime + int64(float64(i%c.Chunk)*1e9/float64(c.Rate)))
	}
	prev, silent := -1, true
	for _, b := range r.log {
		for j := 0; j < len(b.b)/4; j++ {
			ans.Frames++
			l, h := b.frame(j)
			if l == 0 && h == 0 {
				if !silent && audio(prev+1) {
					problem("silence after sample %d, within a stretch of audio", prev)
					return
				}
				silent = true
				continue
			}
			i := (h-1)*30000 + l - 1
			if l < 1 || l > 30000 || h < 1 || !audio(i) {
				problem("frame %d is (%d, %d), which is no sample of the stream", ans.Frames, l, h)
				return
			}
			if i <= prev {
				problem("sample %d is played after sample %d", i, prev)
				return
			}
			if !silent && i == prev+1 {
				prev = i
				continue
			}
			// a stretch of audio starts
			ans.Starts++
			missed := 0
			for k := prev + 1; k < i; k++ {
				if audio(k) {
					missed++
					if audio(k - 1) {
						missed += 10 // only the first sample of a stretch may fall to rounding
					}
				}
			}
			if missed > 1 && !(missed <= 3 && len(c.Segs) > 0 && i-prev <= 3) {
				problem("after sample %d, sample %d is played (stretches of audio start at %v)", prev, i, first)
				return
			} else if missed > 0 {
				ans.Rounded++
			}
			tau := float64(b.at) + float64(j)*dt
			if off := (tau - sched(i)) / dt; math.Abs(off) > 1.1+100/dt {
				problem("sample %d, scheduled for %.0f, is played at %.0f: %.2f samples off", i, sched(i), tau, off)
				return
			}
			prev, silent = i, false
		}
	}
	if last := first[len(first)-1]; prev < last-c.Segs[len(c.Segs)-1]-1 {
		problem("the stream is played up to sample %d of %d only", prev, len(samples))
	}
}

func vprogCaseOf(rng *rand.Rand) vprogCase {
	c := vprogCase{Seed: rng.Int63(), Rate: []int{1000, 8000, 22050, 44100, 48000}[rng.Intn(5)], Cycles: []int{1, 3, 20}[rng.Intn(3)],
		Base: 1e15 + rng.Int63n(1e15), Skew: rng.Int63n(2e14) - 1e14, Start: 1e9 + rng.Int63n(5e9)}
	if rng.Intn(3) == 0 {
		c.Shift = rng.Int63n(2e12) - 1e12
	}
	c.Chunk = []int{c.Rate / 20, c.Rate / 10, c.Rate/10 + 7, c.Rate/4 + 1, c.Rate}[rng.Intn(5)]
	for total := 0; total < 8*c.Rate; {
		a, g := 2+rng.Intn(c.Rate), []int{1 + rng.Intn(3), c.Rate / 10, 1 + rng.Intn(c.Rate), 512}[rng.Intn(4)]
		c.Segs = append(c.Segs, a, g)
		total += a + g
	}
	// what is after the gap is only partly played: the device is not filled by it
	c.Segs = append(c.Segs, c.Rate)
	return c
}

func vprogJudge(k *verifkit.Run, child string, n int) {
	var wg sync.WaitGroup
	next := make(chan vprogCase)
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range next {
				var a vprogAnswer
				if k.Failed() || !k.Judge(verifkit.RunChild(child, c, 5*time.Minute), c, &a) {
					continue
				}
				for _, p := range a.Problems {
					k.Violation("misplayed", p, c)
				}
				if a.Unclear != "" {
					k.Inconclusive(a.Unclear)
					continue
				}
				k.Count("frames", int64(a.Frames))
				k.Count("starts of stretches of audio", int64(a.Starts))
				k.Count("volumes", int64(a.Volumes))
				k.Count("single samples lost to rounding", int64(a.Rounded))
				k.Count("saturated samples", int64(a.Max))
				k.Eval(fmt.Sprintf("%+v", c), a.Starts+a.Volumes > 3)
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- vprogCaseOf(k.Rand(i))
	}
	close(next)
	wg.Wait()
}

func TestVerif_C01_program(t *testing.T) {
	k := verifkit.Start(t, "C01", "player-program")
	defer k.Finish()
	vprogJudge(k, "C01program", k.N(12, 200))
	k.Require("starts of stretches of audio", 60)
}

func TestVerifChild_C14program(t *testing.T) {
	var c vprogCase
	verifkit.ChildArgs(t, &c)
	ans := vprogAnswer{}
	vprogVolume(c, &ans)
	verifkit.ChildDone(ans)
}

func vprogVolume(c vprogCase, ans *vprogAnswer) {
	r := vprogStart(c, ans)
	if r == nil {
		return
	}
	rng := rand.New(rand.NewSource(c.Seed))
	volumes := []float64{1, .5, .1, 0, 1e-3, 1.0 / 32768, .999, 1, 2, .25, 10, .3, math.SmallestNonzeroFloat64, .7}
	rng.Shuffle(len(volumes), func(i, j int) { volumes[i], volumes[j] = volumes[j], volumes[i] })
	if !r.setVolume(.75) {
		return
	}
	samples := make([][2]float64, c.Rate/10*60)
	for i := range samples {
		for ch := range samples[i] {
			switch rng.Intn(6) {
			case 0:
				samples[i][ch] = []float64{-1, 1, 0, .5, -.5, 1.0 / 32768, -1.0 / 32768, 32767. / 32768}[rng.Intn(8)]
			case 1:
				samples[i][ch] = rng.Float64()*6 - 3
			default:
				samples[i][ch] = rng.Float64()*2 - 1
			}
		}
	}
	samples[0], samples[1] = [2]float64{1, -.25}, [2]float64{1, -.25} // the first may fall to rounding
	if !r.queue(r.w.Now()+c.Start, samples) {
		return
	}
	from := int(c.Start/1e8) + 2
	if !r.play(from+58, r.w.Now()+int64(from+57)*1e8, func(n int) bool {
		if n < from || (n-from)%3 != 0 || len(volumes) == 0 {
			return true
		}
		// the player has written buffer n; buffer n+1 is converted already or about to be
		if !verifkit.Eventually(time.Minute, func() bool {
			r.mu.Lock()
			defer r.mu.Unlock()
			return len(r.log) == n+1
		}) {
			ans.Unclear = "the device stops"
			return false
		}
		if !r.setVolume(volumes[0]) {
			return false
		}
		volumes = volumes[1:]
		ans.Volumes++
		return true
	}) {
		if ans.Unclear == "" {
			ans.Unclear = "nothing is played"
		}
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	at := -1
	lastVol := -1.
	for bi, b := range r.log {
		// the buffer written first after a volume was set may have been converted before
		either := []float64{b.vol}
		if lastVol >= 0 && lastVol != b.vol {
			either = append(either, lastVol)
		}
		lastVol = b.vol
		var why string
		start := at
		for _, v := range either {
			why, at = "", start
			for j := 0; j < len(b.b)/4 && why == ""; j++ {
				l, h := b.frame(j)
				if at < 0 {
					if l == 0 && h == 0 {
						continue
					}
					at = 0
					nl, nh := 0, 0
					if j+1 < len(b.b)/4 {
						nl, nh = b.frame(j + 1)
					}
					if nl != l || nh != h {
						at = 1
					}
				}
				if at >= len(samples) {
					break
				}
				for ch, got := range []int{l, h} {
					x := samples[at][ch] * v
					if x >= 1 || x <= -1 {
						ans.Max++
					}
					want := math.Max(-1, math.Min(1, x)) * 32768
					if d := math.Abs(float64(got) - math.Min(want, 32767)); d > 1.0001 {
						why = fmt.Sprintf("sample %d of channel %d is %v, which at volume %v is played as %d (buffer %d)", at, ch, samples[at][ch], v, got, bi)
						break
					}
				}
				ans.Frames++
				at++
			}
			if why == "" {
				break
			}
		}
		if why != "" {
			ans.Problems = append(ans.Problems, why)
			return
		}
	}
	if at < len(samples)-10*c.Rate/10 {
		ans.Problems = append(ans.Problems, fmt.Sprintf("only %d of %d samples are played", at, len(samples)))
	}
}

func TestVerif_C14_program(t *testing.T) {
	k := verifkit.Start(t, "C14", "player-program")
	defer k.Finish()
	vprogJudge(k, "C14program", k.N(8, 120))
	k.Require("volumes", 50)
	k.Require("saturated samples", 1000)
}

func TestVerif_C13_program(t *testing.T) {
	k := verifkit.Start(t, "C13", "player-program")
	defer k.Finish()
	vprogJudge(k, "C14program", k.N(6, 60))
	k.Require("volumes", 40)
}
