package playback

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifstream"
)

func TestMain(m *testing.M) {
	log.DefaultCutoffLevel = log.LevelOff
	os.Exit(m.Run())
}

// The playlist harness: the real playlist streams real music; the monitor
// consumes it, issues requests at known stream positions, records what is
// announced, and judges stream and announcements together afterwards.

const (
	plIdle  = verifstream.Idle
	plSlack = verifstream.Slack
)

type (
	plSong       = verifstream.Song
	plAction     = verifstream.Action
	plCase       = verifstream.Case
	plDone       = verifstream.Done
	plSongEvent  = verifstream.SongEvent
	plPauseEvent = verifstream.PauseEvent
	plTrace      = verifstream.Trace
	plStats      = verifstream.Stats
	plProblem    = verifstream.Problem
)

func plRun(c plCase) *plTrace {
	rng := rand.New(rand.NewSource(c.Seed))
	t := &plTrace{Case: c}
	pl := NewPlaylist(c.Buffer, append([]string{}, c.Songs...), c.Break)
	pl.SetNewSongHandler(func(start uint64, name string, length int64) {
		t.Mu.Lock()
		t.Songs = append(t.Songs, plSongEvent{start, name, length})
		t.Mu.Unlock()
	})
	pl.SetPauseToggleHandler(func(playing bool, sample uint64) {
		t.Mu.Lock()
		t.Pauses = append(t.Pauses, plPauseEvent{playing, sample})
		t.Mu.Unlock()
	})
	ctx, cancel := context.WithCancel(context.Background())
	loopDone := make(chan struct{})
	var readLo, readHi int64
	var over int32
	do := func(a plAction) {
		d := plDone{Action: a, Before: int(atomic.LoadInt64(&readLo))}
		switch a.Kind {
		case "play":
			pl.SetPlaying(true)
		case "pause":
			pl.SetPlaying(false)
		case "jump":
			pl.SetPos(a.Arg)
		case "add":
			pl.AddSong(a.Song)
		case "insert":
			pl.InsertSong(a.Song, a.Arg)
		case "remove":
			pl.RemoveSong(a.Arg)
		}
		d.After = int(atomic.LoadInt64(&readHi))
		t.Mu.Lock()
		t.Done = append(t.Done, d)
		t.Mu.Unlock()
	}
	acts := append([]plAction{}, c.Actions...)
	for len(acts) > 0 && acts[0].At == 0 {
		do(acts[0])
		acts = acts[1:]
	}
	go func() { defer close(loopDone); pl.StreamLoop(ctx) }()
	var wg sync.WaitGroup
	progress := make(chan struct{}, 1)
	if c.Conc {
		wg.Add(1)
		go func(acts []plAction) {
			defer wg.Done()
			for _, a := range acts {
				for atomic.LoadInt64(&readLo) < int64(a.At) && atomic.LoadInt32(&over) == 0 {
					<-progress
				}
				do(a)
			}
		}(acts)
		acts = nil
	}
	read := 0
	finished := make(chan struct{})
	go func() {
		defer close(finished)
		for read < c.Total {
			n := 1 + rng.Intn(c.FillMax)
			if len(acts) > 0 && read < acts[0].At && read+n > acts[0].At {
				n = acts[0].At - read
			}
			for len(acts) > 0 && acts[0].At <= read {
				v, rep := verifkit.Bounded(120*time.Second, func() { do(acts[0]) })
				if v != verifkit.Completed {
					t.Stuck = fmt.Sprintf("request %+v at sample %d: %v", acts[0], read, rep)
					cancel()
					return
				}
				acts = acts[1:]
			}
			low, high := make([]float64, n), make([]float64, n)
			atomic.StoreInt64(&readHi, int64(read+n))
			idx := pl.Fill(low, high)
			if idx != uint64(read) && t.FillBad == "" {
				t.FillBad = fmt.Sprintf("reading %d samples after %d were read reports index %d", n, read, idx)
			}
			read += n
			atomic.StoreInt64(&readLo, int64(read))
			t.Low, t.High = append(t.Low, low...), append(t.High, high...)
			select {
			case progress <- struct{}{}:
			default:
			}
		}
	}()
	last, still := int64(-1), 0
	for running := true; running; {
		select {
		case <-finished:
			running = false
		case <-time.After(time.Second):
			// everything else here goes on; only the stream does not
			if now := atomic.LoadInt64(&readLo); now != last {
				last, still = now, 0
			} else if still++; still >= 60 {
				cancel()
				return &plTrace{Case: c, Stalled: fmt.Sprintf("nothing was pushed to the stream for a minute after %d samples; it is at\n%s", now, plProducer())}
			}
		}
	}
	if t.Stuck != "" {
		return t
	}
	atomic.StoreInt32(&over, 1)
	if c.Conc {
		close(progress)
		wg.Wait()
	}
	cancel()
	stop := make(chan struct{})
	go func() { // let the producer run into the cancelled context (this reader may be left behind waiting)
		pl.SetPlaying(true)
		l, h := make([]float64, 512), make([]float64, 512)
		for {
			select {
			case <-stop:
				return
			default:
				pl.Fill(l, h)
			}
		}
	}()
	<-loopDone
	close(stop)
	return t
}

// plProducer returns where the goroutine streaming the playlist is
func plProducer() string {
	for _, g := range verifkit.Goroutines() {
		if strings.Contains(g, "StreamLoop(") {
			return verifkit.Short(g, 700)
		}
	}
	return "no goroutine is streaming"
}

// plLibrary writes songs of many lengths and kinds.
func plLibrary(dir string) (map[string]plSong, []string, []string) {
	lib := map[string]plSong{}
	var good, bad []string
	put := func(name string, from, frames int) {
		ref := verifkit.WriteSong(filepath.Join(dir, name), from, frames, nil, nil)
		lib[name] = plSong{Name: name, Ref: ref, Len: verifkit.DecodedLen(filepath.Join(dir, name)), Playable: true}
		good = append(good, name)
	}
	// 1152 samples a frame: 4, 8 frames are multiples of 512 samples
	put("one.mp3", 0, 2)
	put("two.mp3", 10, 4)
	put("three.mp3", 20, 5)
	put("four.mp3", 30, 8)
	put("five.mp3", 45, 12)
	put("sub dir/six.mp3", 60, 3)
	put("sieben-ü.mp3", 70, 16)
	put("eight[1].mp3", 90, 24)
	put("long.mp3", 120, 60)
	for name, b := range map[string]string{"empty.mp3": "", "text.mp3": "this is no music at all, just some text.\n", "tag.mp3": "ID3\x03\x00\x00\x00\x00\x00\x0a0123456789"} {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(b), 0644); err != nil {
			panic(err)
		}
	}
	bad = []string{"empty.mp3", "text.mp3", "tag.mp3", "missing.mp3", "dir.mp3", "no dir/missing.mp3"}
	if err := os.MkdirAll(filepath.Join(dir, "dir.mp3"), 0755); err != nil {
		panic(err)
	}
	sort.Strings(bad)
	for _, b := range bad {
		lib[b] = plSong{Name: b}
	}
	return lib, good, bad
}

// plCheck runs a case and reports the problems which concern prop.
func plCheck(r *verifkit.Run, prop string, lib map[string]plSong, c plCase) (*plTrace, plStats) {
	t0 := time.Now()
	t := plRun(c)
	var problems []plProblem
	var st plStats
	retry := func() bool {
		problems, st = verifstream.Judge(t, lib)
		for _, p := range problems {
			if p.Retry && strings.Contains(p.Props, prop) {
				return false
			}
		}
		return true
	}
	t1 := time.Now()
	verifkit.Eventually(20*time.Second, retry)
	if os.Getenv("VERIF_KEEP") != "" {
		fmt.Println("times", t1.Sub(t0), time.Since(t1), problems)
	}
	for _, p := range problems {
		if strings.Contains(p.Props, prop) {
			r.Violation(p.Kind, p.Detail, c)
		} else {
			r.Count("problems_of_other_properties", 1)
			r.Sample(map[string]interface{}{"other": p})
			if os.Getenv("VERIF_KEEP") != "" {
				fmt.Printf("OTHER %+v\n", p)
			}
		}
	}
	r.Count("samples", int64(st.Samples))
	r.Count("songs", int64(st.Songs))
	r.Count("songs_complete", int64(st.Complete))
	r.Count("songs_cut", int64(st.Cut))
	r.Count("songs_paused", int64(st.PausesIn))
	r.Count("jumps", int64(st.Jumps))
	r.Count("jumps_judged", int64(st.JumpsJudged))
	r.Count("unplayable_skipped", int64(st.Skips))
	r.Count("pauses_announced", int64(len(t.Pauses)))
	return t, st
}

func plPick(rng *rand.Rand, l []string, n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, l[rng.Intn(len(l))])
	}
	return r
}

func plSetup(r *verifkit.Run) (map[string]plSong, []string, []string) {
	dir, err := os.MkdirTemp("", "songs")
	if err != nil {
		panic(err)
	}
	AudioDir = dir
	return plLibrary(dir)
}

var plBuffers = []int{1, 2, 7, 100, 511, 512, 513, 1000, 4410, 20000}
var plBreaks = []int{0, 1, 3, 511, 512, 513, 2000, 4410}

func plBase(rng *rand.Rand, songs []string, total int) plCase {
	return plCase{Buffer: plBuffers[rng.Intn(len(plBuffers))], Break: plBreaks[rng.Intn(len(plBreaks))], Songs: songs,
		Total: total, FillMax: []int{1, 64, 700, 5000, 30000}[1+rng.Intn(4)], Seed: rng.Int63(),
		Actions: []plAction{{Kind: "play"}}}
}
