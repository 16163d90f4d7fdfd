package playback

import (
	"context"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/aristanetworks/goarista/monotime"
	"github.com/hajimehoshi/oto"
)

type c28Case struct {
	Seed        int64
	First, Then int
}

type c28Answer struct {
	Problem string
	Count   map[string]int64
	Marks   []verifkit.Usage
}

func TestVerifChild_C28songs(t *testing.T) {
	var c c28Case
	verifkit.ChildArgs(t, &c)
	log.DefaultCutoffLevel = log.LevelOff
	ans := c28Answer{Count: map[string]int64{}}
	defer func() { verifkit.ChildDone(ans) }()
	debug.SetGCPercent(-1) // collecting a forgotten file would close it
	dir := filepath.Join(os.Getenv("VERIF_CHILD_DIR"), "music")
	os.MkdirAll(filepath.Join(dir, "directory.mp3"), 0755)
	AudioDir = dir
	rng := rand.New(rand.NewSource(c.Seed))
	songs := []string{"missing.mp3", "directory.mp3", "a.txt"}
	write := func(n string, b []byte) {
		ioutil.WriteFile(filepath.Join(dir, n), b, 0644)
		songs = append(songs, n)
	}
	for i := 0; i < 4; i++ {
		write(fmt.Sprintf("sound%d.mp3", i), verifkit.SongBytes(i*50, 2+rng.Intn(10)))
		b := verifkit.SongBytes(i*50, 6)
		write(fmt.Sprintf("cut%d.mp3", i), b[:rng.Intn(len(b))])
		b = make([]byte, rng.Intn(3000))
		rng.Read(b)
		write(fmt.Sprintf("junk%d.mp3", i), b)
		write(fmt.Sprintf("mutated%d.mp3", i), c25Mutate(rng))
	}
	write("empty.mp3", nil)
	write("garbage-header.mp3", []byte(strings.Repeat("\xff\xfb\x90\x64", 200)))
	rng.Shuffle(len(songs), func(i, j int) { songs[i], songs[j] = songs[j], songs[i] })
	pl := NewPlaylist(2000, songs, 100)
	var started int64
	pl.SetNewSongHandler(func(uint64, string, int64) { atomic.AddInt64(&started, 1) })
	pl.SetPauseToggleHandler(func(bool, uint64) {})
	pl.SetPlaying(true)
	go pl.StreamLoop(context.Background())
	low, high := make([]float64, 4096), make([]float64, 4096)
	play := func(n int64) bool {
		end := time.Now().Add(5 * time.Minute)
		for from := atomic.LoadInt64(&started); atomic.LoadInt64(&started) < from+n; {
			pl.Fill(low, high)
			switch rng.Intn(40) {
			case 0:
				pl.SetPos(rng.Intn(1000) - 500)
			case 1:
				pl.SetPlaying(false)
				pl.Fill(low, high)
				pl.SetPlaying(true)
			}
			if time.Now().After(end) {
				return false
			}
		}
		return true
	}
	held := func() (u verifkit.Usage) {
		for i := 0; i < 100; i++ { // between two songs the next may already be open
			if pl.nextSongOpen(dir) <= 1 {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		return verifkit.Measure()
	}
	for _, n := range []int{c.First, c.Then} {
		if !play(int64(n)) {
			ans.Problem = "INCONCLUSIVE: the songs did not play in time"
			return
		}
		ans.Marks = append(ans.Marks, held())
	}
	ans.Count["songs played"] = atomic.LoadInt64(&started)
	if s := ans.Marks[0].Grown(ans.Marks[1], 1, 1, int64(c.Then)/2+200); s != "" {
		ans.Problem = fmt.Sprintf("after playing %d songs more than %d, %s", c.Then, c.First, s)
	}
}

// nextSongOpen counts the open songs.
func (pl *Playlist) nextSongOpen(dir string) (n int) {
	for _, f := range verifkit.OpenFiles() {
		if strings.HasPrefix(f, dir) {
			n++
		}
	}
	return
}

func TestVerif_C28_songs(t *testing.T) {
	k := verifkit.Start(t, "C28", "songs")
	defer k.Finish()
	c28Run(k, "C28songs", k.N(2, 20), 60, 300)
	k.Require("songs played", 360*2)
}

func c28Run(k *verifkit.Run, child string, n, first, then int) {
	for i := 0; i < n && !k.Failed(); i++ {
		c := c28Case{k.Rand(i).Int63(), first, then}
		var ans c28Answer
		res := verifkit.RunChild(child, c, 6*time.Minute)
		if !k.Judge(res, c, &ans) {
			return
		}
		for n, v := range ans.Count {
			k.Count(n, v)
		}
		if strings.HasPrefix(ans.Problem, "INCONCLUSIVE") {
			k.Inconclusive(ans.Problem)
			return
		}
		if ans.Problem != "" {
			k.Violation("leak", ans.Problem, c)
			return
		}
		k.Max("goroutines in the end", int64(ans.Marks[1].Goroutines))
		k.Max("files open in the end", int64(len(ans.Marks[1].Files)))
		k.Max("objects held in the end", ans.Marks[1].Objects)
		k.Eval(fmt.Sprint(c), true)
		k.Sample(c)
	}
}

// the player: chunks are queued as the (virtual) time passes and played
func TestVerifChild_C28player(t *testing.T) {
	var c c28Case
	verifkit.ChildArgs(t, &c)
	log.DefaultCutoffLevel = log.LevelOff
	ans := c28Answer{Count: map[string]int64{}}
	defer func() { verifkit.ChildDone(ans) }()
	rng := rand.New(rand.NewSource(c.Seed))
	const rate = 44100
	size := 400 + rng.Intn(2000)
	chunkTime := int64(size) * 1e9 / rate
	var vnow int64 = 1e15
	monotime.SetSource(func() uint64 { return uint64(atomic.LoadInt64(&vnow)) })
	timing.ResetOffsets(1)
	timing.UpdateOffset(1000, 1000, 1000, 1000)
	start := int64(1e15) + 1e9
	var mu sync.Mutex
	next, played := 0, int64(0)
	gap := 0
	halted := int32(0)
	world := func() {
		for start+int64(next)*chunkTime-5e8 <= atomic.LoadInt64(&vnow) {
			s := make([][2]float64, size)
			for j := range s {
				if gap > 0 {
					gap--
					s[j] = [2]float64{math.NaN(), math.NaN()}
				} else {
					s[j] = [2]float64{0.5, 0.25}
					if rng.Intn(20000) == 0 {
						gap = rng.Intn(3000)
					}
				}
			}
			if rng.Intn(50) != 0 { // some are lost
				at, id := start+int64(next)*chunkTime, int64(next)
				if rng.Intn(2) == 0 {
					QueueChunk(at, id, s)
				} else {
					go QueueChunk(at, id, s)
				}
			}
			next++
		}
	}
	oto.OnWrite = func(b []byte) (int, error) {
		for atomic.LoadInt32(&halted) == 1 {
			time.Sleep(time.Millisecond)
		}
		mu.Lock()
		defer mu.Unlock()
		for _, x := range b {
			if x != 0 {
				played++
			}
		}
		atomic.AddInt64(&vnow, int64(len(b)/4)*1e9/rate)
		world()
		return len(b), nil
	}
	if err := Init(rate); err != nil {
		ans.Problem = "init failed: " + err.Error()
		return
	}
	mu.Lock()
	world()
	mu.Unlock()
	reach := func(n int) bool {
		last, at := 0, time.Now()
		for {
			mu.Lock()
			now := next
			mu.Unlock()
			if now >= n {
				return true
			}
			if now != last {
				last, at = now, time.Now()
			} else if time.Since(at) > 200*time.Millisecond {
				// the player waits for data which is lost: time goes on anyway
				mu.Lock()
				atomic.AddInt64(&vnow, chunkTime)
				world()
				mu.Unlock()
			}
			time.Sleep(time.Millisecond)
		}
	}
	for _, n := range []int{c.First, c.First + c.Then} {
		if !reach(n) {
			return
		}
		atomic.StoreInt32(&halted, 1) // not playing while measuring
		time.Sleep(50 * time.Millisecond)
		mu.Lock()
		ans.Marks = append(ans.Marks, verifkit.Measure())
		mu.Unlock()
		atomic.StoreInt32(&halted, 0)
	}
	ans.Count["chunks queued"] = int64(next)
	ans.Count["bytes played"] = played
	if s := ans.Marks[0].Grown(ans.Marks[1], 0, 30, int64(c.Then)/2); s != "" {
		ans.Problem = fmt.Sprintf("after queueing %d chunks more than %d, %s", c.Then, c.First, s)
	}
}

func TestVerif_C28_player(t *testing.T) {
	k := verifkit.Start(t, "C28", "player")
	defer k.Finish()
	c28Run(k, "C28player", k.N(4, 30), 500, 3000*k.N(1, 3))
	k.Require("chunks queued", 3500*3)
	k.Require("bytes played", 1<<20)
}
