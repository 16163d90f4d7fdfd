package playback

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/verifkit"
)

// Every method is called from a goroutine which calls nothing else: locks of other methods then order nothing by
// accident, so whatever is left unguarded is seen as racing.
func TestVerif_C27_methods(t *testing.T) {
	k := verifkit.Start(t, "C27", "methods")
	defer k.Finish()
	_, good, _ := plSetup(k)
	for round := 0; round < k.N(4, 30); round++ {
		rng := k.Rand(round)
		pl := NewPlaylist([]int{1, 100, 5000}[rng.Intn(3)], []string{"one.mp3", "missing.mp3", "two.mp3"}, []int{0, 100, 2000}[rng.Intn(3)])
		var songs, pauses int64
		pl.SetNewSongHandler(func(uint64, string, int64) { atomic.AddInt64(&songs, 1) })
		pl.SetPauseToggleHandler(func(bool, uint64) { atomic.AddInt64(&pauses, 1) })
		ctx, cancel := context.WithCancel(context.Background())
		go pl.StreamLoop(ctx)
		stop := make(chan struct{})
		var wg sync.WaitGroup
		calls := map[string]*int64{}
		each := func(name string, pause time.Duration, f func(i int)) {
			n := new(int64)
			calls[name] = n
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; ; i++ {
					select {
					case <-stop:
						return
					case <-time.After(pause):
					}
					f(i)
					atomic.AddInt64(n, 1)
				}
			}()
		}
		each("CurrentSong", time.Millisecond, func(int) { pl.CurrentSong() })
		each("Playing", time.Millisecond, func(int) { pl.Playing() })
		each("Pos", time.Millisecond, func(int) { pl.Pos() })
		each("Songs", time.Millisecond, func(int) { pl.Songs() })
		each("SetPlaying", 10*time.Millisecond, func(i int) { pl.SetPlaying(i%4 != 3) })
		each("SetPos", 15*time.Millisecond, func(i int) { pl.SetPos(i) })
		each("AddSong", 20*time.Millisecond, func(i int) { pl.AddSong(good[i%len(good)]) })
		each("AddSongs", 50*time.Millisecond, func(i int) { pl.AddSongs([]string{"one.mp3", "three.mp3"}) })
		each("InsertSong", 20*time.Millisecond, func(i int) { pl.InsertSong(good[i%len(good)], i%9) })
		each("InsertSongs", 50*time.Millisecond, func(i int) { pl.InsertSongs([]string{"one.mp3", "two.mp3"}, i%5) })
		each("RemoveSong", 5*time.Millisecond, func(i int) { pl.RemoveSong(i % 7) })
		var samples int64
		each("Fill", 0, func(int) {
			pl.Fill(make([]float64, 700), make([]float64, 700))
			samples += 700
		})
		time.Sleep(1500 * time.Millisecond)
		close(stop)
		wg.Wait()
		cancel()
		go pl.Fill(make([]float64, 1<<20), make([]float64, 1<<20))
		for n, c := range calls {
			k.Count("calls of "+n, *c)
		}
		k.Count("samples", samples)
		k.Count("songs announced", atomic.LoadInt64(&songs))
		k.Count("pauses announced", atomic.LoadInt64(&pauses))
		k.Eval(fmt.Sprint(round), samples > 0 && atomic.LoadInt64(&songs) > 1 && atomic.LoadInt64(&pauses) > 0)
	}
}

// Chunks and volumes arrive before, while and after the player is initialized.
func TestVerif_C27_startup(t *testing.T) {
	k := verifkit.Start(t, "C27", "startup")
	defer k.Finish()
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var queued int64
	for g := 0; g < 3; g++ {
		wg.Add(2)
		go func(g int) {
			defer wg.Done()
			for i := int64(0); ; i++ {
				select {
				case <-stop:
					return
				case <-time.After(time.Millisecond):
				}
				QueueChunk(i, i, CombineSamples(make([]float64, 44), make([]float64, 44)))
				atomic.AddInt64(&queued, 1)
			}
		}(g)
		go func(g int) {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				case <-time.After(time.Millisecond):
				}
				SetVolume(float64(i%10) / 10)
			}
		}(g)
	}
	time.Sleep(50 * time.Millisecond)
	before := atomic.LoadInt64(&queued)
	if err := Init(44100); err != nil {
		k.Inconclusive(err.Error())
	}
	time.Sleep(time.Second)
	close(stop)
	wg.Wait()
	k.Count("chunks queued", queued)
	k.Count("chunks queued before the player was ready", before)
	k.Eval("", before > 0 && queued > before)
}
