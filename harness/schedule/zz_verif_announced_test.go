package schedule

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/verifkit"
)

// Whatever the order in which the handlers of songs and pauses run - each runs on a goroutine of its own -
// a client of the meta channel is told each of them exactly once, as it is.
func vAnnounced(t *testing.T, prop string, songs bool) {
	k := verifkit.Start(t, prop, "announced")
	defer k.Finish()
	dir, err := ioutil.TempDir(os.Getenv("VERIF_WORK"), "announced")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	playback.AudioDir = dir
	names := []string{"a.mp3", "b c.mp3", "sub/a.mp3", "sub/ü.mp3", "missing.mp3"}
	os.Mkdir(filepath.Join(dir, "sub"), 0755)
	for i, n := range names[:4] {
		ioutil.WriteFile(filepath.Join(dir, n), nil, 0644)
		if i%2 == 0 {
			ioutil.WriteFile(filepath.Join(dir, n+".json"), []byte(fmt.Sprintf(`[[{"timestamp":%d,"caption":"line of %s"}]]`, i*1000, n)), 0644)
		}
	}
	for i := 0; i < k.N(800, 20000) && !k.Failed(); i++ {
		rng := k.Rand(i)
		hub := &vHub{delay: func() {}}
		ss := vState(nil)
		ss.sender = hub
		handler, song, toggle := ss.createClientHandler(), ss.createNewSongHandler(), ss.createPauseToggleHandler()
		c := hub.join(handler, comm.Channel_META)
		before := len(c.received())
		type event struct {
			song, playing bool
			at            uint64
			name          string
			length        int64
		}
		var events []event
		playing, at := true, uint64(rng.Intn(1000))
		for n := 1 + rng.Intn(12); n > 0; n-- {
			at += uint64(1 + rng.Intn(100000))
			if rng.Intn(2) == 0 {
				events = append(events, event{song: true, at: at, name: names[rng.Intn(len(names))], length: rng.Int63n(1e7)})
			} else {
				playing = !playing
				events = append(events, event{at: at, playing: playing})
			}
		}
		run := func(e event) {
			if e.song {
				song(e.at, e.name, e.length)
			} else {
				toggle(e.playing, e.at)
			}
		}
		mode := rng.Intn(3) // in order, in any order, at once
		order := rng.Perm(len(events))
		var wg sync.WaitGroup
		for j, e := range events {
			e := e
			switch mode {
			case 0:
				run(e)
			case 1:
				run(events[order[j]])
			case 2:
				wg.Add(1)
				d := vDelays(rand.New(rand.NewSource(rng.Int63())))
				go func() {
					defer wg.Done()
					d()
					run(e)
				}()
			}
		}
		if v, rep := verifkit.Bounded(60*time.Second, wg.Wait); v == verifkit.Stuck {
			k.Violation("hangs", "announcing songs and pauses never ends", rep)
			return
		} else if v != verifkit.Completed {
			k.Inconclusive("announcing did not finish")
			return
		}
		told := map[string]int{}
		for _, m := range c.received()[before:] {
			switch m := m.(type) {
			case *comm.NewSongInfo:
				if songs {
					l := ""
					for _, x := range m.Lyrics {
						for _, a := range x.Atoms {
							l += fmt.Sprint(a.Timestamp, a.Caption)
						}
					}
					told[fmt.Sprintf("song %q at %d, %d samples, lyrics %q", m.SongFileName, m.FirstSampleOfSongIndex, m.SongLength, l)]++
				}
			case *comm.PauseInfo:
				if !songs {
					told[fmt.Sprintf("playing %v from %d on", m.Playing, m.ToggleSampleIndex)]++
				}
			}
		}
		judged := 0
		for _, e := range events {
			if e.song != songs {
				continue
			}
			s := fmt.Sprintf("playing %v from %d on", e.playing, e.at)
			if e.song {
				l := ""
				for j, n := range names[:4] {
					if n == e.name && j%2 == 0 {
						l = fmt.Sprint(int64(j*1000), "line of "+n)
					}
				}
				s = fmt.Sprintf("song %q at %d, %d samples, lyrics %q", e.name, e.at, e.length, l)
			}
			if told[s] != 1 {
				k.Violation("announced", fmt.Sprintf("of %v (mode %d, order %v), a client is told %d times %s: it is told %v", events, mode, order, told[s], s, told), events)
				return
			}
			delete(told, s)
			judged++
		}
		for s := range told {
			k.Violation("announced", fmt.Sprintf("of %v (mode %d, order %v), a client is told %s", events, mode, order, s), events)
			return
		}
		k.Count("announcements", int64(judged))
		k.Eval(fmt.Sprint(events, mode), judged > 0)
	}
}

func TestVerif_C04_announced(t *testing.T) { vAnnounced(t, "C04", true) }

func TestVerif_C05_announced(t *testing.T) { vAnnounced(t, "C05", false) }
