package playback

import (
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifstream"
)

// playlists with files which are no songs: every playable song is reached, in order, and silence goes on meanwhile
func TestVerif_C25_skipped(t *testing.T) {
	r := verifkit.Start(t, "C25", "unplayable-skipped")
	defer r.Finish()
	lib, good, bad := plSetup(r)
	n := r.N(120, 1500)
	var wg sync.WaitGroup
	slots := make(chan bool, 6)
	for i := 0; i < n; i++ {
		rng := r.Rand(i)
		var songs []string
		for k := rng.Intn(5); k > 0; k-- {
			songs = append(songs, good[rng.Intn(6)])
		}
		for k := 1 + rng.Intn(3); k > 0; k-- {
			at := rng.Intn(len(songs) + 1)
			songs = append(songs[:at], append([]string{bad[rng.Intn(len(bad))]}, songs[at:]...)...)
		}
		c := plBase(rng, songs, 120000+rng.Intn(100000))
		wg.Add(1)
		slots <- true
		go func(i int) {
			defer func() { <-slots; wg.Done() }()
			tr, st := plCheck(r, "C25", lib, c)
			if tr.Stalled != "" {
				return
			}
			// which songs have to have been started by the end of what was read
			var want []string
			at := 0
			for k := 0; ; k++ {
				s := lib[songs[k%len(songs)]]
				if !s.Playable {
					at += plIdle + c.Break + plSlack
				} else {
					want = append(want, s.Name)
					at += len(s.Ref) + c.Break + plSlack
				}
				if at > c.Total {
					break
				}
			}
			if len(want) > 0 && at > c.Total {
				want = want[:len(want)-1]
			}
			var got []string
			verifkit.Eventually(20*time.Second, func() bool { // the last announcement may be on its way
				ev, _ := tr.Snapshot()
				got = nil
				for _, e := range ev {
					got = append(got, e.Name)
				}
				return len(got) >= len(want)
			})
			for k := range want {
				if k >= len(got) || got[k] != want[k] {
					r.Violation("playable-song-not-reached", fmt.Sprintf("playlist %v, %d samples read: songs announced %v, expected to begin with %v", songs, c.Total, got, want), c)
					break
				}
			}
			r.Count("songs_reached", int64(len(got)))
			r.Eval(fmt.Sprintf("%d %d %v", c.Buffer, c.Break, c.Songs), st.Skips > 0 || len(got) == 0)
		}(i)
	}
	wg.Wait()
	r.Require("songs_reached", 1)
	r.Require("samples", 1)
}

type c25File struct {
	Name string
	Data []byte
}

type c25Case struct {
	Files   []c25File // malformed
	Buffer  int
	Break   int
	Removed bool // files vanish and change while being streamed
	Seed    int64
}

type c25Answer struct {
	Problem  string
	Samples  int
	Reached  int
	Partial  int // malformed songs of which something was played
	Rejected int
	Changes  int
}

// malformed music: an own process each, since it may bring the process down
func TestVerifChild_c25(t *testing.T) {
	var c c25Case
	verifkit.ChildArgs(t, &c)
	var ans c25Answer
	dir, err := ioutil.TempDir("", "c25")
	if err != nil {
		t.Fatal(err)
	}
	AudioDir = dir
	lib, good, _ := plLibrary(dir)
	sent := []string{good[0], good[1], good[2], good[3]}
	var songs []string
	budget := 0
	for i, f := range c.Files {
		if err := ioutil.WriteFile(filepath.Join(dir, f.Name), f.Data, 0644); err != nil {
			t.Fatal(err)
		}
		songs = append(songs, f.Name, sent[i%len(sent)])
		// a frame has at least 4 bytes of header and at most 1152 samples
		budget += len(f.Data)/4*1152 + plIdle + plSlack + 2*c.Break + len(lib[sent[i%len(sent)]].Ref) + c.Buffer
	}
	pl := NewPlaylist(c.Buffer, songs, c.Break)
	pl.SetPlaying(true)
	var mu sync.Mutex
	var events []plSongEvent
	pl.SetNewSongHandler(func(start uint64, name string, length int64) {
		mu.Lock()
		events = append(events, plSongEvent{start, name, length})
		mu.Unlock()
	})
	go pl.StreamLoop(context.Background())
	rng := rand.New(rand.NewSource(c.Seed))
	var low, high []float64
	count := func() (n int, all []plSongEvent) {
		mu.Lock()
		defer mu.Unlock()
		all = append([]plSongEvent{}, events...)
		sort.SliceStable(all, func(i, j int) bool { return all[i].Start < all[j].Start })
		k := 0
		for _, e := range all {
			if n < len(c.Files) && e.Name == sent[n%len(sent)] {
				n++
			}
			k++
		}
		return
	}
	// read until the last sentinel was announced and is behind
	for {
		n, all := count()
		ans.Reached = n
		if n == len(c.Files) {
			last := all[len(all)-1]
			if len(low) > int(last.Start)+len(lib[sent[0]].Ref) || len(low) > budget {
				break
			}
		}
		if len(low) > budget {
			verifkit.Eventually(20*time.Second, func() bool { n, _ := count(); return n == len(c.Files) })
			if n, _ := count(); n < len(c.Files) {
				ans.Problem = fmt.Sprintf("after %d samples (at most %d can be due) song %d (%q) of %v has not been reached; announced: %s", len(low), budget, 2*n+1, sent[n%len(sent)], songs, verifstream.SongList(all))
			}
			break
		}
		l, h := make([]float64, 2048), make([]float64, 2048)
		done := make(chan struct{})
		go func() { pl.Fill(l, h); close(done) }()
		still := 0
		for waiting := true; waiting; {
			select {
			case <-done:
				waiting = false
			case <-time.After(time.Second):
				if still++; still >= 60 {
					ans.Problem = fmt.Sprintf("nothing was pushed to the stream for a minute after %d samples; it is at\n%s", len(low), plProducer())
					ans.Samples = len(low)
					verifkit.ChildDone(ans)
				}
			}
		}
		low, high = append(low, l...), append(high, h...)
		if c.Removed && rng.Intn(3) == 0 {
			f := c.Files[rng.Intn(len(c.Files))]
			p := filepath.Join(dir, f.Name)
			switch rng.Intn(4) {
			case 0:
				os.Remove(p)
			case 1:
				os.Truncate(p, int64(rng.Intn(len(f.Data)+1)))
			case 2:
				ioutil.WriteFile(p, f.Data, 0644)
			case 3:
				os.Chmod(p, 0)
			}
			ans.Changes++
		}
	}
	ans.Samples = len(low)
	_, all := count()
	// the sound songs are streamed untouched, wherever they come
	names := map[string]bool{}
	for _, s := range sent {
		names[s] = true
	}
	for i, e := range all {
		if !names[e.Name] {
			ans.Partial++
			continue
		}
		ref := lib[e.Name].Ref
		if e.Length != lib[e.Name].Len && ans.Problem == "" {
			ans.Problem = fmt.Sprintf("%q announced with length %d instead of %d", e.Name, e.Length, lib[e.Name].Len)
		}
		for k := 0; k < len(ref) && int(e.Start)+k < len(low); k++ {
			if low[int(e.Start)+k] != ref[k][0] || high[int(e.Start)+k] != ref[k][1] {
				if ans.Problem == "" {
					ans.Problem = fmt.Sprintf("sample %d of %q (song %d, announced at %d) is (%v, %v) instead of (%v, %v)", k, e.Name, i, e.Start, low[int(e.Start)+k], high[int(e.Start)+k], ref[k][0], ref[k][1])
				}
				break
			}
		}
	}
	ans.Rejected = len(all) - ans.Partial
	for i := range low {
		if math.IsNaN(low[i]) != math.IsNaN(high[i]) && ans.Problem == "" {
			ans.Problem = fmt.Sprintf("sample %d is (%v, %v)", i, low[i], high[i])
		}
	}
	verifkit.ChildDone(ans)
}

func c25Mutate(rng *rand.Rand) []byte {
	b := append([]byte{}, verifkit.SongBytes(rng.Intn(300), 1+rng.Intn(12))...)
	switch rng.Intn(8) {
	case 0: // truncated
		return b[:rng.Intn(len(b))]
	case 1: // garbage within
		at := rng.Intn(len(b))
		g := make([]byte, rng.Intn(3000))
		rng.Read(g)
		return append(b[:at:at], append(g, b[at:]...)...)
	case 2: // garbage only
		g := make([]byte, rng.Intn(5000))
		rng.Read(g)
		return g
	case 3: // frame headers only
		var g []byte
		for k := rng.Intn(200); k > 0; k-- {
			g = append(g, 0xff, 0xfb, byte(rng.Intn(256)), byte(rng.Intn(256)))
		}
		return g
	case 4: // zeroed part
		at := rng.Intn(len(b))
		for k := at; k < len(b) && k < at+1000; k++ {
			b[k] = 0
		}
		return b
	}
	for k := 1 + rng.Intn(20); k > 0; k-- {
		p := 4 + rng.Intn(len(b)-4)
		switch rng.Intn(3) {
		case 0:
			b[p] = byte(rng.Intn(256))
		case 1:
			b[p] ^= 1 << uint(rng.Intn(8))
		case 2: // side information of a frame
			off := 0
			for f := rng.Intn(12); f > 0 && off+600 < len(b); f-- {
				for off++; off+40 < len(b) && !(b[off] == 0xff && b[off+1] >= 0xfa); off++ {
				}
			}
			if off+36 < len(b) {
				b[off+4+rng.Intn(32)] = byte(rng.Intn(256))
			}
		}
	}
	return b
}

func TestVerif_C25_malformed(t *testing.T) {
	r := verifkit.Start(t, "C25", "malformed-music")
	defer r.Finish()
	var corpus [][]byte
	files, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_DIR"), "data", "crash", "*"))
	sort.Strings(files)
	for _, f := range files {
		b, err := ioutil.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		corpus = append(corpus, b)
	}
	n := r.N(28, 400)
	var wg sync.WaitGroup
	slots := make(chan bool, 4)
	for i := 0; i < n; i++ {
		rng := r.Rand(i)
		c := c25Case{Buffer: plBuffers[rng.Intn(len(plBuffers))], Break: plBreaks[rng.Intn(len(plBreaks))], Seed: rng.Int63(), Removed: i%4 == 3}
		for k := 0; k < 12; k++ {
			d := c25Mutate(rng)
			if rng.Intn(4) == 0 && len(corpus) > 0 {
				d = corpus[rng.Intn(len(corpus))]
			}
			c.Files = append(c.Files, c25File{fmt.Sprintf("m%d.mp3", k), d})
		}
		wg.Add(1)
		slots <- true
		go func() {
			defer func() { <-slots; wg.Done() }()
			var ans c25Answer
			if !r.Judge(verifkit.RunChild("c25", c, 300*time.Second), c, &ans) {
				return
			}
			if ans.Problem != "" {
				r.Violation("stream-broken-by-media", ans.Problem, c)
			}
			r.Count("samples", int64(ans.Samples))
			r.Count("sound_songs_reached", int64(ans.Reached))
			r.Count("malformed_files", int64(len(c.Files)))
			r.Count("malformed_partly_played", int64(ans.Partial))
			r.Count("file_changes_meanwhile", int64(ans.Changes))
			b, _ := json.Marshal(c)
			r.Eval(string(b), ans.Reached > 0)
		}()
	}
	wg.Wait()
	r.Require("malformed_partly_played", 1)
	r.Require("sound_songs_reached", 1)
}

// songs which can not be played for a while: they stay in the playlist and are played once they can be again
func TestVerif_C25_returning(t *testing.T) {
	r := verifkit.Start(t, "C25", "songs which come back")
	defer r.Finish()
	lib, good, _ := plSetup(r)
	one, err := ioutil.ReadFile(filepath.Join(AudioDir, "one.mp3"))
	if err != nil {
		t.Fatal(err)
	}
	for i, n := 0, r.N(12, 200); i < n && !r.Failed(); i++ {
		rng := r.Rand(i)
		var songs []string
		missing := map[string]bool{}
		for k := 1 + rng.Intn(4); k > 0; k-- {
			songs = append(songs, good[rng.Intn(6)])
		}
		var names []string
		for k := 1 + rng.Intn(3); k > 0; k-- {
			name := fmt.Sprintf("returning %d-%d.mp3", i, k)
			names = append(names, name)
			missing[name] = true
			at := rng.Intn(len(songs) + 1)
			songs = append(songs[:at], append([]string{name}, songs[at:]...)...)
		}
		how := rng.Intn(4)
		broken := func(name string) {
			p := filepath.Join(AudioDir, name)
			os.RemoveAll(p)
			switch how {
			case 1:
				ioutil.WriteFile(p, nil, 0644)
			case 2:
				ioutil.WriteFile(p, []byte("not music"), 0644)
			case 3:
				os.Mkdir(p, 0755)
			}
		}
		whole := func(name string) {
			p := filepath.Join(AudioDir, name)
			os.RemoveAll(p)
			ioutil.WriteFile(p, one, 0644)
		}
		brk := plBreaks[rng.Intn(len(plBreaks))]
		round := 0
		for _, s := range songs {
			round += plIdle + brk + plSlack + len(lib[s].Ref) + len(lib["one.mp3"].Ref)
		}
		pl := NewPlaylist(plBuffers[rng.Intn(len(plBuffers))], append([]string{}, songs...), brk)
		var mu sync.Mutex
		heard := map[string]int{}
		pl.SetNewSongHandler(func(_ uint64, name string, _ int64) {
			mu.Lock()
			heard[name]++
			mu.Unlock()
		})
		pl.SetPlaying(true)
		for name := range missing {
			if rng.Intn(3) == 0 {
				whole(name) // playable at first
			} else {
				broken(name)
			}
		}
		ctx, cancel := context.WithCancel(context.Background())
		go pl.StreamLoop(ctx)
		read := func(n int) bool {
			v, st := verifkit.Bounded(60*time.Second, func() {
				for n > 0 {
					pl.Fill(make([]float64, 2000), make([]float64, 2000))
					n -= 2000
				}
			})
			if v != verifkit.Completed {
				r.Violation("stalled", fmt.Sprintf("playlist %v: %v", songs, st), i)
				return false
			}
			return true
		}
		ok := true
		for phase := 0; ok && phase < 2; phase++ {
			for name := range missing {
				broken(name)
			}
			if ok = read(round * 3 / 2); !ok {
				break
			}
			for name := range missing {
				whole(name)
			}
			mu.Lock()
			heard = map[string]int{}
			mu.Unlock()
			if ok = read(3*round + 50000); !ok {
				break
			}
			for _, name := range names {
				name := name
				if !verifkit.Eventually(20*time.Second, func() bool {
					mu.Lock()
					defer mu.Unlock()
					return heard[name] > 0
				}) {
					mu.Lock()
					r.Violation("not-played-again", fmt.Sprintf("playlist %v: %q could not be played for a while (%d), then was put back; within %d more samples it was not played, but %v", songs, name, how, 3*round+50000, heard), i)
					mu.Unlock()
					ok = false
				}
				r.Count("songs put back", 1)
			}
			if got := pl.Songs(); fmt.Sprint(got) != fmt.Sprint(songs) {
				r.Violation("playlist-changed", fmt.Sprintf("playlist %q became %q without any edit", songs, got), i)
			}
		}
		cancel()
		go pl.Fill(make([]float64, 100000), make([]float64, 100000))
		for name := range missing {
			os.RemoveAll(filepath.Join(AudioDir, name))
		}
		r.Eval(fmt.Sprint(songs), ok)
	}
	r.Require("songs put back", 1)
}
