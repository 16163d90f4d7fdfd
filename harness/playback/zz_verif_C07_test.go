package playback

import (
	"fmt"
	"math"
	"sync"
	"testing"

	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifstream"
)

func TestVerif_C07_jump(t *testing.T) {
	r := verifkit.Start(t, "C07", "playlist-jumps")
	defer r.Finish()
	lib, good, bad := plSetup(r)
	n := r.N(240, 3000)
	var wg sync.WaitGroup
	slots := make(chan bool, 6)
	for i := 0; i < n; i++ {
		rng := r.Rand(i)
		var songs []string
		perm := rng.Perm(len(good))
		for _, p := range perm[:2+rng.Intn(len(good)-2)] {
			songs = append(songs, good[p])
		}
		if i%5 == 4 {
			songs[rng.Intn(len(songs))] = bad[rng.Intn(len(bad))]
		}
		c := plBase(rng, songs, 120000+rng.Intn(120000))
		at := 0
		for at < c.Total-60000 {
			at += []int{500, 3000, 20000, 60000}[rng.Intn(4)] + rng.Intn(3000)
			if i%11 == 0 { // into the breaks between songs as well
				at = rng.Intn(c.Total - 60000)
				if len(c.Actions) > 6 {
					break
				}
			}
			pos := rng.Intn(2*len(songs)) - len(songs)/2
			switch rng.Intn(8) {
			case 0:
				pos = math.MaxInt64 - rng.Intn(100)
			case 1:
				pos = math.MinInt64 + rng.Intn(100)
			case 2:
				pos = -1
			}
			c.Actions = append(c.Actions, plAction{Kind: "jump", Arg: pos, At: at})
			for k := rng.Intn(6) - 2; k > 0; k-- { // a burst
				c.Actions = append(c.Actions, plAction{Kind: "jump", Arg: rng.Intn(len(songs)), At: at})
			}
			if rng.Intn(6) == 0 {
				c.Actions = append(c.Actions, plAction{Kind: "pause", At: at + 100}, plAction{Kind: "jump", Arg: rng.Intn(len(songs)), At: at + 200}, plAction{Kind: "play", At: at + 9000})
				at += 9000
			}
		}
		if i%11 == 0 {
			for a := 1; a < len(c.Actions); a++ {
				for b := a; b > 0 && c.Actions[b].At < c.Actions[b-1].At; b-- {
					c.Actions[b], c.Actions[b-1] = c.Actions[b-1], c.Actions[b]
				}
			}
		}
		c.Conc = i%3 == 2
		wg.Add(1)
		slots <- true
		go func(i int) {
			defer wg.Done()
			_, st := plCheck(r, "C07", lib, c)
			<-slots
			r.Eval(fmt.Sprintf("%d %d %v %v", c.Buffer, c.Break, c.Songs, c.Actions), st.JumpsJudged > 0)
			r.Sample(c)
		}(i)
	}
	wg.Wait()
	r.Require("jumps_judged", 100)
}

// a jump while nothing is read (the stream is blocked), before the stream
// begins, or with an empty playlist must not block
func TestVerif_C07_idle(t *testing.T) {
	r := verifkit.Start(t, "C07", "jumps-never-block")
	defer r.Finish()
	lib, good, _ := plSetup(r)
	for i := 0; i < r.N(30, 300); i++ {
		rng := r.Rand(i)
		songs := plPick(rng, good, rng.Intn(4))
		c := plBase(rng, songs, 100000)
		c.Actions = nil
		for k := 0; k < 1+rng.Intn(12); k++ {
			c.Actions = append(c.Actions, plAction{Kind: "jump", Arg: rng.Intn(9) - 4})
		}
		c.Actions = append(c.Actions, plAction{Kind: "play"})
		at := rng.Intn(3) * rng.Intn(2000)
		for k := 0; k < 1+rng.Intn(12); k++ {
			c.Actions = append(c.Actions, plAction{Kind: "jump", Arg: rng.Intn(9) - 4, At: at})
		}
		if len(songs) == 0 {
			c.Actions = append(c.Actions, plAction{Kind: "add", Song: good[0], At: at}, plAction{Kind: "add", Song: good[1], At: at})
		}
		tr, st := plCheck(r, "C07", lib, c)
		r.Eval(fmt.Sprint(i), len(tr.Done) > 2)
		if len(tr.Done) != len(c.Actions) {
			r.Inconclusive("requests were left out")
		}
		if st.Songs == 0 {
			r.Violation("no-song-after-jumps", fmt.Sprintf("after jumps %s no song is played within %d samples (playlist %q)", verifstream.DoneList(tr.Done), c.Total, c.Songs), c)
		}
	}
	r.Require("songs", 20)
}
