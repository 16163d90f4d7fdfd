package playback

import (
	"fmt"
	"sync"
	"testing"

	"github.com/LogicalOverflow/music-sync/verifkit"
)

// every song announced exactly once, with name, length and first sample
func TestVerif_C04_announce(t *testing.T) {
	r := verifkit.Start(t, "C04", "playlist-announcements")
	defer r.Finish()
	lib, good, bad := plSetup(r)
	n := r.N(250, 3000)
	var wg sync.WaitGroup
	slots := make(chan bool, 6)
	for i := 0; i < n; i++ {
		rng := r.Rand(i)
		songs := plPick(rng, good[:6], 1+rng.Intn(6))
		if i%2 == 0 {
			for k := 0; k < 1+rng.Intn(2); k++ {
				songs = append(songs, bad[rng.Intn(len(bad))])
			}
		}
		c := plBase(rng, songs, 50000+rng.Intn(60000))
		at := 0
		for at < c.Total && i%5 != 0 {
			at += rng.Intn(20000)
			switch rng.Intn(3) {
			case 0:
				c.Actions = append(c.Actions, plAction{Kind: "jump", Arg: rng.Intn(12) - 4, At: at})
			case 1:
				c.Actions = append(c.Actions, plAction{Kind: "pause", At: at})
			case 2:
				c.Actions = append(c.Actions, plAction{Kind: "play", At: at})
			}
		}
		if i%3 == 0 { // edits
			c.Actions = append(c.Actions, plAction{Kind: "play", At: at})
			for k := 0; k < 4; k++ {
				at = c.Actions[len(c.Actions)-1].At + rng.Intn(9000)
				switch rng.Intn(3) {
				case 0:
					c.Actions = append(c.Actions, plAction{Kind: "add", Song: good[rng.Intn(6)], At: at})
				case 1:
					c.Actions = append(c.Actions, plAction{Kind: "insert", Arg: rng.Intn(9) - 2, Song: good[rng.Intn(6)], At: at})
				case 2:
					c.Actions = append(c.Actions, plAction{Kind: "remove", Arg: rng.Intn(9) - 2, At: at})
				}
			}
		}
		c.Conc = i%4 == 2
		wg.Add(1)
		slots <- true
		go func(i int) {
			defer wg.Done()
			_, st := plCheck(r, "C04", lib, c)
			<-slots
			r.Eval(fmt.Sprintf("%d %d %v %v", c.Buffer, c.Break, c.Songs, c.Actions), st.Songs > 1)
			r.Sample(c)
		}(i)
	}
	wg.Wait()
	r.Require("songs", 100)
}
