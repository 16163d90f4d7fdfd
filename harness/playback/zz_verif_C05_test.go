package playback

import (
	"fmt"
	"sync"
	"testing"

	"github.com/LogicalOverflow/music-sync/verifkit"
)

func TestVerif_C05_pause(t *testing.T) {
	r := verifkit.Start(t, "C05", "playlist-pauses")
	defer r.Finish()
	lib, good, _ := plSetup(r)
	n := r.N(280, 4000)
	var wg sync.WaitGroup
	slots := make(chan bool, 6)
	for i := 0; i < n; i++ {
		rng := r.Rand(i)
		songs := plPick(rng, good, 1+rng.Intn(4))
		if i%4 == 0 {
			songs = []string{"long.mp3"}
		}
		c := plBase(rng, songs, 80000+rng.Intn(80000))
		if rng.Intn(4) == 0 {
			c.Actions = nil // paused from the beginning
		}
		step := []int{40000, 8000, 1500, 600}[rng.Intn(4)]
		at, on := rng.Intn(step), rng.Intn(2) == 0
		for at < c.Total-c.Buffer-3*plSlack && len(c.Actions) < 60 {
			kind := "pause"
			if on {
				kind = "play"
			}
			c.Actions = append(c.Actions, plAction{Kind: kind, At: at})
			if rng.Intn(5) != 0 { // sometimes the same request again
				on = !on
			}
			if rng.Intn(4) != 0 { // sometimes at once
				at += rng.Intn(step)
			}
			if rng.Intn(12) == 0 {
				c.Actions = append(c.Actions, plAction{Kind: "jump", Arg: rng.Intn(4), At: at})
			}
		}
		c.Conc = i%3 == 2
		wg.Add(1)
		slots <- true
		go func(i int) {
			defer wg.Done()
			tr, st := plCheck(r, "C05", lib, c)
			<-slots
			r.Eval(fmt.Sprintf("%d %d %v %v", c.Buffer, c.Break, c.Songs, c.Actions), st.PausesIn > 0 && len(tr.Pauses) > 1)
			r.Sample(c)
		}(i)
	}
	wg.Wait()
	r.Require("pauses_announced", 200)
	r.Require("songs_paused", 30)
}
