package playback

import (
	"fmt"
	"sync"
	"testing"

	"github.com/LogicalOverflow/music-sync/verifkit"
)

// the stream of a playlist, nothing but music
func TestVerif_C03_stream(t *testing.T) {
	r := verifkit.Start(t, "C03", "playlist-stream")
	defer r.Finish()
	lib, good, bad := plSetup(r)
	n := r.N(300, 3000)
	var wg sync.WaitGroup
	slots := make(chan bool, 6)
	for i := 0; i < n; i++ {
		rng := r.Rand(i)
		songs := plPick(rng, good[:8], 1+rng.Intn(6))
		if i%4 == 3 {
			for k := 0; k < 1+rng.Intn(2); k++ {
				songs[rng.Intn(len(songs))] = bad[rng.Intn(len(bad))]
			}
		}
		c := plBase(rng, songs, 60000+rng.Intn(100000))
		// requests of every kind must not disturb it
		if i%2 == 1 {
			at := 0
			for k := rng.Intn(8); k > 0; k-- {
				at += rng.Intn(c.Total / 8)
				switch rng.Intn(4) {
				case 0:
					c.Actions = append(c.Actions, plAction{Kind: "jump", Arg: rng.Intn(20) - 10, At: at})
				case 1:
					c.Actions = append(c.Actions, plAction{Kind: "pause", At: at}, plAction{Kind: "play", At: at + rng.Intn(30000)})
					at = c.Actions[len(c.Actions)-1].At
				case 2:
					c.Actions = append(c.Actions, plAction{Kind: "pause", At: at}, plAction{Kind: "play", At: at})
				}
			}
			c.Conc = i%8 == 1
		}
		wg.Add(1)
		slots <- true
		go func(i int) {
			defer wg.Done()
			_, st := plCheck(r, "C03", lib, c)
			<-slots
			r.Eval(fmt.Sprintf("%d %d %v %v", c.Buffer, c.Break, c.Songs, c.Actions), st.Complete > 0)
			r.Sample(c)
		}(i)
	}
	wg.Wait()
	r.Require("songs_complete", 50)
	r.Require("samples", 1000000)
}
