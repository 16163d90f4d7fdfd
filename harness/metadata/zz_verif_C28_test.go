package metadata

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"testing"

	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/verifkit"
)

func TestVerif_C28_files(t *testing.T) {
	k := verifkit.Start(t, "C28", "tags-and-lyrics")
	defer k.Finish()
	dir, err := ioutil.TempDir(os.Getenv("VERIF_WORK"), "tags")
	if err != nil {
		t.Fatal(err)
	}
	playback.AudioDir = dir
	p, lp := GetProvider(), GetLyricsProvider()
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // collecting a forgotten file would close it
	lyrics := []string{"", "[]", "[[", `[[{"timestamp":1,"caption":"x"}]]`, "{}", "null", `[{"a":1}]`, "garbage", `[[{"timestamp":"x"}]]`}
	n := k.N(1200, 60000)
	goroutines := runtime.NumGoroutine()
	before := verifkit.OpenFiles()
	for i := 0; i < n; i++ {
		rng := k.Rand(i)
		b := c25Tag(rng)
		if rng.Intn(2) == 0 {
			b = append(b, verifkit.SongBytes(rng.Intn(300), 2)...)
		}
		name := fmt.Sprintf("x%d.mp3", i%5)
		if rng.Intn(10) == 0 {
			name = "missing.mp3"
		} else {
			ioutil.WriteFile(filepath.Join(dir, name), b, 0644)
		}
		os.Remove(filepath.Join(dir, name+".json"))
		os.Remove(filepath.Join(dir, name[:len(name)-4]+".json"))
		if rng.Intn(4) != 0 {
			l := lyrics[rng.Intn(len(lyrics))]
			for _, f := range []string{name + ".json", name[:len(name)-4] + ".json"} {
				ioutil.WriteFile(filepath.Join(dir, f), []byte(l), 0644)
			}
		}
		md := p.CollectMetadata(name)
		ly := lp.CollectLyrics(name)
		if md.Title != "" {
			k.Count("songs with a title", 1)
		}
		if len(ly) > 0 {
			k.Count("songs with lyrics", 1)
		}
		after := verifkit.OpenFiles()
		if len(after) > len(before) {
			k.Violation("leak", fmt.Sprintf("collecting tags and lyrics of a song leaves files open: %v", after), map[string]interface{}{"song": b, "case": i})
			return
		}
		if g := runtime.NumGoroutine(); g > goroutines {
			if !verifkit.Eventually(30e9, func() bool { return runtime.NumGoroutine() <= goroutines }) {
				k.Violation("leak", "collecting tags and lyrics of a song leaves goroutines: "+verifkit.GoroutineSummary(), i)
				return
			}
		}
		k.Eval(verifkit.Short(string(b), 40), true)
		if i%500 == 499 {
			runtime.GC()
		}
	}
	k.Require("songs with lyrics", int64(n/20))
}
