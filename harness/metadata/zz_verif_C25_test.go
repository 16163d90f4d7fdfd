package metadata

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/verifkit"
)

func c25Tag(rng *rand.Rand) []byte {
	junk := func(n int) []byte {
		d := make([]byte, n)
		for i := range d {
			d[i] = byte(rng.Intn(256))
			if rng.Intn(3) == 0 {
				d[i] = byte(rng.Intn(4))
			}
		}
		return d
	}
	le := func(n int) []byte { return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)} }
	switch rng.Intn(10) {
	case 0: // flac with broken blocks
		b := []byte("fLaC")
		for k := rng.Intn(5); k > 0; k-- {
			n := rng.Intn(60)
			d := junk(n)
			typ := byte(rng.Intn(7))
			if typ == 4 && rng.Intn(4) != 0 { // (its lengths of up to 4 GB only cost time)
				typ = 1
			}
			if typ == 4 && n > 8 {
				d = append(le(rng.Intn(20)), d...)
			}
			b = append(append(b, typ|byte(rng.Intn(2))<<7, 0, byte(rng.Intn(2)), byte(len(d)+rng.Intn(3)-1)), d...)
		}
		return b
	case 1: // ogg
		b := []byte("OggS")
		b = append(b, junk(rng.Intn(30))...)
		if rng.Intn(2) == 0 {
			b = append(append([]byte("OggS\x00\x02"), make([]byte, 20)...), 1, byte(rng.Intn(40)))
			b = append(b, "\x03vorbis"...)
			b = append(b, le(rng.Intn(40))...)
			b = append(b, junk(rng.Intn(60))...)
		}
		return b
	case 2: // mp4 atoms
		b := []byte{0, 0, 0, 8}
		b = append(b, "ftyp"...)
		names := []string{"moov", "udta", "meta", "ilst", "\xa9nam", "\xa9ART", "\xa9alb", "trkn", "disk", "covr", "----", "data", "mean", "name", "tmpo"}
		for k := rng.Intn(8); k > 0; k-- {
			n := rng.Intn(40)
			b = append(b, 0, 0, 0, byte(n+8+rng.Intn(3)-1))
			b = append(b, names[rng.Intn(len(names))]...)
			b = append(b, junk(n)...)
		}
		return b
	case 3:
		return append([]byte("DSD "), junk(rng.Intn(120))...)
	case 4: // id3v1
		b := junk(rng.Intn(300))
		return append(append(b, "TAG"...), junk(rng.Intn(130))...)
	case 5:
		return junk(rng.Intn(200))
	}
	ver := 2 + rng.Intn(3)
	frames := []string{"TIT2", "TPE1", "TALB", "APIC", "COMM", "TXXX", "UFID", "TCON", "TRCK", "WXXX", "USLT", "TPOS", "PIC", "TT2", "COM", "ULT", "TXX"}
	var b []byte
	for k := rng.Intn(6); k > 0; k-- {
		d := junk(rng.Intn(30))
		size := len(d)
		switch rng.Intn(6) {
		case 0:
			size = rng.Intn(1 << 14)
		case 1:
			size = rng.Intn(5)
		case 2:
			if size += rng.Intn(10) - 5; size < 0 {
				size = 0
			}
		}
		b = append(b, mdFrame(ver, frames[rng.Intn(len(frames))], size, [2]byte{byte(rng.Intn(2) * rng.Intn(256)), byte(rng.Intn(2) * rng.Intn(256))}, d)...)
	}
	n := len(b)
	if rng.Intn(3) == 0 {
		n = rng.Intn(1 << 14)
	}
	return append(mdHeader(ver, byte(rng.Intn(2)*rng.Intn(256))&^0x40, n), b...) // (extended headers of 4 GB only cost time)
}

// no tags bring the collection down, and a following sound song is described correctly
func TestVerif_C25_tags(t *testing.T) {
	r := verifkit.Start(t, "C25", "malformed-tags")
	defer r.Finish()
	dir, err := ioutil.TempDir("", "tags")
	if err != nil {
		t.Fatal(err)
	}
	playback.AudioDir = dir
	p := GetProvider()
	n := r.N(6000, 100000)
	for i := 0; i < n; i++ {
		rng := r.Rand(i)
		b := c25Tag(rng)
		if rng.Intn(2) == 0 {
			b = append(b, verifkit.SongBytes(rng.Intn(300), 2)...)
		}
		if err := ioutil.WriteFile(filepath.Join(dir, "x.mp3"), b, 0644); err != nil {
			t.Fatal(err)
		}
		var md SongMetadata
		pan := ""
		v, rep := verifkit.Bounded(120*time.Second, func() { pan = verifkit.Catch(func() { md = p.CollectMetadata("x.mp3") }) })
		if v == verifkit.Stuck {
			r.Violation("metadata-hangs", fmt.Sprint(rep), b)
			return
		} else if v != verifkit.Completed {
			r.Inconclusive(fmt.Sprintf("reading tags took too long: %v", rep))
			return
		}
		if pan != "" {
			r.Violation("crash", "reading malformed tags panics: "+verifkit.Short(pan, 600), b)
		}
		some := md != SongMetadata{}
		if some {
			r.Count("with_metadata", 1)
		}
		r.Eval(string(b), true)
	}
}

// no lyrics file brings the collection down
func TestVerif_C25_lyrics(t *testing.T) {
	r := verifkit.Start(t, "C25", "malformed-lyrics")
	defer r.Finish()
	dir, err := ioutil.TempDir("", "lyrics")
	if err != nil {
		t.Fatal(err)
	}
	playback.AudioDir = dir
	p := GetLyricsProvider()
	n := r.N(3000, 50000)
	for i := 0; i < n; i++ {
		rng := r.Rand(i)
		var lines []LyricsLine
		for k := rng.Intn(4); k > 0; k-- {
			var l LyricsLine
			for a := rng.Intn(4); a > 0; a-- {
				l = append(l, LyricsAtom{Timestamp: rng.Int63n(1000) - 500, Caption: string(rune(rng.Intn(1000)))})
			}
			lines = append(lines, l)
		}
		b, _ := json.Marshal(lines)
		switch rng.Intn(7) {
		case 0:
			b = b[:rng.Intn(len(b)+1)]
		case 1:
			if len(b) > 0 {
				b[rng.Intn(len(b))] = byte(rng.Intn(256))
			}
		case 2:
			b = []byte(strings.Repeat("[", 1+rng.Intn(100000)))
		case 3:
			b = []byte([]string{"null", "[null]", "[[null]]", "{}", "[{}]", "[[{}]]", "1", "\"x\"", "", " ", "[[{\"timestamp\":1e99}]]", "[[{\"timestamp\":\"1\"}]]",
				"[[{\"caption\":5}]]", "[[{\"timestamp\":9223372036854775807,\"caption\":\"\\ud800\"}]]", "[[{\"timestamp\":1.5}]]", "\xff\xfe[]"}[rng.Intn(16)])
		}
		f := filepath.Join(dir, "x.mp3.json")
		os.RemoveAll(f)
		if rng.Intn(50) == 0 {
			os.MkdirAll(f, 0755)
		} else if err := ioutil.WriteFile(f, b, 0644); err != nil {
			t.Fatal(err)
		}
		pan := verifkit.Catch(func() { r.Count("lines", int64(len(p.CollectLyrics("x.mp3")))) })
		if pan != "" {
			r.Violation("crash", "reading malformed lyrics panics: "+verifkit.Short(pan, 600), b)
		}
		r.Eval(string(b), true)
	}
}
