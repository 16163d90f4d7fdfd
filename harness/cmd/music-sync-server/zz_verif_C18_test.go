package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"unicode/utf16"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/golang/protobuf/proto"
)

type vc18Atom struct {
	Timestamp int64  `json:"timestamp"`
	Caption   string `json:"caption"`
}

// vc18Song is what a song is announced with
type vc18Song struct {
	Title, Artist, Album string
	Lyrics               [][]vc18Atom
	Length               int64
}

var vc18Texts = []string{"", "a", "The first ", "line of lyrics.", " ", "日本語の歌", "müde", "mu\u0308de", "🎵", "\t", "\"quoted\" \\ back", "<&>\u2028", "x\ny",
	strings.Repeat("long ", 300), "שלום", "ab\ufffdcd"}

// vc18Tags are the tags t, a and b as written by common taggers
func vc18Tags(rng *rand.Rand, t, a, b string) []byte {
	ver := []int{3, 4}[rng.Intn(2)]
	frame := func(name, s string) (f []byte) {
		var d []byte
		if ver == 4 && rng.Intn(2) == 0 {
			d = append([]byte{3}, s...)
		} else {
			d = []byte{1, 0xff, 0xfe}
			for _, u := range utf16.Encode([]rune(s)) {
				d = append(d, byte(u), byte(u>>8))
			}
		}
		n := len(d)
		f = append(f, name...)
		if ver == 4 {
			f = append(f, byte(n>>21)&127, byte(n>>14)&127, byte(n>>7)&127, byte(n)&127)
		} else {
			f = append(f, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		}
		return append(append(f, 0, 0), d...)
	}
	body := append(append(frame("TIT2", t), frame("TPE1", a)...), frame("TALB", b)...)
	body = append(body, make([]byte, rng.Intn(64))...)
	n := len(body)
	return append([]byte{'I', 'D', '3', byte(ver), 0, 0, byte(n>>21) & 127, byte(n>>14) & 127, byte(n>>7) & 127, byte(n) & 127}, body...)
}

func vc18Of(m *comm.NewSongInfo) (s vc18Song) {
	if m.Metadata != nil {
		s.Title, s.Artist, s.Album = m.Metadata.Title, m.Metadata.Artist, m.Metadata.Album
	}
	s.Length = m.SongLength
	for _, l := range m.Lyrics {
		line := []vc18Atom{}
		for _, a := range l.Atoms {
			line = append(line, vc18Atom{a.Timestamp, a.Caption})
		}
		s.Lyrics = append(s.Lyrics, line)
	}
	return
}

// songs of the real server are announced with the lyrics and details of their files
func TestVerif_C18_server(t *testing.T) {
	k := verifkit.Start(t, "C18", "server")
	defer k.Finish()
	for round := 0; round < k.N(3, 40) && !k.Failed(); round++ {
		rng := k.Rand(round)
		w := vStart(k, nil, nil, nil, append(append([]string{}, fastFlags...), "--song-break-size", "441")...)
		want := map[string]vc18Song{}
		var names []string
		text := func() string { return vc18Texts[rng.Intn(len(vc18Texts))] }
		for i := 0; i < 28; i++ {
			// the same name may be found in several directories
			name := fmt.Sprintf("%s%02d%s.mp3", []string{"", "d/", "d e/f/"}[rng.Intn(3)], rng.Intn(10), []string{"", " x", "ü日", "🎵", ".", "'"}[rng.Intn(6)/(1+rng.Intn(6))])
			if _, twice := want[name]; twice {
				continue
			}
			p := filepath.Join(w.srv.Music, name)
			os.MkdirAll(filepath.Dir(p), 0755)
			var s vc18Song
			var tags []byte
			if rng.Intn(4) > 0 {
				// a tag ends at a null byte and its spaces may be trimmed
				for _, f := range []*string{&s.Title, &s.Artist, &s.Album} {
					*f = strings.TrimSpace(strings.Replace(text(), "\ufffd", "?", -1))
				}
				tags = vc18Tags(rng, s.Title, s.Artist, s.Album)
			}
			s.Length = int64(len(verifkit.WriteSong(p, rng.Intn(50), 4+rng.Intn(6), tags, nil)))
			if rng.Intn(4) > 0 {
				l := rng.Intn(8)
				if rng.Intn(8) == 0 {
					l = 200 << uint(rng.Intn(6))
				}
				for ; l > 0; l-- {
					line := []vc18Atom{}
					for a := rng.Intn(5); a > 0; a-- {
						ts := rng.Int63n(1e6)
						switch rng.Intn(8) {
						case 0:
							ts = -ts
						case 1:
							ts = []int64{math.MaxInt64, math.MinInt64, 0, 1 << 53, 1<<53 + 1, 1 << 32}[rng.Intn(6)]
						}
						line = append(line, vc18Atom{ts, text()})
					}
					s.Lyrics = append(s.Lyrics, line)
				}
				var b []byte
				if rng.Intn(2) == 0 {
					b, _ = json.Marshal(s.Lyrics)
				} else {
					b, _ = json.MarshalIndent(s.Lyrics, " ", "\t")
				}
				if s.Lyrics == nil {
					b = []byte("[]")
				}
				if err := ioutil.WriteFile(p+".json", b, 0644); err != nil {
					t.Fatal(err)
				}
			}
			want[name] = s
			names = append(names, name)
		}
		got := make(chan *comm.NewSongInfo, 1000)
		f, err := w.follow(func(m proto.Message) {
			if s, ok := m.(*comm.NewSongInfo); ok {
				got <- s
			}
		}, comm.Channel_META)
		s := w.admin(300, 40)
		if err != nil || s == nil {
			k.Inconclusive("no session")
			w.end()
			return
		}
		ok := true
		for _, n := range names {
			_, a := s.Cmd("queue "+strings.Replace(n, " ", `\ `, -1), vPatience)
			ok = ok && a
		}
		_, a := s.Cmd("resume", vPatience)
		check := func(m *comm.NewSongInfo, to string) {
			e, known := want[m.SongFileName]
			if !known {
				k.Violation("unknown-song", fmt.Sprintf("%q is announced%s, which was not queued", m.SongFileName, to), names)
				return
			}
			if o := vc18Of(m); !reflect.DeepEqual(o, e) {
				what, f1, f2 := "details", fmt.Sprintf("%+q", []string{o.Title, o.Artist, o.Album, fmt.Sprint(o.Length)}), fmt.Sprintf("%+q", []string{e.Title, e.Artist, e.Album, fmt.Sprint(e.Length)})
				if f1 == f2 {
					if len(o.Lyrics) == 0 && len(e.Lyrics) == 0 {
						return
					}
					what, f1, f2 = "lyrics", fmt.Sprintf("%+q", vc18JSON(o.Lyrics)), fmt.Sprintf("%+q", vc18JSON(e.Lyrics))
				}
				k.Violation(what, fmt.Sprintf("%q is announced%s with the %s %s, its files say %s", m.SongFileName, to, what, verifkit.Short(f1, 700), verifkit.Short(f2, 700)), e)
			}
			k.Count("songs announced"+to, 1)
			k.Count("captions", int64(len(e.Lyrics)))
		}
		seen := map[string]bool{}
		late := 0
		served := ok && a && verifkit.Eventually(vPatience, func() bool {
			for {
				select {
				case m := <-got:
					check(m, "")
					seen[m.SongFileName] = true
					if late < 4 && rng.Intn(4) == 0 { // to one who comes now
						late++
						l := make(chan *comm.NewSongInfo, 100)
						if g, err := w.follow(func(m proto.Message) {
							if s, ok := m.(*comm.NewSongInfo); ok {
								l <- s
							}
						}, comm.Channel_META); err == nil {
							check(<-l, " to a late client")
							g.c.Close()
						}
					}
				default:
					return len(seen) == len(names) || k.Failed()
				}
			}
		})
		if !w.broken("songs with lyrics are played", nil) && !served {
			k.Inconclusive(fmt.Sprintf("%d of %d songs announced in time", len(seen), len(names)))
		}
		k.Eval(fmt.Sprintf("%q", names), len(seen) > 10)
		f.c.Close()
		s.Close()
		w.end()
	}
	k.Require("songs announced", 40)
	k.Require("songs announced to a late client", 4)
}

func vc18JSON(l [][]vc18Atom) string {
	b, _ := json.Marshal(l)
	return string(b)
}
