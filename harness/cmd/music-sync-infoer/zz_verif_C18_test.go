package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"time"
	"unicode"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/aristanetworks/goarista/monotime"
	"github.com/gdamore/tcell"
	"github.com/mattn/go-runewidth"
)

type c18Atom struct {
	Timestamp int64
	Caption   string
}

var c18Alphabets = []string{
	"abcdefghij ",
	"äöüéßñ ",
	"日本語歌詞 a",
	"한국어 b",
	"кириллица ",
	"😀🎵a b",
	"%s%d\\\"'{}[] ",
	"e\u0301a\u0308o\u0302 ",
	"\x00\x01\x1b\t\n\r\x7fab\u200d\u202e",
	"\u0301\u20dd ",
}

func c18Text(rng *rand.Rand, max int, plain bool) string {
	a := []rune(c18Alphabets[rng.Intn(len(c18Alphabets))])
	if plain {
		a = []rune(c18Alphabets[rng.Intn(8)])
	}
	n := rng.Intn(max + 1)
	var b strings.Builder
	for k := 0; k < n; k++ {
		b.WriteRune(a[rng.Intn(len(a))])
	}
	return b.String()
}

// c18Lyrics makes lyrics; ordered tells whether the lines begin in order
func c18Lyrics(rng *rand.Rand, length int64) (lines [][]c18Atom, ordered bool) {
	kind := rng.Intn(6)
	n := []int{0, 1, 3, 12, 60}[rng.Intn(5)]
	at := int64(0)
	if rng.Intn(4) == 0 {
		at = -rng.Int63n(5000)
	}
	step := 1 + length/int64(n+1)
	for k := 0; k < n; k++ {
		var line []c18Atom
		if rng.Intn(6) > 0 {
			x := at
			for a := 1 + rng.Intn(4); a > 0; a-- {
				line = append(line, c18Atom{x, c18Text(rng, 12, kind != 5)})
				if rng.Intn(4) > 0 {
					x += rng.Int63n(step)
				}
				if kind == 1 && rng.Intn(3) == 0 {
					x -= rng.Int63n(2 * step)
				}
			}
			if rng.Intn(4) > 0 {
				at += rng.Int63n(2 * step)
			}
			if rng.Intn(8) == 0 {
				at += rng.Int63n(3)
			}
		}
		lines = append(lines, line)
	}
	if kind == 2 {
		rng.Shuffle(len(lines), func(a, b int) { lines[a], lines[b] = lines[b], lines[a] })
	}
	if kind == 3 && n > 0 {
		lines[rng.Intn(n)] = []c18Atom{{math.MaxInt64 - rng.Int63n(2)*rng.Int63n(1000), "never"}, {math.MinInt64, "always"}}
	}
	ordered = true
	last := int64(math.MinInt64)
	for _, l := range lines {
		if len(l) > 0 {
			if l[0].Timestamp < last {
				ordered = false
			}
			last = l[0].Timestamp
		}
	}
	return
}

// c18Cells is how a string looks in cells: what can be read from left to right
func c18Read(s tcell.SimulationScreen, y, from, to int) string {
	cells, w, _ := s.GetContents()
	var b strings.Builder
	for x := from; x < to; {
		c := cells[y*w+x]
		wd := 1
		if len(c.Runes) > 0 {
			b.WriteString(string(c.Runes))
			wd = runewidth.RuneWidth(c.Runes[0])
		} else {
			b.WriteByte(' ')
		}
		if wd < 1 {
			wd = 1
		}
		x += wd
	}
	return b.String()
}

// c18Want is what can be read of a string in that many cells; tail tells whether it continues with blanks.
// full is false if the last cell is half of a wide character.
func c18Want(str string, cells int) (want string, exact bool) {
	var b strings.Builder
	x, drawn := 0, false
	for _, r := range str {
		if unicode.In(r, unicode.Mn, unicode.Me) && drawn {
			if x <= cells {
				b.WriteRune(r)
			}
			continue
		}
		wd := runewidth.RuneWidth(r)
		if r < ' ' || wd == 0 {
			r, wd = ' ', 1
		}
		if x+wd > cells {
			return b.String(), x == cells
		}
		b.WriteRune(r)
		drawn = true
		x += wd
	}
	for ; x < cells; x++ {
		b.WriteByte(' ')
	}
	return b.String(), true
}

// c18Odd: characters whose cells are a matter of taste (controls, joiners)
func c18Odd(s string) bool {
	for k, r := range s {
		if unicode.IsControl(r) || unicode.Is(unicode.Cf, r) || k == 0 && unicode.In(r, unicode.Mn, unicode.Me) {
			return true
		}
	}
	return false
}

func c18Same(got, str string, cells int) bool {
	if c18Odd(str) {
		return true
	}
	want, exact := c18Want(str, cells)
	if exact {
		return strings.TrimRight(got, " ") == strings.TrimRight(want, " ")
	}
	return strings.HasPrefix(got, want)
}

func c18Width(s string) int {
	n := 0
	for _, r := range s {
		wd := runewidth.RuneWidth(r)
		if wd == 0 && !unicode.In(r, unicode.Mn, unicode.Me) {
			wd = 1
		}
		n += wd
	}
	return n
}

func c18Duration(ms int64) string {
	s := ms / 1000
	if s < 3600 {
		return fmt.Sprintf("%d:%02d", s/60, s%60)
	}
	return fmt.Sprintf("%d:%02d:%02d", s/3600, s/60%60, s%60)
}

// the lyrics and details drawn are those of the song and moment
func TestVerif_C18_screen(t *testing.T) {
	r := verifkit.Start(t, "C18", "screen")
	defer r.Finish()
	defer monotime.SetSource(nil)
	for i := 0; i < r.N(1200, 60000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		rate := []int{44100, 48000, 1000}[rng.Intn(3)]
		schedule.SampleRate = rate
		start := int64(1 + rng.Intn(5*rate))
		lengthMs := []int64{int64(1 + rng.Intn(3000)), int64(1000 + rng.Intn(400000)), int64(3500000 + rng.Intn(9000000))}[rng.Intn(3)]
		length := lengthMs * int64(rate) / 1000
		if length < 1 {
			length = 1
		}
		lines, ordered := c18Lyrics(rng, lengthMs)
		plain := rng.Intn(4) > 0
		m := &comm.NewSongInfo{SongFileName: "dir/" + c18Text(rng, 20, plain) + ".mp3", FirstSampleOfSongIndex: uint64(start), SongLength: length}
		if rng.Intn(8) > 0 {
			md := &comm.NewSongInfo_SongMetadata{}
			if rng.Intn(3) > 0 {
				md.Title = c18Text(rng, 30, plain)
			}
			if rng.Intn(3) > 0 {
				md.Artist = c18Text(rng, 30, plain)
			}
			if rng.Intn(3) > 0 {
				md.Album = c18Text(rng, 30, plain)
			}
			m.Metadata = md
		}
		for _, l := range lines {
			wl := &comm.NewSongInfo_SongLyricsLine{}
			for _, a := range l {
				wl.Atoms = append(wl.Atoms, &comm.NewSongInfo_SongLyricsAtom{Timestamp: a.Timestamp, Caption: a.Caption})
			}
			m.Lyrics = append(m.Lyrics, wl)
		}
		currentState = &state{Songs: make([]upcomingSong, 0), Chunks: make([]upcomingChunk, 0)}
		h := newInfoerPackageHandler()
		h.HandleNewSongInfo(m, nil)
		base := int64(3600e9)
		const size = 1 << 20
		for k := int64(0); k*size < start+2*length+3*size; k++ {
			h.HandleChunkInfo(&comm.ChunkInfo{StartTime: base + k*size*int64(time.Second)/int64(rate), FirstSampleIndex: uint64(k * size), ChunkSize: size}, nil)
		}
		volume := rng.Float64()
		h.HandleSetVolumeRequest(&comm.SetVolumeRequest{Volume: volume}, nil)
		// a pause in the song
		pauseAt, pauseLen := int64(-1), int64(0)
		if rng.Intn(3) == 0 {
			pauseAt, pauseLen = rng.Int63n(length), 10+rng.Int63n(length+10)
			h.HandlePauseInfo(&comm.PauseInfo{Playing: false, ToggleSampleIndex: uint64(start + pauseAt)}, nil)
			h.HandlePauseInfo(&comm.PauseInfo{Playing: true, ToggleSampleIndex: uint64(start + pauseAt + pauseLen)}, nil)
		}
		lyricsHistorySize = []int{0, 1, 5, 10, 30}[rng.Intn(5)]
		screen := tcell.NewSimulationScreen("UTF-8")
		if err := screen.Init(); err != nil {
			r.Inconclusive("no simulated screen: " + err.Error())
			return
		}
		d := &drawer{Screen: screen}
		// when it is looked at
		var looks []int64 // ms in song
		for k := 0; k < 6; k++ {
			looks = append(looks, rng.Int63n(lengthMs+1))
		}
		for k := 0; k < 12 && len(lines) > 0; k++ {
			l := lines[rng.Intn(len(lines))]
			if len(l) > 0 {
				a := l[0].Timestamp
				if rng.Intn(2) == 0 {
					a = l[rng.Intn(len(l))].Timestamp
				}
				if 0 <= a && a <= lengthMs {
					looks = append(looks, a+[]int64{-2, -1, 0, 1, 2, -150, -101, -99, 50}[rng.Intn(9)])
				}
			}
		}
		sort.Slice(looks, func(a, b int) bool { return looks[a] < looks[b] })
		fail := func(kind, detail string) {
			b, _ := json.Marshal(map[string]interface{}{"case": i, "rate": rate, "start": start, "song": m, "history": lyricsHistorySize, "pause": pauseAt, "paused for": pauseLen})
			r.Violation(kind, detail, string(b))
		}
		nontrivial := false
		for _, ms := range looks {
			if ms < 3 || lengthMs <= ms {
				continue
			}
			inSong := ms*int64(rate)/1000 + int64(rate)/2000 // half a ms later
			sample := start + inSong
			playing := true
			if pauseAt >= 0 && inSong > pauseAt+2 {
				sample += pauseLen
				if rng.Intn(4) == 0 { // just in the pause
					inSong = pauseAt
					ms = pauseAt * 1000 / int64(rate)
					sample = start + pauseAt + 4 + rng.Int63n(pauseLen-4)
					playing = false
					if sample >= start+pauseAt+pauseLen-4 {
						continue
					}
				}
			} else if pauseAt >= 0 && inSong > pauseAt-3 {
				continue
			}
			if ms < 3 {
				continue
			}
			exactMs := float64(inSong) * 1000 / float64(rate)
			now := base + int64(float64(sample)*1e9/float64(rate)) // precise: below 2^53
			monotime.SetSource(func() uint64 { return uint64(now) })
			if off := timing.GetSyncedTime() - now; off != 0 {
				r.Inconclusive("the clock is not the stand-in")
				return
			}
			width, height := []int{80, 40, 120, 1 + rng.Intn(200)}[rng.Intn(4)], []int{24, 50, 12, rng.Intn(60)}[rng.Intn(4)]
			screen.SetSize(width, height)
			if p := verifkit.Catch(func() { redraw(d) }); p != "" {
				fail("drawing failed", fmt.Sprintf("on %d x %d after %d ms: %s", width, height, ms, verifkit.Short(p, 1500)))
				break
			}
			r.Count("screens drawn", 1)
			if width < 10 || height < 5 {
				continue
			}
			tol := 1000/float64(rate)*1.01 + 0.001
			// details
			title := m.SongFileName
			artist := ""
			if m.Metadata != nil {
				if m.Metadata.Title != "" {
					title = m.Metadata.Title
				}
				artist = m.Metadata.Artist
				if artist != "" && m.Metadata.Album != "" {
					artist += " - " + m.Metadata.Album
				}
			}
			vol := fmt.Sprintf("Volume: %06.2f%%", volume*100)
			inner := width - 2
			wtitle, wartist := c18Width(title), c18Width(artist)
			if wtitle+len(vol)+1 < inner {
				got := c18Read(screen, height-4, 1, width-1)
				if !c18Same(got, title+strings.Repeat(" ", inner-wtitle-len(vol))+vol, inner) {
					fail("title line", fmt.Sprintf("shown %q, title %q, volume %q", got, title, vol))
					break
				}
			} else if !c18Same(c18Read(screen, height-4, 1, width-1), title, min64(wtitle, inner)) && wtitle >= inner {
				fail("title line", fmt.Sprintf("shown %q, title %q", c18Read(screen, height-4, 1, width-1), title))
				break
			}
			okTime := false
			for _, x := range []float64{exactMs - tol, exactMs, exactMs + tol} {
				for _, y := range []float64{float64(length)*1000/float64(rate) - tol, float64(length) * 1000 / float64(rate), float64(length)*1000/float64(rate) + tol} {
					tl := c18Duration(int64(x)) + "/" + c18Duration(int64(y))
					if wartist+len(tl)+1 >= inner {
						okTime = true
						continue
					}
					okTime = okTime || c18Same(c18Read(screen, height-3, 1, width-1), artist+strings.Repeat(" ", inner-wartist-len(tl))+tl, inner)
				}
			}
			if !okTime {
				fail("artist or time line", fmt.Sprintf("shown %q after %.3f of %d ms, artist %q", c18Read(screen, height-3, 1, width-1), exactMs, lengthMs, artist))
				break
			}
			if got := strings.Trim(c18Read(screen, height-5, 1, width-1), "═ "); width > 12 && got != map[bool]string{true: "Playing", false: "Paused"}[playing] {
				fail("play state", fmt.Sprintf("shown %q, playing: %v", got, playing))
				break
			}
			bar := 0.0
			for _, c := range c18Read(screen, height-2, 1, width-1) {
				switch c {
				case '█':
					bar++
				case '▌':
					bar += 0.5
				}
			}
			if want := exactMs / (float64(length) * 1000 / float64(rate)) * float64(inner); math.Abs(bar-want) > 1.01+tol/float64(lengthMs)*float64(inner) {
				fail("progress bar", fmt.Sprintf("shown %.1f of %d cells after %.1f of %d ms", bar, inner, exactMs, lengthMs))
				break
			}
			r.Count("details judged", 1)
			// lyrics
			rows := lyricsHistorySize
			if height < rows+7 {
				rows = height - 7
			}
			if rows <= 0 {
				continue
			}
			candidates := func(k int) (map[string]bool, bool) { // what may be shown of line k
				set := map[string]bool{}
				var cuts []float64
				for _, a := range lines[k] {
					cuts = append(cuts, float64(a.Timestamp)-0.5, float64(a.Timestamp)+0.5)
				}
				for _, at := range append(cuts, exactMs-tol-1, exactMs+101) {
					if at < exactMs-tol-1 || exactMs+101+tol < at {
						continue
					}
					text := ""
					for _, a := range lines[k] {
						if float64(a.Timestamp) <= at {
							text += a.Caption
						}
					}
					set[text] = true
				}
				odd := false
				for s := range set {
					odd = odd || c18Odd(s)
				}
				return set, odd
			}
			shown := make([]string, rows)
			for k := range shown {
				shown[k] = c18Read(screen, height-7-k, 1, width-1)
			}
			if !ordered {
				// nothing of the future
				for k, got := range shown {
					got = strings.TrimRight(got, " ")
					if got == "" {
						continue
					}
					found := false
					for l := range lines {
						set, odd := candidates(l)
						found = found || odd
						for c := range set {
							found = found || c18Same(got, c, inner)
						}
					}
					if !found {
						fail("lyrics", fmt.Sprintf("row %d shows %q after %.1f ms: nothing of a line whose time has come", k, got, exactMs))
					}
				}
				r.Count("unordered lyrics drawn", 1)
				continue
			}
			ok := false
			var wants []string
			for _, at := range []float64{exactMs - tol - 1, exactMs - tol, exactMs, exactMs + tol} {
				next := 0
				for ; next < len(lines); next++ {
					if len(lines[next]) > 0 && at < float64(lines[next][0].Timestamp) {
						break
					}
				}
				all := true
				wants = wants[:0]
				for k := range shown {
					l := next - 1 - k
					if l < 0 || len(lines) <= l {
						all = all && strings.TrimSpace(shown[k]) == ""
						continue
					}
					set, odd := candidates(l)
					match := odd
					for c := range set {
						match = match || c18Same(shown[k], c, inner)
						wants = append(wants, fmt.Sprintf("row %d: %q", k, c))
					}
					all = all && match
				}
				ok = ok || all
			}
			if !ok {
				fail("lyrics", fmt.Sprintf("on %d x %d after %.1f ms: shown (newest first) %q, expected e.g. %s", width, height, exactMs, shown, verifkit.Short(strings.Join(wants, ", "), 1500)))
				break
			}
			r.Count("lyrics judged", 1)
			for _, s := range shown {
				if strings.TrimSpace(s) != "" {
					r.Count("lyrics lines shown", 1)
					nontrivial = true
				}
			}
			if label := c18Read(screen, height-7-rows, 1, width-1); !strings.HasPrefix(label, "═Lyrics") {
				fail("lyrics box", fmt.Sprintf("the row above the %d lyrics rows shows %q", rows, label))
				break
			}
		}
		screen.Fini()
		r.Eval(fmt.Sprintf("%d %d %d %v", i, start, length, lines), nontrivial)
		r.Sample(map[string]interface{}{"lines": len(lines), "ordered": ordered, "length ms": lengthMs})
	}
	r.Require("lyrics lines shown", 1)
	r.Require("details judged", 1)
}

func min64(a, b int) int {
	if a < b {
		return a
	}
	return b
}
