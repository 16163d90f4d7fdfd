package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifrig"
	"github.com/golang/protobuf/proto"
)

// The real server plays, and real info clients come and go. What their screens show is compared with what one client,
// which is there all the time, knows to be played right then.

// liveWorld is what the stream is
type liveWorld struct {
	rate   int64
	gap    int64 // samples between songs
	mu     sync.Mutex
	songs  []*comm.NewSongInfo
	chunks []*liveChunk // in order, none missing
	late   []*liveChunk // arrived before one before them
	runs   []liveRun    // of the samples in chunks
	volume float64
}

type liveChunk struct {
	id, start, first, size int64
	runs                   []liveRun
}

// liveRun is a part of the stream which is all music or all silence
type liveRun struct {
	first, end int64
	music      bool
}

func (l *liveWorld) on(m proto.Message) {
	l.mu.Lock()
	defer l.mu.Unlock()
	switch m := m.(type) {
	case *comm.NewSongInfo:
		l.songs = append(l.songs, m)
		sort.SliceStable(l.songs, func(i, j int) bool { return l.songs[i].FirstSampleOfSongIndex < l.songs[j].FirstSampleOfSongIndex })
	case *comm.QueueChunkRequest:
		c := &liveChunk{id: m.ChunkId, start: m.StartTime, first: int64(m.FirstSampleIndex), size: int64(len(m.SampleLow))}
		for i, s := range m.SampleLow {
			at, music := c.first+int64(i), !math.IsNaN(s)
			if n := len(c.runs); n > 0 && c.runs[n-1].music == music {
				c.runs[n-1].end = at + 1
			} else {
				c.runs = append(c.runs, liveRun{at, at + 1, music})
			}
		}
		l.late = append(l.late, c)
		for again := true; again; {
			again = false
			for i, c := range l.late {
				if n := len(l.chunks); n == 0 || l.chunks[n-1].id+1 == c.id {
					l.chunks = append(l.chunks, c)
					for _, r := range c.runs {
						if n := len(l.runs); n > 0 && l.runs[n-1].music == r.music {
							l.runs[n-1].end = r.end
						} else {
							l.runs = append(l.runs, r)
						}
					}
					l.late = append(l.late[:i], l.late[i+1:]...)
					again = true
					break
				}
			}
		}
	case *comm.SetVolumeRequest:
		l.volume = m.Volume
	}
}

// liveMoment is what is played at one moment
type liveMoment struct {
	known   bool
	song    *comm.NewSongInfo
	pos     int64 // samples of the song played
	playing bool
}

// sample is the one scheduled at now
func (l *liveWorld) sample(now int64) (int64, bool) {
	for i := len(l.chunks) - 1; i >= 0; i-- {
		c := l.chunks[i]
		if d := now - c.start; d >= 0 && d < c.size*1e9/l.rate {
			return c.first + int64(float64(d)*float64(l.rate)/1e9), true
		}
	}
	return 0, false
}

func (l *liveWorld) moment(now int64) (m liveMoment) {
	s, ok := l.sample(now)
	if !ok {
		return
	}
	next := int64(-1)
	for i, x := range l.songs {
		if int64(x.FirstSampleOfSongIndex) < s {
			m.song, next = x, -1
			if i+1 < len(l.songs) {
				next = int64(l.songs[i+1].FirstSampleOfSongIndex)
			}
		}
	}
	if m.song == nil {
		return
	}
	start := int64(m.song.FirstSampleOfSongIndex)
	for _, r := range l.runs {
		if r.end <= start || r.first > s {
			continue
		}
		if r.first < start {
			r.first = start
		}
		in := s >= r.first && s < r.end
		if in {
			m.playing = r.music
			// between songs
			if !r.music && (r.end == next || next < 0 && r.end-r.first < l.gap+40000) {
				return
			}
			r.end = s
		}
		if r.music {
			m.pos += r.end - r.first
		}
	}
	m.known = m.pos < m.song.SongLength
	return
}

type liveClient struct {
	p      *verifrig.Program
	w, h   int
	joined int64
	output int // how much of it there was
	seen   int64
	early  int64 // drawn from then
	late   int64 // to then
	from   int64 // judged from this time on
	wrong  int64 // since when
	times  int
	why    string
	judged int
}

// liveCheck says what is wrong with screen at now, if it is not what is to be shown at any moment from early to late
func (l *liveWorld) check(prop string, c *liveClient, rows []string, early, late int64) (why string, judged bool) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for t := early; t <= late; t += 10e6 {
		m := l.moment(t)
		if !m.known || m.pos < l.rate/10 {
			return "", false // between songs nothing is promised
		}
		var w string
		if prop == "C17" {
			w = liveC17(c, m, l.rate, l.volume, rows)
		} else {
			w = liveC18(c, m, l.rate, rows)
		}
		if w == "" {
			return "", true
		}
		if why == "" {
			why = w
		}
	}
	return why, true
}

func liveC17(c *liveClient, m liveMoment, rate int64, volume float64, rows []string) string {
	h := c.h
	if t := m.song.SongFileName; !strings.Contains(rows[h-4], m.song.Metadata.Title) || m.song.Metadata.Title == "" && !strings.Contains(rows[h-4], t) {
		return fmt.Sprintf("it is not shown that song %q is played", t)
	}
	if strings.Contains(rows[h-5], "Playing") != m.playing || strings.Contains(rows[h-5], "Paused") == m.playing {
		return fmt.Sprintf("it is not shown that it is %v that music is played", m.playing)
	}
	secs := func(n int64) string { return fmt.Sprintf("%d:%02d", n/rate/60, n/rate%60) }
	if !strings.HasSuffix(strings.TrimRight(rows[h-3], " ║"), " "+secs(m.pos)+"/"+secs(m.song.SongLength)) {
		return fmt.Sprintf("position and length %s/%s are not shown", secs(m.pos), secs(m.song.SongLength))
	}
	bar := []rune(rows[h-2])[1 : c.w-1]
	filled := 0
	for filled < len(bar) && bar[filled] == '█' {
		filled++
	}
	if want := float64(len(bar)) * float64(m.pos) / float64(m.song.SongLength); math.Abs(float64(filled)-want) > 1.2 {
		return fmt.Sprintf("%d of %d cells of the progress bar are filled, not %.1f", filled, len(bar), want)
	}
	if v := fmt.Sprintf("%06.2f%%", volume*100); !strings.Contains(rows[h-4], " "+v) {
		return "the volume " + v + " is not shown"
	}
	return ""
}

func liveC18(c *liveClient, m liveMoment, rate int64, rows []string) string {
	h := c.h
	md := m.song.Metadata
	title, details := md.Title, md.Artist
	if title == "" {
		title = m.song.SongFileName
	}
	if md.Album != "" && details != "" {
		details += " - " + md.Album
	}
	if !strings.HasPrefix(strings.TrimLeft(rows[h-4], "║"), title+" ") {
		return fmt.Sprintf("the title %q is not shown", title)
	}
	if !strings.HasPrefix(strings.TrimLeft(rows[h-3], "║"), details+" ") {
		return fmt.Sprintf("artist and album %q are not shown", details)
	}
	ms := m.pos * 1000 / rate
	next := 0
	for next < len(m.song.Lyrics) && m.song.Lyrics[next].Atoms[0].Timestamp <= ms {
		next++
	}
	for i := 0; i < 5; i++ {
		want := ""
		if n := next - 1 - i; n >= 0 {
			for _, a := range m.song.Lyrics[n].Atoms {
				if a.Timestamp < ms+100 {
					want += a.Caption
				}
			}
		}
		if got := strings.TrimRight(strings.Trim(rows[h-7-i], "║"), " "); got != strings.TrimRight(want, " ") {
			return fmt.Sprintf("row %d of the lyrics is %q, not %q", i, got, want)
		}
	}
	return ""
}

func liveOne(k *verifkit.Run, prop string, rng *mrand.Rand) {
	live := &liveWorld{rate: []int64{22050, 44100, 48000}[rng.Intn(3)], gap: []int64{441, 4410, 44100}[rng.Intn(3)]}
	w := vStart(k, nil, nil, nil, "--sample-rate", fmt.Sprint(live.rate), "--stream-chunk-size", fmt.Sprint([]int{4410, 22050, 44100}[rng.Intn(3)]), "--stream-start-delay", "200ms",
		"--stream-delay", fmt.Sprintf("%dms", 1000+rng.Intn(2000)), "--song-break-size", fmt.Sprint(live.gap))
	defer w.end()
	dir, err := ioutil.TempDir(os.Getenv("VERIF_WORK"), "live")
	if err != nil {
		k.T.Fatal(err)
	}
	defer os.RemoveAll(dir)
	n := 3 + rng.Intn(3)
	for i := 0; i < n; i++ {
		p := filepath.Join(w.srv.Music, fmt.Sprintf("%d.mp3", i))
		var tags []byte
		switch rng.Intn(4) {
		case 0:
			tags = vc18Tags(rng, fmt.Sprintf("Title %d", i), "", "Album")
		case 1:
			tags = vc18Tags(rng, fmt.Sprintf("Title %d", i), fmt.Sprintf("Artist %d", i), "")
		case 2:
			tags = vc18Tags(rng, "", fmt.Sprintf("Artist %d", i), fmt.Sprintf("Album %d", i))
		}
		l := len(verifkit.WriteSong(p, rng.Intn(50), 120+rng.Intn(200), tags, nil)) * 1000 / int(live.rate)
		type atom struct {
			Timestamp int    `json:"timestamp"`
			Caption   string `json:"caption"`
		}
		var lyrics [][]atom
		for at, j := rng.Intn(600), 0; at < l && rng.Intn(40) > 0; j++ {
			var line []atom
			for a := 0; a <= rng.Intn(4); a++ {
				line = append(line, atom{at, fmt.Sprintf("%d.%d.%d ", i, j, a)})
				at += rng.Intn(700)
			}
			lyrics = append(lyrics, line)
		}
		if rng.Intn(4) > 0 {
			b, _ := json.Marshal(lyrics)
			ioutil.WriteFile(p+".json", b, 0644)
		}
	}
	f, err := w.follow(live.on, comm.Channel_META, comm.Channel_AUDIO)
	s := w.admin(200, 40)
	if err != nil || s == nil {
		if !w.broken("starting", nil) {
			k.Inconclusive("no session")
		}
		return
	}
	defer f.c.Close()
	defer s.Close()
	var doing []string
	cmd := func(line string) bool {
		doing = append(doing, line)
		if _, ok := s.Cmd(line, vPatience); !ok {
			if !w.broken(line, doing) {
				k.Inconclusive("no answer to " + line)
			}
			return false
		}
		return true
	}
	time.Sleep(time.Duration(rng.Intn(700)) * time.Millisecond)
	for i := 0; i < n; i++ {
		if !cmd(fmt.Sprintf("queue %d.mp3", i)) {
			return
		}
	}
	host, port := w.srv.Addr[:strings.LastIndex(w.srv.Addr, ":")], w.srv.Addr[strings.LastIndex(w.srv.Addr, ":")+1:]
	open := func() *liveClient {
		c := &liveClient{w: 60 + rng.Intn(80), h: 14 + rng.Intn(20), joined: c02Clock()}
		p, err := verifrig.Spawn(os.Getenv("VERIF_BIN_INFOER"), dir, nil, c.w, c.h, "--address", host, "--port", port, "--sample-rate", fmt.Sprint(live.rate))
		if err != nil {
			return nil
		}
		c.p = p
		return c
	}
	clients := []*liveClient{open(), open()}
	defer func() {
		for _, c := range clients {
			if c != nil {
				c.p.Kill()
			}
		}
	}()
	if clients[0] == nil || clients[1] == nil {
		k.Inconclusive("no info client")
		return
	}
	paused := true
	begin, act, rejoin := time.Now(), time.Now(), time.Now().Add(time.Duration(6+rng.Intn(6))*time.Second)
	for time.Since(begin) < 30*time.Second {
		if time.Now().After(act) {
			act = time.Now().Add(time.Duration(300+rng.Intn(3500)) * time.Millisecond)
			if paused || rng.Intn(5) < 2 {
				if !cmd([]string{"pause", "resume"}[map[bool]int{true: 1}[paused]]) {
					return
				}
				paused = !paused
			} else if rng.Intn(4) > 0 {
				if !cmd(fmt.Sprintf("jump %d", rng.Intn(n))) {
					return
				}
				k.Count("jumps", 1)
			} else if !cmd(fmt.Sprintf("volume %.3f", rng.Float64())) {
				return
			}
		}
		if time.Now().After(rejoin) {
			rejoin = time.Now().Add(time.Duration(6+rng.Intn(6)) * time.Second)
			clients[1].p.Kill()
			if clients[1] = open(); clients[1] == nil {
				k.Inconclusive("no info client")
				return
			}
			k.Count("late", 1)
		}
		time.Sleep(20 * time.Millisecond)
		for i, c := range clients {
			// what is on the screen was drawn between the last look it was not there and the first it was
			before := c.seen
			c.seen = c02Clock()
			if n := len(c.p.Output()); n != c.output {
				c.output, c.early, c.late = n, before-200e6, c02Clock()
				if n = len(c.p.Output()); n != c.output {
					c.output = 0 // being drawn
					continue
				}
			}
			if c.output == 0 {
				continue
			}
			if !c.p.Alive() {
				k.Violation("ended", fmt.Sprintf("after %q: an info client ends: %s", doing, c.p.Crash()), doing)
				return
			}
			now := c02Clock()
			if c.from == 0 {
				// from when on it knows the song: that which was the newest when it subscribed
				if !strings.Contains(c.p.Output(), "Volume:") || now-c.joined < 1e9 {
					continue
				}
				live.mu.Lock()
				if sample, ok := live.sample(now); ok {
					if n := len(live.songs); n > 0 && int64(live.songs[n-1].FirstSampleOfSongIndex)+live.rate/5 < sample && i > 0 || i == 0 {
						c.from = now
					}
				}
				live.mu.Unlock()
				continue
			}
			if now-c.from < 2e9 {
				continue
			}
			rows := verifrig.Screen(c.p.Output(), c.w, c.h)
			why, judged := live.check(prop, c, rows, c.early, c.late)
			if judged && why == "" && c.late < now-700e6 {
				// it does not change any more; right now it must not have to
				why, judged = live.check(prop, c, rows, now-700e6, now)
			}
			switch {
			case !judged:
			case why == "":
				c.wrong, c.times, c.judged = 0, 0, c.judged+1
				k.Count("screens", 1)
				if i > 0 {
					k.Count("screens of late clients", 1)
				}
				if !live.playing(now) {
					k.Count("screens while paused", 1)
				}
			default:
				if c.wrong == 0 {
					c.wrong, c.why = now, why
				}
				c.times++
				if now-c.wrong > 3e9 && c.times > 20 {
					k.Violation("screen", fmt.Sprintf("after %q: for 3 s (%d looks) the screen of an info client, which joined %v after the first song was announced, is wrong; first, %s, now %s: %s", doing, c.times,
						time.Duration(c.joined-live.firstAt()), c.why, why, verifkit.Short(strings.Join(rows, "\n"), 4000)), doing)
					return
				}
			}
		}
	}
	k.Eval(fmt.Sprint(doing), clients[0].judged > 50)
	if clients[0].judged <= 50 {
		k.Count("runs with few screens", 1)
	}
}

func (l *liveWorld) playing(now int64) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.moment(now).playing
}

func (l *liveWorld) firstAt() int64 {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.chunks) == 0 {
		return 0
	}
	return l.chunks[0].start
}

func liveRuns(k *verifkit.Run, prop string) {
	var wg sync.WaitGroup
	slots := make(chan struct{}, 4)
	for i := 0; i < k.N(4, 60) && !k.Failed(); i++ {
		slots <- struct{}{}
		wg.Add(1)
		go func(i int) {
			defer func() { <-slots; wg.Done() }()
			liveOne(k, prop, k.Rand(i))
		}(i)
	}
	wg.Wait()
	k.Require("screens", 200)
	k.Require("screens of late clients", 50)
}

func TestVerif_C17_server(t *testing.T) {
	k := verifkit.Start(t, "C17", "server")
	defer k.Finish()
	liveRuns(k, "C17")
}

func TestVerif_C18_live(t *testing.T) {
	k := verifkit.Start(t, "C18", "live")
	defer k.Finish()
	liveRuns(k, "C18")
}
