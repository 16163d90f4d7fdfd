package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/aristanetworks/goarista/monotime"
)

// the stream which is announced: what really happens at which sample
type c17Song struct {
	name   string
	start  int64
	played int64 // samples of the song really played (a jump cuts it)
	length int64
	end    int64 // first sample after it
}

type c17Toggle struct {
	at      int64
	playing bool
}

type c17Chunk struct {
	start int64 // time
	first int64
	size  int64
}

type c17World struct {
	Rate    int
	songs   []c17Song
	toggles []c17Toggle
	chunks  []c17Chunk
}

func (w *c17World) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "rate %d;", w.Rate)
	for _, s := range w.songs {
		fmt.Fprintf(&b, " %s [%d,%d) length %d;", s.name, s.start, s.end, s.length)
	}
	for _, t := range w.toggles {
		fmt.Fprintf(&b, " %v@%d", t.playing, t.at)
	}
	if len(w.chunks) > 0 {
		fmt.Fprintf(&b, "; %d chunks of %d from %d", len(w.chunks), w.chunks[0].size, w.chunks[0].start)
	}
	return b.String()
}

func c17Between(rng *rand.Rand, a, b int64) int64 { return a + rng.Int63n(b-a+1) }

func c17NewWorld(rng *rand.Rand) *c17World {
	w := &c17World{Rate: []int{44100, 48000, 8000, 1000, 192000, 7, 44100}[rng.Intn(7)]}
	sec := int64(w.Rate)
	pos := c17Between(rng, 1, 3*sec+20)
	paused := false
	for n := 1 + rng.Intn(5); n > 0; n-- {
		s := c17Song{name: fmt.Sprintf("song %d.mp3", rng.Intn(4)), start: pos}
		if rng.Intn(6) == 0 {
			s.length = c17Between(rng, 1, 20) // hardly any samples
		} else {
			s.length = c17Between(rng, 30, 40*sec)
		}
		toPlay, cut := s.length, false
		if rng.Intn(3) == 0 {
			toPlay, cut = c17Between(rng, 1, s.length), true
		}
		if paused && rng.Intn(3) == 0 { // resumed right at the start
			w.toggles, paused = append(w.toggles, c17Toggle{pos, true}), false
		}
		for s.played < toPlay || paused {
			if paused {
				pos += c17Between(rng, 1, 10*sec)
				if cut && rng.Intn(4) == 0 {
					break // cut while paused
				}
				w.toggles, paused = append(w.toggles, c17Toggle{pos, true}), false
				continue
			}
			run := toPlay - s.played
			if rng.Intn(2) == 0 {
				run = c17Between(rng, 1, run)
			}
			s.played += run
			pos += run
			if s.played < toPlay || cut && rng.Intn(3) == 0 {
				w.toggles, paused = append(w.toggles, c17Toggle{pos, false}), true
			}
		}
		s.end = pos
		w.songs = append(w.songs, s)
		pos += []int64{1, sec, c17Between(rng, 1, 3*sec)}[rng.Intn(3)]
	}
	size := c17Between(rng, 1+sec/3, 4*sec+1)
	chunkTime := size * int64(time.Second) / sec
	start := []int64{int64(3600e9), 1, rng.Int63n(1e17)}[rng.Intn(3)]
	for k := int64(0); k*size < pos+17*sec+5*size; k++ {
		w.chunks = append(w.chunks, c17Chunk{start + k*chunkTime, k * size, size})
	}
	return w
}

// timeOf returns when a sample is played (the first ns)
func (w *c17World) timeOf(sample int64) int64 {
	k := sample / w.chunks[0].size
	if k >= int64(len(w.chunks)) {
		k = int64(len(w.chunks)) - 1
	}
	c := w.chunks[k]
	return c.start + int64(math.Ceil(float64(sample-c.first)*1e9/float64(w.Rate)))
}

// sampleAt returns the position in the stream at a time
func (w *c17World) sampleAt(now int64) float64 {
	k := sort.Search(len(w.chunks), func(i int) bool { return now < w.chunks[i].start }) - 1
	if k < 0 {
		k = 0
	}
	c := w.chunks[k]
	return float64(c.first) + float64(now-c.start)*float64(w.Rate)/1e9
}

// at tells what is true at a sample
func (w *c17World) at(sample int64) (song int, playing bool, inSong int64, gap bool) {
	song = -1
	for i, s := range w.songs {
		if s.start <= sample {
			song = i
		}
	}
	from := int64(0)
	if song >= 0 {
		from = w.songs[song].start
	}
	playing = true
	var last int64 = from
	for _, t := range w.toggles {
		if sample < t.at {
			break
		}
		if playing && t.at > last {
			inSong += t.at - last
		}
		if t.at > last {
			last = t.at
		}
		playing = t.playing
	}
	if playing && sample > last {
		inSong += sample - last
	}
	gap = song >= 0 && w.songs[song].end <= sample
	return
}

type c17Event struct {
	at   int64 // sample from which it must be known
	what interface{}
}

// c17Client feeds the announcements to the info client
type c17Client struct {
	rng     *rand.Rand
	pending []c17Event
	handler comm.TypedPackageHandler
	dups    bool
	sent    int
}

func (c *c17Client) give(e interface{}) {
	for n := 1; n > 0; n-- {
		switch m := e.(type) {
		case *comm.NewSongInfo:
			c.handler.HandleNewSongInfo(m, nil)
		case *comm.PauseInfo:
			c.handler.HandlePauseInfo(m, nil)
		case *comm.ChunkInfo:
			c.handler.HandleChunkInfo(m, nil)
		case *comm.SetVolumeRequest:
			c.handler.HandleSetVolumeRequest(m, nil)
		}
		c.sent++
		if _, volume := e.(*comm.SetVolumeRequest); c.dups && !volume && c.rng.Intn(5) == 0 {
			n++
		}
	}
}

// advance delivers everything that must be known at sample and some of the rest
func (c *c17Client) advance(sample int64, ahead int64) {
	var now, later []c17Event
	for _, e := range c.pending {
		if e.at <= sample || (e.at <= sample+ahead && c.rng.Intn(4) == 0) {
			now = append(now, e)
		} else {
			later = append(later, e)
		}
	}
	c.rng.Shuffle(len(now), func(i, j int) { now[i], now[j] = now[j], now[i] })
	for _, e := range now {
		c.give(e.what)
	}
	c.pending = later
}

// the position shown is that of the stream, for every client
func TestVerif_C17_position(t *testing.T) {
	r := verifkit.Start(t, "C17", "position")
	defer r.Finish()
	defer monotime.SetSource(nil)
	for i := 0; i < r.N(4000, 80000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		w := c17NewWorld(rng)
		end := w.songs[len(w.songs)-1].end
		// the moments it is looked at
		var looks []int64
		add := func(sample int64) {
			if sample < 0 {
				return
			}
			for _, d := range []int64{-3, -1, 0, 1, 2, 3} {
				looks = append(looks, w.timeOf(sample)+d*int64(1e9)/int64(w.Rate)+rng.Int63n(3)-1)
			}
		}
		for _, s := range w.songs {
			add(s.start)
			add(s.end)
		}
		for _, x := range w.toggles {
			add(x.at)
		}
		for k := 0; k < 3 && k < len(w.chunks); k++ {
			add(w.chunks[rng.Intn(len(w.chunks))].first)
		}
		for k := 0; k < 60; k++ {
			looks = append(looks, w.timeOf(rng.Int63n(end+1))+rng.Int63n(1+int64(1e9)/int64(w.Rate)))
		}
		sort.Slice(looks, func(a, b int) bool { return looks[a] < looks[b] })
		looks = looks[:c17Trim(rng, len(looks))]

		join := int64(0) // the sample at which the client joins
		late := rng.Intn(2) == 0
		if late {
			join = rng.Int63n(end + 1)
		}
		ahead := c17Between(rng, 1, 16*int64(w.Rate))
		newest := int64(-1)
		c := &c17Client{rng: rng, handler: newInfoerPackageHandler(), dups: rng.Intn(2) == 0}
		known := join + ahead // announcements up to here were made before it joined
		for _, s := range w.songs {
			m := &comm.NewSongInfo{SongFileName: s.name, FirstSampleOfSongIndex: uint64(s.start), SongLength: s.length}
			if late && s.start <= known {
				newest = s.start
			} else {
				c.pending = append(c.pending, c17Event{s.start - 2, m})
			}
		}
		currentState = &state{Songs: make([]upcomingSong, 0), Chunks: make([]upcomingChunk, 0)}
		if newest >= 0 { // the answer to its subscription
			for _, s := range w.songs {
				if s.start == newest {
					c.pending = append(c.pending, c17Event{-1, &comm.NewSongInfo{SongFileName: s.name, FirstSampleOfSongIndex: uint64(s.start), SongLength: s.length}})
				}
			}
		}
		keep := 0 // pauses a server no longer remembers
		for k, x := range w.toggles {
			if late && x.at <= newest && x.playing && x.at <= known {
				keep = k
			}
		}
		for k, x := range w.toggles {
			at := x.at - 2
			if late && x.at <= known {
				if k < keep && rng.Intn(3) > 0 {
					continue
				}
				at = -1
			}
			c.pending = append(c.pending, c17Event{at, &comm.PauseInfo{Playing: x.playing, ToggleSampleIndex: uint64(x.at)}})
		}
		for _, ch := range w.chunks {
			at := ch.first - 2
			if ch.first+ch.size <= join || (late && ch.first <= known && rng.Intn(4) > 0) {
				continue // announced before it joined
			}
			c.pending = append(c.pending, c17Event{at, &comm.ChunkInfo{StartTime: ch.start, FirstSampleIndex: uint64(ch.first), ChunkSize: uint64(ch.size)}})
		}
		c.rng.Shuffle(len(c.pending), func(a, b int) { c.pending[a], c.pending[b] = c.pending[b], c.pending[a] })
		schedule.SampleRate = w.Rate
		volume := math.NaN()

		// the first chunk after joining is always announced ahead
		judged, whilePaused, inPauses := 0, 0, false
		var lastInfo *playbackInformation
		var lastTrue string
		for _, now := range looks {
			s := w.sampleAt(now)
			if int64(s) < join {
				continue
			}
			c.advance(int64(s)+4, ahead)
			haveChunk := false
			for _, ch := range currentState.Chunks {
				if now <= ch.startTime+ch.length() {
					haveChunk = true
				}
			}
			if !haveChunk { // nothing announced for this or any later moment yet: take the next chunk
				for k, e := range c.pending {
					if ch, ok := e.what.(*comm.ChunkInfo); ok && ch.StartTime+int64(float64(ch.ChunkSize)*1e9/float64(w.Rate)) > now {
						c.give(ch)
						c.pending = append(c.pending[:k], c.pending[k+1:]...)
						break
					}
				}
			}
			if rng.Intn(10) == 0 {
				volume = rng.Float64()
				c.give(&comm.SetVolumeRequest{Volume: volume})
			}
			monotime.SetSource(func() uint64 { return uint64(now) })
			info := currentState.Info(timing.GetSyncedTime())
			if !math.IsNaN(volume) && info.Volume != volume {
				r.Violation("volume", fmt.Sprintf("the last volume received is %v, shown %v", volume, info.Volume), w.String())
				break
			}
			// what may be shown: what is true within a sample of now
			lo, hi := int64(math.Floor(s))-2, int64(math.Ceil(s))+2
			if lo < 0 {
				lo = 0
			}
			ok, judge := false, true
			var want []string
			for p := lo; p <= hi; p++ {
				song, playing, inSong, gap := w.at(p)
				if song < 0 {
					ok = ok || info.CurrentSong.filename == "None" || info.CurrentSong.startIndex == 0
					want = append(want, "no song")
					continue
				}
				if late && w.songs[song].start < newest {
					judge = false // a song of which a late joiner is not told
					break
				}
				x := w.songs[song]
				want = append(want, fmt.Sprintf("%s from %d, playing %v, %d samples in it", x.name, x.start, playing, inSong))
				if gap {
					// between songs: the song which ended or none
					if info.CurrentSong.startIndex == uint64(x.start) || info.CurrentSong.startIndex == 0 {
						ok = true
					}
					continue
				}
				if info.CurrentSong.startIndex != uint64(x.start) || info.CurrentSong.filename != x.name || info.CurrentSong.length != x.length || info.Playing != playing {
					continue
				}
				shown := info.TimeInSong.Seconds() * float64(w.Rate)
				if math.Abs(shown-float64(inSong)) > 1.01+float64(inSong)*1e-12 {
					continue
				}
				if inSong > 1 {
					if l := info.SongLength.Seconds() * float64(w.Rate); math.Abs(l-float64(x.length)) > 1.01 {
						continue
					}
					if math.Abs(info.ProgressInSong*float64(x.length)-float64(inSong)) > 1.01 {
						continue
					}
				}
				ok = true
			}
			if !judge {
				r.Count("unknown songs (late joiner)", 1)
				continue
			}
			judged++
			song, playing, inSong, gap := w.at(int64(s))
			state := fmt.Sprint(song, playing, inSong, gap)
			if !ok {
				r.Violation("position", fmt.Sprintf("at sample %.2f shown: %s from %d, playing %v, %v (%.2f samples) of %v, progress %v; true: %s", s, info.CurrentSong.filename, info.CurrentSong.startIndex,
					info.Playing, info.TimeInSong, info.TimeInSong.Seconds()*float64(w.Rate), info.SongLength, info.ProgressInSong, strings.Join(want, " | ")),
					map[string]interface{}{"case": i, "stream": w.String(), "joined": join, "late": late, "duplicates": c.dups})
				break
			}
			if song >= 0 && !playing && !gap {
				whilePaused++
				// nothing runs while paused
				_, pa, a, ga := w.at(lo)
				_, pb, b, gb := w.at(hi)
				if a == b && !pa && !pb && !ga && !gb {
					if inPauses && lastTrue == state && lastInfo.TimeInSong != info.TimeInSong {
						r.Violation("runs while paused", fmt.Sprintf("paused, but the time shown went from %v to %v (at sample %.3f; shown sample %d after %d)", lastInfo.TimeInSong, info.TimeInSong, s, info.CurrentSample, lastInfo.CurrentSample), w.String())
						break
					}
					inPauses, lastTrue, lastInfo = true, state, info
				}
			} else {
				inPauses = false
			}
			if song >= 0 && playing && inSong > 0 && len(w.toggles) > 0 && w.toggles[0].at < int64(s) {
				r.Count("looked at after a pause", 1)
			}
		}
		r.Count("looked at", int64(judged))
		r.Count("looked at while paused", int64(whilePaused))
		r.Count("announcements received", int64(c.sent))
		if late && judged > 0 {
			r.Count("late joiners judged", 1)
		}
		r.Eval(fmt.Sprintf("%s %v %d", w, late, join), judged > 0 && whilePaused > 0)
		r.Sample(w.String())
	}
	r.Require("late joiners judged", 1)
	r.Require("looked at while paused", 1)
	r.Require("looked at after a pause", 1)
}

func c17Trim(rng *rand.Rand, n int) int {
	if rng.Intn(5) == 0 {
		return 1 + rng.Intn(n)
	}
	return n
}

// announcements handled by many goroutines at once, while it is drawn, end up as if handled one by one
func TestVerif_C17_concurrent(t *testing.T) {
	r := verifkit.Start(t, "C17", "concurrent")
	defer r.Finish()
	for i := 0; i < r.N(300, 6000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		w := c17NewWorld(rng)
		schedule.SampleRate = w.Rate
		currentState = &state{Songs: make([]upcomingSong, 0), Chunks: make([]upcomingChunk, 0)}
		h := newInfoerPackageHandler()
		var all []interface{}
		for _, s := range w.songs {
			all = append(all, &comm.NewSongInfo{SongFileName: s.name, FirstSampleOfSongIndex: uint64(s.start), SongLength: s.length})
		}
		for _, x := range w.toggles {
			all = append(all, &comm.PauseInfo{Playing: x.playing, ToggleSampleIndex: uint64(x.at)})
		}
		for _, ch := range w.chunks {
			all = append(all, &comm.ChunkInfo{StartTime: ch.start, FirstSampleIndex: uint64(ch.first), ChunkSize: uint64(ch.size)})
		}
		rng.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
		now := w.chunks[0].start
		var wg sync.WaitGroup
		stop := make(chan struct{})
		drawn := make(chan int)
		go func() {
			n := 0
			for {
				select {
				case <-stop:
					drawn <- n
					return
				default:
					currentState.Info(now)
					n++
				}
			}
		}()
		for _, m := range all {
			wg.Add(1)
			go func(m interface{}) {
				defer wg.Done()
				(&c17Client{rng: rng, handler: h}).give(m)
			}(m)
		}
		wg.Wait()
		close(stop)
		r.Count("drawn meanwhile", int64(<-drawn))
		for _, s := range append([]c17Song{}, w.songs...) {
			if s.played < 10 || s.end-s.start < 10 {
				continue
			}
			p := s.start + rng.Int63n(s.end-s.start-5) + 3
			song, playing, inSong, _ := w.at(p)
			near := false // a toggle next to it
			for _, x := range w.toggles {
				near = near || (x.at-p < 4 && p-x.at < 4)
			}
			if near {
				continue
			}
			info := currentState.Info(w.timeOf(p))
			x := w.songs[song]
			if info.CurrentSong.startIndex != uint64(x.start) || info.Playing != playing || math.Abs(info.TimeInSong.Seconds()*float64(w.Rate)-float64(inSong)) > 1.01+float64(inSong)*1e-12 {
				r.Violation("position", fmt.Sprintf("announced at once: at sample %d shown: song from %d, playing %v, %.2f samples in it; true: from %d, %v, %d", p,
					info.CurrentSong.startIndex, info.Playing, info.TimeInSong.Seconds()*float64(w.Rate), x.start, playing, inSong), w.String())
				break
			}
			r.Count("looked at", 1)
		}
		r.Eval(w.String(), len(w.songs) > 1)
	}
	r.Require("looked at", 1)
}
