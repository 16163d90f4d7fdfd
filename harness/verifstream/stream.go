// Package verifstream judges recorded streams: the samples read and what was announced, against the songs.
package verifstream

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	"github.com/LogicalOverflow/music-sync/verifkit"
)

const Slack = 4096 // samples within which a request has to take effect, besides what is buffered
const Idle = 32768 // silence pushed when there is nothing to play

type Song struct {
	Name     string
	Ref      [][2]float64
	Len      int64
	Playable bool
}

type Action struct {
	Kind string // play, pause, jump, add, insert, remove
	Arg  int
	Song string
	At   int // performed once this many samples were read
}

type Case struct {
	Buffer  int
	Break   int
	Songs   []string
	Actions []Action
	Silence int // how much there may be before there was a song to play
	Total   int // samples to read
	FillMax int
	Conc    bool // requests come from another goroutine
	Seed    int64
}

type Done struct {
	Action
	Before, After int // bounds of the stream index read when the request was made
}

type SongEvent struct {
	Start  uint64
	Name   string
	Length int64
}
type PauseEvent struct {
	Playing bool
	Sample  uint64
}

type Trace struct {
	Case      Case
	Low, High []float64
	Done      []Done
	Mu        sync.Mutex
	Songs     []SongEvent
	Pauses    []PauseEvent
	FillBad   string
	Stuck     string
	Stalled   string
}

// Snapshot returns what was announced, by sample.
func (t *Trace) Snapshot() ([]SongEvent, []PauseEvent) {
	t.Mu.Lock()
	defer t.Mu.Unlock()
	s := append([]SongEvent{}, t.Songs...)
	p := append([]PauseEvent{}, t.Pauses...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].Start < s[j].Start })
	sort.SliceStable(p, func(i, j int) bool { return p[i].Sample < p[j].Sample })
	return s, p
}

type Problem struct {
	Props  string
	Kind   string
	Detail string
	Retry  bool // may be due to an announcement which has not been delivered yet
}

type Stats struct {
	Songs, Complete, Cut, PausesIn, Samples, Jumps, JumpsJudged, Skips int
}

// Judge judges a trace. lib: what each file holds.
func Judge(t *Trace, lib map[string]Song) (problems []Problem, st Stats) {
	add := func(props, kind string, retry bool, f string, a ...interface{}) {
		if len(problems) < 8 {
			problems = append(problems, Problem{props, kind, fmt.Sprintf(f, a...), retry})
		}
	}
	c := t.Case
	n := len(t.Low)
	st.Samples = n
	songs, all := t.Snapshot()
	var pauses []PauseEvent // within what was read (afterwards the playlist is made to end)
	for _, p := range all {
		if p.Sample < uint64(n) {
			pauses = append(pauses, p)
		}
	}
	if t.Stalled != "" {
		add("C03 C25", "stream-stalls", false, "%s", t.Stalled)
		return
	}
	if t.Stuck != "" {
		add("C03 C05 C07 C25", "request-blocked", false, "%s", t.Stuck)
		return
	}
	if t.FillBad != "" {
		add("C03", "index", false, "%s", t.FillBad)
	}
	for i := 0; i < n; i++ {
		if math.IsNaN(t.Low[i]) != math.IsNaN(t.High[i]) {
			add("C03", "channels-out-of-step", false, "sample %d is (%v, %v)", i, t.Low[i], t.High[i])
			return
		}
	}
	nan := func(i int) bool { return math.IsNaN(t.Low[i]) }
	// without a break, the end of a song and the start of the next are one sample: a resume there lets the first one end,
	// and a pause stops the second one, which together changes nothing (and the two are announced from two goroutines)
	if c.Break == 0 {
		var kept []PauseEvent
		for i := 0; i < len(pauses); i++ {
			if i+1 < len(pauses) && pauses[i].Sample == pauses[i+1].Sample && pauses[i].Playing != pauses[i+1].Playing &&
				NextStart(songs, int(pauses[i].Sample)-1) == int(pauses[i].Sample) {
				i++
				continue
			}
			kept = append(kept, pauses[i])
		}
		pauses = kept
	}
	// pause announcements alternate, beginning with a pause
	for i, p := range pauses {
		if p.Playing != (i%2 == 1) {
			add("C05", "pauses-do-not-alternate", false, "pause announcements %s", PauseList(pauses))
			return
		}
		if i > 0 && pauses[i-1].Sample == p.Sample {
			add("C05", "pause-twice-at-one-sample", false, "pause announcements %s", PauseList(pauses))
		}
	}
	pi := 0
	playing := true // up to sample index i, by the announcements
	toggled := map[int]bool{}
	advance := func(i int) bool {
		for pi < len(pauses) && pauses[pi].Sample <= uint64(i) {
			playing = pauses[pi].Playing
			toggled[int(pauses[pi].Sample)] = playing
			pi++
		}
		return playing
	}
	// announcements
	for i, s := range songs {
		if i > 0 && songs[i-1].Start == s.Start {
			add("C04", "announced-twice", false, "two announcements for sample %d: %q, %q", s.Start, songs[i-1].Name, s.Name)
			return
		}
		l, ok := lib[s.Name]
		if !ok || !l.Playable {
			add("C04 C25", "announced-unplayable", false, "announced %q at %d, which can not be played", s.Name, s.Start)
			return
		}
		if s.Length != l.Len {
			add("C04", "length", false, "announced %q with %d samples, it has %d", s.Name, s.Length, l.Len)
		}
	}
	type seg struct {
		SongEvent
		cutAt    int // index after the last sample, if cut by a jump
		complete bool
		end      int // index after the last sample, if complete
		lastReal int // index after the last sample of music seen
		loose    int // cut while paused: the latest possible end
		paused   bool
	}
	allPlayable := len(c.Songs) > 0
	for _, s := range c.Songs {
		allPlayable = allPlayable && lib[s].Playable
	}
	mayEmpty := false
	for _, d := range t.Done {
		mayEmpty = mayEmpty || d.Kind == "remove"
	}
	between := "C03 C04"
	toggleCount := 0
	for _, d := range t.Done {
		if d.Kind == "play" || d.Kind == "pause" {
			toggleCount++
		}
	}
	if toggleCount > 1 {
		between += " C05"
	}
	var segs []seg
	pos := 0
	for si, s := range songs {
		start := int(s.Start)
		if start >= n {
			break
		}
		// between songs there is silence
		for ; pos < start; pos++ {
			if !nan(pos) {
				add(between, "music-between-songs", true, "sample %d of the stream is music (%v), but the songs announced are %s", pos, t.Low[pos], SongList(songs))
				return
			}
		}
		limit := n
		if si+1 < len(songs) && int(songs[si+1].Start) < n {
			limit = int(songs[si+1].Start)
		}
		ref := lib[s.Name].Ref
		sg := seg{SongEvent: s}
		k := 0
		i := start
		hadPause := false
		for i < limit && k < len(ref) {
			if advance(i) {
				if nan(i) {
					break // silence though playing: only a cut may explain this
				}
				if t.Low[i] != ref[k][0] || t.High[i] != ref[k][1] {
					props := "C03"
					if hadPause {
						props += " C05"
					}
					if si > 0 && k == 0 {
						props += " C04"
					}
					where := "another place of no song"
					for name, l := range lib {
						for kk := range l.Ref {
							if l.Ref[kk][0] == t.Low[i] && l.Ref[kk][1] == t.High[i] && t.Low[i] != 0 {
								where = fmt.Sprintf("sample %d of %q", kk, name)
							}
						}
					}
					add(props, "wrong-sample", false, "sample %d of the stream should be sample %d of %q (%v,%v), but is (%v,%v): %s; songs %s pauses %s",
						i, k, s.Name, ref[k][0], ref[k][1], t.Low[i], t.High[i], where, SongList(songs), PauseList(pauses))
					return
				}
				k++
				sg.lastReal = i + 1
			} else {
				hadPause = true
				if !nan(i) {
					add("C05 C03", "music-while-paused", true, "sample %d of the stream (in %q from %d) is music, but by the announcements playback is paused: %s", i, s.Name, s.Start, PauseList(pauses))
					return
				}
			}
			i++
		}
		if sg.lastReal == 0 {
			sg.lastReal = start
		}
		if hadPause {
			st.PausesIn++
		}
		st.Songs++
		switch {
		case k == len(ref):
			sg.complete, sg.end = true, i
			st.Complete++
		case i == n && limit == n:
			// the trace ends within the song
			sg.end = -1
			if (mayEmpty || !allPlayable) && !playing {
				sg.end, sg.complete = sg.lastReal, true // or it was cut and there is nothing left to play
			}
		default:
			sg.paused = !playing
			sg.cutAt = i
			if sg.paused {
				sg.cutAt = sg.lastReal
				sg.loose = i
			}
			if i < limit && !sg.paused && !nan(i) {
				panic("unreachable")
			}
			st.Cut++
		}
		segs = append(segs, sg)
		pos = i
	}
	for ; pos < n; pos++ {
		if len(segs) > 0 && segs[len(segs)-1].end == -1 {
			break
		}
		if !nan(pos) {
			add(between, "music-between-songs", true, "sample %d of the stream is music (%v), but the songs announced are %s", pos, t.Low[pos], SongList(songs))
			return
		}
	}
	// pause announcements only where a song is playing
	for _, p := range pauses {
		if int(p.Sample) >= n {
			continue
		}
		in := false
		for i, sg := range segs {
			last := n
			if i+1 < len(segs) {
				last = int(segs[i+1].Start)
			}
			if sg.Start <= p.Sample && int(p.Sample) < last {
				// within the song: not after its natural end (one empty batch excepted)
				in = !sg.complete || int(p.Sample) <= sg.end+Slack || PausedAfter(pauses, sg.end)
			}
		}
		if !in {
			add("C05", "pause-outside-of-songs", true, "pause announcement %+v lies in no song: %s", p, SongList(songs))
		}
	}
	// what happened when: the requests
	var jumps []Done
	edited := false
	for _, d := range t.Done {
		switch d.Kind {
		case "jump":
			jumps = append(jumps, d)
		case "add", "insert", "remove":
			if d.At > 0 {
				edited = true
			}
		}
	}
	st.Jumps = len(jumps)
	reach := func(d Done) int { return d.After + c.Buffer + 1 + Slack }
	// cuts have a jump each
	used := map[int]bool{}
	for _, sg := range segs {
		if sg.complete || sg.end == -1 {
			continue
		}
		lo, hi := sg.cutAt, sg.cutAt
		if sg.paused {
			hi = sg.loose
		}
		found := -1
		for j, d := range jumps {
			if used[j] {
				continue
			}
			if d.Before <= hi && lo <= reach(d) {
				found = j
				break
			}
		}
		if found < 0 {
			add("C07 C03", "cut-without-jump", true, "song %q from %d stops at %d..%d of the stream before it ended, with no jump left which could explain it: jumps %v, songs %s, pauses %s", sg.Name, sg.Start, lo, hi, DoneList(jumps), SongList(songs), PauseList(pauses))
			continue
		}
		used[found] = true
	}
	// the breaks
	if allPlayable && len(segs) > 0 && int(segs[0].Start) > c.Silence {
		add("C03", "break", true, "the stream begins with %d samples of silence", segs[0].Start)
	}
	for i := 0; i+1 < len(segs); i++ {
		sg, next := segs[i], int(segs[i+1].Start)
		end := sg.end
		if !sg.complete {
			if sg.paused {
				if next-sg.lastReal < c.Break {
					add("C03", "break", false, "only %d samples of silence between %q and the next song, the break is %d", next-sg.lastReal, sg.Name, c.Break)
				}
				continue
			}
			end = sg.cutAt
		} else if w := PausedAfter(pauses, end); w {
			// paused right at the end of the song: silence is part of the song until it is resumed
			if next-end < c.Break {
				add("C03", "break", false, "only %d samples of silence between %q and the next song, the break is %d", next-end, sg.Name, c.Break)
			}
			continue
		} else if r := ResumeAfter(pauses, end, next); r > 0 {
			end = r
		}
		gap := next - end - c.Break
		if gap < 0 || gap > 0 && allPlayable && !edited {
			add("C03", "break", false, "%d samples of silence between %q (ends at %d) and the next song at %d, the break is %d", next-end, sg.Name, end, next, c.Break)
		}
		st.Skips += gap / Idle
	}
	// the requests take effect
	for j, d := range jumps {
		if edited || len(c.Songs) == 0 {
			continue
		}
		limit := reach(d)
		want := PlayableFrom(c.Songs, lib, d.Arg)
		due := limit + 2*c.Break
		if !allPlayable {
			due += (Wrap(want-Wrap(d.Arg, len(c.Songs)), len(c.Songs)) + 2) * Idle
		}
		lastOfBurst := true
		for _, e := range jumps[j+1:] {
			if e.Before <= due {
				lastOfBurst = false
			}
		}
		if !lastOfBurst {
			continue
		}
		// no song begun before the jump goes on after it
		if limit >= n {
			continue
		}
		st.JumpsJudged++
		for i, sg := range segs {
			if int(sg.Start) < d.Before && sg.end != 0 && (sg.complete && sg.end > limit || sg.end == -1 && n > limit+1) {
				_ = i
				add("C07", "jump-not-taken", false, "a jump to %d requested when %d..%d samples were read should cut %q (from %d) by sample %d; songs %s", d.Arg, d.Before, d.After, sg.Name, sg.Start, limit, SongList(songs))
			}
		}
		// the song at the position is next
		if want < 0 {
			continue
		}
		ok := false
		for _, s := range songs {
			if int(s.Start) >= d.Before && int(s.Start) <= due && s.Name == c.Songs[want] {
				ok = true
			}
		}
		if !ok && due < n {
			add("C07", "jump-target", true, "a jump to %d (of %d songs) requested when %d..%d samples were read should start %q by sample %d; songs %s", d.Arg, len(c.Songs), d.Before, d.After, c.Songs[want], due, SongList(songs))
		}
	}
	// the order of the songs
	if !edited && len(c.Songs) > 0 {
		for i := 0; i+1 < len(segs); i++ {
			cur, next := segs[i], segs[i+1]
			allowed := map[string]bool{}
			var why []string
			if w := PlayableAfter(c.Songs, lib, cur.Name); cur.complete {
				for _, x := range w {
					allowed[x] = true
				}
				why = append(why, w...)
			}
			for _, d := range jumps {
				if d.Before <= int(next.Start) && int(cur.Start) <= reach(d)+c.Break+Idle*(len(c.Songs)+1) {
					if w := PlayableFrom(c.Songs, lib, d.Arg); w >= 0 {
						allowed[c.Songs[w]] = true
						why = append(why, c.Songs[w])
					}
				}
			}
			if !allowed[next.Name] {
				add("C03 C07 C25", "song-order", true, "%q at %d follows %q from %d (complete: %v), expected one of %q; jumps %v; playlist %q", next.Name, next.Start, cur.Name, cur.Start, cur.complete, why, DoneList(jumps), c.Songs)
			}
		}
		if len(segs) > 0 && len(jumps) == 0 {
			if w := PlayableFrom(c.Songs, lib, 0); w >= 0 && segs[0].Name != c.Songs[w] {
				add("C03", "song-order", true, "the first song is %q, not %q", segs[0].Name, c.Songs[w])
			}
		}
	}
	// pauses and resumes take effect in time
	inSong := func(i int) int {
		for s, sg := range segs {
			end := sg.end
			if sg.end == -1 {
				end = n
			}
			if !sg.complete && sg.end != -1 {
				end = sg.cutAt
			}
			if int(sg.Start) <= i && i < end {
				return s
			}
		}
		return -1
	}
	var toggles []Done
	for _, d := range t.Done {
		if d.Kind == "play" || d.Kind == "pause" {
			toggles = append(toggles, d)
		}
	}
	for j, d := range toggles {
		want := d.Kind == "play"
		from, to := reach(d), n
		for _, e := range toggles[j+1:] {
			if (e.Kind == "play") != want {
				to = e.Before
				break
			}
		}
		for i := from; i < to; i++ {
			if s := inSong(i); s >= 0 && int(segs[s].Start)+Slack <= i && nan(i) == want {
				add("C05", "pause-not-taken", false, "%s requested when %d..%d samples were read, but sample %d (in %q from %d) is nan=%v; pauses %s requests %v", d.Kind, d.Before, d.After, i, segs[s].Name, segs[s].Start, nan(i), PauseList(pauses), DoneList(toggles))
				break
			}
		}
	}
	// and nothing pauses or resumes unasked
	for _, p := range pauses {
		ok := !p.Playing && (len(toggles) == 0 || int(p.Sample) <= reach(toggles[0]))
		for j, d := range toggles {
			if (d.Kind == "play") != p.Playing || int(p.Sample) < d.Before {
				continue
			}
			over := false
			for _, e := range toggles[j+1:] {
				if (e.Kind == "play") != p.Playing && reach(e)+Slack < int(p.Sample) {
					over = true
				}
			}
			// a request made between songs takes effect with the next song
			if !over {
				ok = true
			} else if s := NextStart(songs, reach(d)); s == int(p.Sample) {
				ok = true
			}
		}
		if !ok {
			add("C05", "pause-unasked", true, "pause announcement %+v, requests %v", p, DoneList(toggles))
		}
	}
	return
}

func NextStart(songs []SongEvent, from int) int {
	for _, s := range songs {
		if int(s.Start) >= from {
			return int(s.Start)
		}
	}
	return -1
}

// paused at sample i by announcements with a later resume or none
func PausedAfter(p []PauseEvent, i int) bool {
	playing := true
	for _, e := range p {
		if int(e.Sample) <= i {
			playing = e.Playing
		}
	}
	return !playing
}

// the last resume in (from, to)
func ResumeAfter(p []PauseEvent, from, to int) int {
	r := 0
	for _, e := range p {
		if from < int(e.Sample) && int(e.Sample) < to && e.Playing {
			r = int(e.Sample)
		}
	}
	return r
}

func Wrap(p, n int) int { return (p%n + n) % n }

// PlayableFrom returns the first playable position from pos on, -1 if there is none
func PlayableFrom(songs []string, lib map[string]Song, pos int) int {
	for i := range songs {
		p := Wrap(Wrap(pos, len(songs))+i, len(songs))
		if lib[songs[p]].Playable {
			return p
		}
	}
	return -1
}

// PlayableAfter returns what may follow a song (a song may be in the playlist several times)
func PlayableAfter(songs []string, lib map[string]Song, name string) []string {
	var r []string
	for i, s := range songs {
		if s == name {
			if p := PlayableFrom(songs, lib, i+1); p >= 0 {
				r = append(r, songs[p])
			}
		}
	}
	return r
}

func SongList(s []SongEvent) string {
	var b []string
	for _, e := range s {
		b = append(b, fmt.Sprintf("%d:%s(%d)", e.Start, verifkit.Short(e.Name, 30), e.Length))
	}
	return verifkit.Short(strings.Join(b, " "), 600)
}

func PauseList(p []PauseEvent) string {
	var b []string
	for _, e := range p {
		b = append(b, fmt.Sprintf("%d:%v", e.Sample, e.Playing))
	}
	return verifkit.Short(strings.Join(b, " "), 500)
}

func DoneList(d []Done) string {
	var b []string
	for _, e := range d {
		b = append(b, fmt.Sprintf("%s(%d)@%d..%d", e.Kind, e.Arg, e.Before, e.After))
	}
	return verifkit.Short(strings.Join(b, " "), 600)
}
