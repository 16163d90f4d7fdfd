package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifstream"
	"github.com/aristanetworks/goarista/monotime"
	"github.com/golang/protobuf/proto"
)

// The stream of the real server, received by a client and put together again, judged by the same oracle as the playlist alone.

type stCase struct {
	Rate, Chunk, Break int
	Songs              []string
	Requests           []string
	HeldUp             time.Duration
	Seconds            int
}

type stRecord struct {
	mu      sync.Mutex
	chunks  map[int64]*comm.QueueChunkRequest
	arrived map[int64]int64
	twice   []int64
	infos   map[uint64]*comm.ChunkInfo
	trace   verifstream.Trace
	newest  int64
}

func (r *stRecord) on(m proto.Message) {
	now := int64(monotime.Now())
	r.mu.Lock()
	defer r.mu.Unlock()
	switch m := m.(type) {
	case *comm.QueueChunkRequest:
		if r.chunks[m.ChunkId] != nil {
			r.twice = append(r.twice, m.ChunkId)
		}
		r.chunks[m.ChunkId] = m
		r.arrived[m.ChunkId] = now
		if r.newest < m.ChunkId {
			r.newest = m.ChunkId
		}
	case *comm.ChunkInfo:
		r.infos[m.FirstSampleIndex] = m
	case *comm.NewSongInfo:
		r.trace.Mu.Lock()
		r.trace.Songs = append(r.trace.Songs, verifstream.SongEvent{Start: m.FirstSampleOfSongIndex, Name: m.SongFileName, Length: m.SongLength})
		r.trace.Mu.Unlock()
	case *comm.PauseInfo:
		r.trace.Mu.Lock()
		r.trace.Pauses = append(r.trace.Pauses, verifstream.PauseEvent{Playing: m.Playing, Sample: m.ToggleSampleIndex})
		r.trace.Mu.Unlock()
	}
}

// lead is how long before it is due the chunk which was the earliest of those from id on arrived.
func (r *stRecord) lead(from int64) (lead time.Duration, seen int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for id, c := range r.chunks {
		if id < from {
			continue
		}
		if l := time.Duration(c.StartTime - r.arrived[id]); seen == 0 || lead < l {
			lead = l
		}
		seen++
	}
	return
}

func (r *stRecord) last() int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.newest
}

// stRun runs case i of prop, reporting what concerns prop.
func stRun(k *verifkit.Run, prop string, i int) {
	rng := k.Rand(i)
	c := stCase{Rate: []int{44100, 88200, 176400}[rng.Intn(3)], Chunk: []int{1000, 2205, 4410, 8820}[rng.Intn(4)], Break: []int{0, 3, 512, 4410, 30000}[rng.Intn(5)], Seconds: k.N(9, 25)}
	if prop == "C03" && i%2 == 0 {
		c.HeldUp = time.Duration(1000+rng.Intn(1500)) * time.Millisecond
	}
	const delay = 1500 * time.Millisecond
	w := vStart(k, nil, nil, nil, "--sample-rate", fmt.Sprint(c.Rate), "--stream-chunk-size", fmt.Sprint(c.Chunk), "--song-break-size", fmt.Sprint(c.Break),
		"--stream-start-delay", "2500ms", "--stream-delay", fmt.Sprint(delay))
	defer w.end()
	lib := map[string]verifstream.Song{}
	var names []string
	for j := 0; j < 5; j++ {
		n := []string{"one.mp3", "two.mp3", "sub dir/three.mp3", "vier-ü.mp3", "long five.mp3"}[j]
		p := filepath.Join(w.srv.Music, n)
		os.MkdirAll(filepath.Dir(p), 0755)
		ref := verifkit.WriteSong(p, rng.Intn(200), 8+rng.Intn(40)*(1+j), nil, nil)
		lib[n] = verifstream.Song{Name: n, Ref: ref, Len: verifkit.DecodedLen(p), Playable: true}
		names = append(names, n)
	}
	ioutil.WriteFile(filepath.Join(w.srv.Music, "broken.mp3"), []byte("no music"), 0644)
	lib["broken.mp3"] = verifstream.Song{Name: "broken.mp3"}

	r := &stRecord{chunks: map[int64]*comm.QueueChunkRequest{}, arrived: map[int64]int64{}, infos: map[uint64]*comm.ChunkInfo{}, newest: -1}
	f, err := w.follow(r.on, comm.Channel_AUDIO, comm.Channel_META)
	if err != nil {
		k.Inconclusive(err.Error())
		return
	}
	defer f.c.Close()
	admin := w.admin(200, 40)
	if admin == nil {
		k.Inconclusive("no admin session")
		return
	}
	defer admin.Close()
	for n := 3 + rng.Intn(3); n > 0; n-- {
		name := names[rng.Intn(len(names))]
		if rng.Intn(6) == 0 {
			name = "broken.mp3"
		}
		c.Songs = append(c.Songs, name)
	}
	if i%2 == 0 {
		c.Songs[0] = names[rng.Intn(len(names))]
	}
	for _, n := range c.Songs {
		if o, ok := admin.Cmd(`queue `+stEscape(n), vPatience); !ok || !strings.Contains(o, "1 song(s) added") {
			if !w.broken("queueing", c) {
				k.Inconclusive("a song could not be queued: " + o)
			}
			return
		}
	}
	chunk := time.Duration(c.Chunk) * time.Second / time.Duration(c.Rate)
	base := func() int64 { // a moment not after the first chunk was begun
		r.mu.Lock()
		defer r.mu.Unlock()
		if m := r.chunks[0]; m != nil {
			return m.StartTime - int64(delay)
		}
		return -1
	}
	do := func(a verifstream.Action, line string) bool {
		d := verifstream.Done{Action: a}
		d.Before = int(r.last()+1) * c.Chunk
		c.Requests = append(c.Requests, line)
		_, ok := admin.Cmd(line, vPatience)
		now := int64(monotime.Now())
		if b := base(); b >= 0 {
			d.After = (int((now-b)/int64(chunk)) + 1) * c.Chunk
		} else {
			d.After = c.Chunk
		}
		r.trace.Mu.Lock()
		r.trace.Done = append(r.trace.Done, d)
		r.trace.Mu.Unlock()
		if !ok {
			if !w.broken(line, c) {
				k.Inconclusive(fmt.Sprintf("%q was not answered", line))
			}
		}
		return ok
	}
	if !verifkit.Eventually(vPatience, func() bool { return r.last() >= 0 }) || base() < 0 {
		if !w.broken("before playing", c) {
			k.Inconclusive("subscribed too late for the first chunk")
		}
		return
	}
	if !do(verifstream.Action{Kind: "play"}, "resume") {
		return
	}
	began := time.Now()
	held := false
	paused := false
	for time.Since(began) < time.Duration(c.Seconds)*time.Second {
		time.Sleep(time.Duration(rng.Intn(900)) * time.Millisecond)
		if c.HeldUp > 0 && !held && time.Since(began) > time.Duration(c.Seconds)*time.Second/3 {
			held = true
			if !stHold(k, w, r, c) {
				return
			}
			continue
		}
		ok := true
		switch n := rng.Intn(10); {
		case paused || n < 3:
			if ok = do(verifstream.Action{Kind: map[bool]string{true: "play", false: "pause"}[paused]}, map[bool]string{true: "resume", false: "pause"}[paused]); ok {
				paused = !paused
			}
		case n < 6 && (prop == "C07" || rng.Intn(2) == 0):
			p := rng.Intn(len(c.Songs)+4) - 2
			ok = do(verifstream.Action{Kind: "jump", Arg: p}, fmt.Sprintf("jump %d", p))
		case n == 6 && i%3 == 2:
			p := rng.Intn(len(c.Songs))
			ok = do(verifstream.Action{Kind: "remove", Arg: p, At: 1}, fmt.Sprintf("remove %d", p)) && do(verifstream.Action{Kind: "add", Song: names[0], At: 1}, `queue `+stEscape(names[0]))
		}
		if !ok {
			return
		}
	}
	// what was streamed until now, completely
	end := r.last()
	complete := func() bool {
		r.mu.Lock()
		defer r.mu.Unlock()
		for id := int64(0); id <= end; id++ {
			if r.chunks[id] == nil || r.infos[r.chunks[id].FirstSampleIndex] == nil {
				return false
			}
		}
		return true
	}
	all := verifkit.Eventually(vPatience, complete)
	stJudge(k, prop, w, r, c, end, all, lib)
}

// stHold suspends the server for a while; the stream must be ahead as before afterwards.
func stHold(k *verifkit.Run, w *vWorld, r *stRecord, c stCase) bool {
	ahead, _ := r.lead(0)
	syscall.Kill(w.srv.Pid(), syscall.SIGSTOP)
	time.Sleep(c.HeldUp)
	last := r.last()
	syscall.Kill(w.srv.Pid(), syscall.SIGCONT)
	// another server in the same process would be as slow: what counts is that it gets ahead again at all
	var lead time.Duration
	var seen int
	ok := verifkit.Eventually(vPatience, func() bool {
		lead, seen = r.lead(last + 1)
		return seen > 0 && lead > ahead-c.HeldUp/2
	})
	k.Count("times held up", 1)
	if ok || w.broken("after the server was held up", c) {
		return ok
	}
	if seen < 100 {
		k.Inconclusive(fmt.Sprintf("only %d chunks in %v after the server was held up", seen, vPatience))
		return false
	}
	k.Violation("schedule-not-regained", fmt.Sprintf("chunks of %v were sent up to %v before they are due; after the server was held up for %v, none of the next %d was sent more than %v before it was due",
		time.Duration(c.Chunk)*time.Second/time.Duration(c.Rate), ahead, c.HeldUp, seen, lead), c)
	return false
}

func stJudge(k *verifkit.Run, prop string, w *vWorld, r *stRecord, c stCase, end int64, all bool, lib map[string]verifstream.Song) {
	if w.broken("streaming", c) {
		return
	}
	bad := func(kind, f string, a ...interface{}) {
		// songs, pauses and resumes are announced with the indices of chunks
		if prop == "C03" || kind == "chunk-index" && prop != "C07" {
			k.Violation(kind, fmt.Sprintf(f, a...), c)
		} else {
			k.Count("problems_of_other_properties", 1)
		}
	}
	r.mu.Lock()
	t := &r.trace
	t.Case = verifstream.Case{Buffer: c.Rate, Break: c.Break, Songs: c.Songs, Silence: t.Done[0].After + c.Rate + verifstream.Idle + verifstream.Slack}
	chunk := int64(time.Duration(c.Chunk) * time.Second / time.Duration(c.Rate))
	first := r.chunks[0]
	if len(r.twice) > 0 {
		bad("chunk-twice", "chunks %v were received twice", r.twice)
	}
	for id := int64(0); id <= end; id++ {
		m := r.chunks[id]
		if m == nil {
			bad("chunk-missing", "chunk %d was not received %v after chunk %d", id, vPatience, end)
			r.mu.Unlock()
			return
		}
		if len(m.SampleLow) != c.Chunk || len(m.SampleHigh) != c.Chunk {
			bad("chunk-size", "chunk %d has %d and %d samples, not %d", id, len(m.SampleLow), len(m.SampleHigh), c.Chunk)
			r.mu.Unlock()
			return
		}
		if m.FirstSampleIndex != uint64(id)*uint64(c.Chunk) {
			bad("chunk-index", "chunk %d of %d samples begins with sample %d", id, c.Chunk, m.FirstSampleIndex)
		}
		if m.StartTime != first.StartTime+id*chunk {
			bad("chunk-time", "chunk %d is scheduled %v after chunk 0, chunks take %v", id, time.Duration(m.StartTime-first.StartTime), time.Duration(chunk))
		}
		if n := r.infos[m.FirstSampleIndex]; n == nil {
			if !all {
				bad("chunk-not-told", "the info clients were not told of chunk %d", id)
			}
		} else if n.StartTime != m.StartTime || n.ChunkSize != uint64(c.Chunk) {
			bad("chunk-told-wrong", "the info clients were told that the %d samples from %d on start at %d, it is chunk %d of %d samples from %d on", n.ChunkSize, n.FirstSampleIndex, n.StartTime, id, c.Chunk, m.StartTime)
		}
		t.Low, t.High = append(t.Low, m.SampleLow...), append(t.High, m.SampleHigh...)
	}
	r.mu.Unlock()
	k.Count("chunks", end+1)
	var problems []verifstream.Problem
	var st verifstream.Stats
	verifkit.Eventually(20*time.Second, func() bool {
		problems, st = verifstream.Judge(t, lib)
		for _, p := range problems {
			if p.Retry && strings.Contains(p.Props, prop) {
				return false
			}
		}
		return true
	})
	sort.SliceStable(problems, func(i, j int) bool { return problems[i].Kind < problems[j].Kind })
	for _, p := range problems {
		if strings.Contains(p.Props, prop) {
			k.Violation(p.Kind, "received from the real server: "+p.Detail, c)
		} else {
			k.Count("problems_of_other_properties", 1)
			if os.Getenv("VERIF_KEEP") != "" {
				fmt.Printf("OTHER %+v\n", p)
			}
		}
	}
	k.Count("samples", int64(st.Samples))
	k.Count("songs", int64(st.Songs))
	k.Count("songs_complete", int64(st.Complete))
	k.Count("songs_cut", int64(st.Cut))
	k.Count("songs_paused", int64(st.PausesIn))
	k.Count("jumps_judged", int64(st.JumpsJudged))
	k.Eval(fmt.Sprint(c), map[string]bool{"C03": st.Complete > 0, "C04": st.Songs > 1, "C05": st.PausesIn > 0, "C07": st.JumpsJudged > 0}[prop])
	k.Sample(c)
}

func stEscape(s string) string { return strings.Replace(s, " ", "\\ ", -1) }

// stRuns runs n cases, four at a time.
func stRuns(k *verifkit.Run, prop string, n int) {
	var wg sync.WaitGroup
	slots := make(chan struct{}, 4)
	for i := 0; i < n && !k.Failed(); i++ {
		slots <- struct{}{}
		wg.Add(1)
		go func(i int) {
			defer func() { <-slots; wg.Done() }()
			stRun(k, prop, i)
		}(i)
	}
	wg.Wait()
}
