package schedule

import (
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifwire"
	"github.com/golang/protobuf/proto"
)

type c12Toggle struct {
	at      uint64
	playing bool
}

// c12Paused returns how many samples of [start, at) are paused and whether it is playing at at
func c12Paused(ts []c12Toggle, start, at uint64) (uint64, bool) {
	ts = append([]c12Toggle{}, ts...)
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].at < ts[j].at })
	playing, since, sum := true, uint64(0), uint64(0)
	over := func(from, to uint64) {
		if from < start {
			from = start
		}
		if to > at {
			to = at
		}
		if from < to {
			sum += to - from
		}
	}
	for _, t := range ts {
		if t.at > at {
			break
		}
		if !playing {
			over(since, t.at)
		}
		playing, since = t.playing, t.at
	}
	if !playing {
		over(since, at)
	}
	return sum, playing
}

// c12Event is a song or pause announced, or the volume being set (in C12_server)
type c12Event struct {
	song    bool
	at      uint64
	playing bool
	volume  float64
}

// c12Judge says what a client which received got would show wrong after events
func c12Judge(events []c12Event, got []proto.Message) (kind, detail string) {
	var all []c12Toggle
	newest, last := -1, uint64(0)
	for k, e := range events {
		if e.volume != 0 {
			continue
		}
		last = e.at
		if e.song {
			newest = k
		} else {
			all = append(all, c12Toggle{e.at, e.playing})
		}
	}
	var songs []*comm.NewSongInfo
	var told []c12Toggle
	vol := false
	for _, m := range got {
		switch m := m.(type) {
		case *comm.NewSongInfo:
			songs = append(songs, m)
		case *comm.PauseInfo:
			told = append(told, c12Toggle{m.ToggleSampleIndex, m.Playing})
		case *comm.SetVolumeRequest:
			vol = true
		}
	}
	if !vol {
		return "volume-missed", "a new client gets no volume"
	}
	if newest < 0 {
		return "", ""
	}
	var best *comm.NewSongInfo
	for _, s := range songs {
		if best == nil || s.FirstSampleOfSongIndex > best.FirstSampleOfSongIndex {
			best = s
		}
	}
	start := events[newest].at
	if best == nil || best.FirstSampleOfSongIndex != start || best.SongFileName != fmt.Sprintf("song%d.mp3", newest) || best.SongLength != int64(newest)*1000 {
		return "song-missed", fmt.Sprintf("the newest song known to a client is %v", best)
	}
	for _, e := range append(append([]c12Event{}, events...), c12Event{at: start}, c12Event{at: start + 1}, c12Event{at: last + 12345}) {
		if e.at < start {
			continue
		}
		ws, wp := c12Paused(all, start, e.at)
		gs, gp := c12Paused(told, start, e.at)
		if ws != gs || wp != gp {
			return "pause-missed", fmt.Sprintf("a client knows of %v; at %d it takes %d samples of the newest song as paused instead of %d, and playing as %v instead of %v", told, e.at, gs, ws, gp, wp)
		}
	}
	for _, g := range told {
		ok := false
		for _, a := range all {
			ok = ok || a == g
		}
		if !ok {
			return "pause-invented", fmt.Sprintf("a client is told of %v", g)
		}
	}
	return "", ""
}

func TestVerif_C12_joins(t *testing.T) {
	r := verifkit.Start(t, "C12", "joins")
	defer r.Finish()
	dir, err := ioutil.TempDir("", "c12")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	playback.AudioDir = dir
	for i := 0; i < r.N(700, 15000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		hub := &vHub{delay: vDelays(r.Rand(i + 1<<20))}
		ss := vState(nil)
		ss.sender = hub
		handler, song, toggle := ss.createClientHandler(), ss.createNewSongHandler(), ss.createPauseToggleHandler()
		// a stream: songs start only while playing, everything at an index of its own
		var events []c12Event
		playing, at := true, uint64(rng.Intn(1000))
		for k := 1 + rng.Intn(12); k > 0; k-- {
			at += uint64(1 + rng.Intn(100000))
			if playing && rng.Intn(2) == 0 {
				events = append(events, c12Event{song: true, at: at})
			} else {
				playing = !playing
				events = append(events, c12Event{at: at, playing: playing})
			}
		}
		toggles, newest := 0, -1
		for k, e := range events {
			if e.song {
				newest = k
			} else {
				toggles++
			}
		}
		pause := vDelays(r.Rand(i + 1<<21))
		mode := rng.Intn(3) // the handlers run one after the other, overlapping, at any time
		var wg sync.WaitGroup
		var mu sync.Mutex
		var clients []*vClient
		joins := 1 + rng.Intn(5)
		for j := 0; j < joins; j++ {
			wg.Add(1)
			jit := rng.Intn(8)
			chs := []comm.Channel{comm.Channel_META}
			if j%3 == 2 {
				chs = []comm.Channel{comm.Channel_AUDIO, comm.Channel_META}
			} else if j%4 == 3 {
				chs = append(chs, comm.Channel_META)
			}
			go func() {
				defer wg.Done()
				for k := 0; k < jit; k++ {
					pause()
				}
				c := hub.join(handler, chs...)
				mu.Lock()
				clients = append(clients, c)
				mu.Unlock()
			}()
		}
		for k, e := range events {
			k, e := k, e
			run := func() {
				if e.song {
					song(e.at, fmt.Sprintf("song%d.mp3", k), int64(k)*1000)
				} else {
					toggle(e.playing, e.at)
				}
			}
			if mode == 0 {
				run()
				pause()
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				if mode == 2 {
					pause()
				}
				run()
			}()
			if mode == 1 {
				pause()
			}
		}
		if v, rep := verifkit.Bounded(60*time.Second, wg.Wait); v == verifkit.Stuck {
			r.Violation("hangs", "announcing songs and pauses while clients join never ends", rep)
			return
		} else if v != verifkit.Completed {
			r.Inconclusive("announcing did not finish")
			return
		}
		clients = append(clients, hub.join(handler, comm.Channel_META)) // afterwards
		what := fmt.Sprintf("stream of %v (song, index, playing; mode %d)", events, mode)
		for _, c := range clients {
			if kind, detail := c12Judge(events, c.received()); kind != "" {
				r.Violation(kind, what+": "+detail, nil)
				return
			}
		}
		r.Count("clients", int64(len(clients)))
		r.Count("events", int64(len(events)))
		r.Eval(what, toggles > 0 && newest >= 0)
	}
}

// what is kept for new clients does not grow, and is forgotten no sooner than it may
func TestVerif_C12_kept(t *testing.T) {
	r := verifkit.Start(t, "C12", "kept")
	defer r.Finish()
	for i := 0; i < r.N(40, 400) && !r.Failed(); i++ {
		rng := r.Rand(i)
		hub := &vHub{}
		ss := vState(nil)
		ss.sender = hub
		handler, song, toggle := ss.createClientHandler(), ss.createNewSongHandler(), ss.createPauseToggleHandler()
		at := uint64(0)
		most := 0
		for s := 0; s < 60; s++ {
			at += uint64(1 + rng.Intn(1000))
			song(at, "x.mp3", 5)
			start := at
			var all []c12Toggle
			for k := rng.Intn(4); k > 0; k-- {
				at += uint64(1 + rng.Intn(1000))
				toggle(false, at)
				all = append(all, c12Toggle{at, false})
				at += uint64(1 + rng.Intn(1000))
				toggle(true, at)
				all = append(all, c12Toggle{at, true})
			}
			c := hub.join(handler, comm.Channel_META)
			hub.mu.Lock()
			hub.clients = nil
			hub.mu.Unlock()
			var got []c12Toggle
			var m proto.Message
			for _, m = range c.received() {
				if p, ok := m.(*comm.PauseInfo); ok {
					got = append(got, c12Toggle{p.ToggleSampleIndex, p.Playing})
				}
			}
			ws, wp := c12Paused(all, start, at+10)
			gs, gp := c12Paused(got, start, at+10)
			if ws != gs || wp != gp {
				r.Violation("pause-missed", fmt.Sprintf("after song %d at %d with %v, a new client is told of %v", s, start, all, got), nil)
				return
			}
			if len(got) > most {
				most = len(got)
			}
		}
		if most > 40 {
			r.Violation("never-forgotten", fmt.Sprintf("after 60 songs a new client is told of %d pauses, at most 8 were in any two songs", most), nil)
		}
		r.Max("pauses_told", int64(most))
		r.Eval(fmt.Sprint(i, most), true)
	}
}

// c12Answer is the connection of a client being answered: something may happen before and after each message
type c12Answer struct {
	to     comm.MessageSender
	inject func()
}

func (a c12Answer) SendMessage(m proto.Message) error {
	a.inject()
	defer a.inject()
	return a.to.SendMessage(m)
}

// clients of a real server, on which something changes right before, while and right after a subscription is handled
func TestVerif_C12_server(t *testing.T) {
	r := verifkit.Start(t, "C12", "server")
	defer r.Finish()
	playback.AudioDir = t.TempDir()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Inconclusive(err.Error())
		return
	}
	addr := l.Addr().String()
	l.Close()
	sender, err := comm.StartServer(addr)
	if err != nil {
		r.Inconclusive(err.Error())
		return
	}
	for i := 0; i < r.N(500, 8000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		ss := vState(nil)
		ss.sender = sender
		handler, song, toggle, volume := ss.createClientHandler(), ss.createNewSongHandler(), ss.createPauseToggleHandler(), ss.volumeCommand()
		var events []c12Event
		playing, at := true, uint64(rng.Intn(1000))
		for k := 2 + rng.Intn(16); k > 0; k-- {
			at += uint64(1 + rng.Intn(100000))
			switch n := rng.Intn(4); {
			case n == 0:
				events = append(events, c12Event{at: at, volume: float64(1+k) / 20})
			case n < 3 && playing:
				events = append(events, c12Event{song: true, at: at})
			default:
				playing = !playing
				events = append(events, c12Event{at: at, playing: playing})
			}
		}
		want := 0.1
		for _, e := range events {
			if e.volume != 0 {
				want = e.volume
			}
		}
		var mu, one sync.Mutex
		next, injected := 0, 0
		overlap := rng.Intn(3) == 0
		step := func() bool {
			mu.Lock()
			k := next
			if k < len(events) {
				next++
				if !overlap {
					one.Lock()
				}
			}
			mu.Unlock()
			if k >= len(events) {
				return false
			}
			if !overlap {
				defer one.Unlock()
			}
			switch e := events[k]; {
			case e.volume != 0:
				volume.Exec([]string{fmt.Sprint(e.volume)})
			case e.song:
				song(e.at, fmt.Sprintf("song%d.mp3", k), int64(k)*1000)
			default:
				toggle(e.playing, e.at)
			}
			return true
		}
		irng := r.Rand(i + 1<<20)
		density := 1 + irng.Intn(4)
		inject := func() {
			mu.Lock()
			do := irng.Intn(density) == 0
			mu.Unlock()
			if do && step() {
				mu.Lock()
				injected++
				mu.Unlock()
			}
		}
		for k := rng.Intn(3); k > 0; k-- {
			step()
		}
		comm.SetNewClientHandler(func(c comm.Channel, s comm.MessageSender) {
			inject()
			handler(c, c12Answer{s, inject})
			inject()
		})
		type client struct {
			*verifwire.Client
			mu  sync.Mutex
			got []proto.Message
		}
		var clients []*client
		join := func() bool {
			c := &client{}
			f, err := verifwire.Follow(addr, func(m proto.Message) {
				c.mu.Lock()
				defer c.mu.Unlock()
				c.got = append(c.got, m)
			})
			if err != nil {
				r.Inconclusive(err.Error())
				return false
			}
			c.Client = f
			clients = append(clients, c)
			f.Send(&comm.SubscribeChannelRequest{Channel: comm.Channel_META})
			return true
		}
		for j := 1 + rng.Intn(3); j > 0; j-- {
			if !join() {
				return
			}
			if rng.Intn(2) == 0 {
				time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
			}
		}
		verifkit.Eventually(20*time.Second, func() bool { // they are answered
			for _, c := range clients {
				c.mu.Lock()
				n := len(c.got)
				c.mu.Unlock()
				if n == 0 {
					return false
				}
			}
			return true
		})
		for step() {
		}
		if !join() {
			return
		}
		what := fmt.Sprintf("events %v of a server (overlapping: %v)", events, overlap)
		for n, c := range clients {
			kind, detail := "", ""
			good := verifkit.Eventually(15*time.Second, func() bool {
				c.mu.Lock()
				got := append([]proto.Message{}, c.got...)
				c.mu.Unlock()
				if kind, detail = c12Judge(events, got); kind != "" {
					return false
				}
				if overlap {
					return true
				}
				last := -1.
				for _, m := range got {
					if v, ok := m.(*comm.SetVolumeRequest); ok {
						last = v.Volume
					}
				}
				if last != want {
					kind, detail = "volume-missed", fmt.Sprintf("a client got the volume %v last instead of %v", last, want)
					return false
				}
				return true
			})
			if !good {
				r.Violation(kind, fmt.Sprintf("%s, client %d: %s", what, n, detail), nil)
				break
			}
		}
		for _, c := range clients {
			c.Close()
		}
		r.Count("changes_while_answering", int64(injected))
		r.Eval(what, injected > 0)
	}
	comm.SetNewClientHandler(nil)
}
