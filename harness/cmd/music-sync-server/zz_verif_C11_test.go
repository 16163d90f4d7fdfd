package main

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifwire"
	"github.com/golang/protobuf/proto"
)

// c11Stalled is a client which does not read. asks: it asks for the time all along.
func c11Stalled(addr string, rng *rand.Rand, channels []comm.Channel, kind string) (net.Conn, error) {
	d := net.Dialer{Timeout: 30 * time.Second, Control: func(network, address string, c syscall.RawConn) error {
		return c.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 2048) })
	}}
	c, err := d.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	for _, ch := range channels {
		c.Write(verifwire.Encode(&comm.SubscribeChannelRequest{Channel: ch}))
	}
	switch kind {
	case "half": // a message is begun and not finished
		b := verifwire.Encode(&comm.TimeSyncRequest{ClientSend: 1})
		c.Write(b[:1+rng.Intn(len(b)-1)])
	case "asking":
		go func() {
			for i := int64(0); ; i++ {
				if _, err := c.Write(verifwire.Encode(&comm.TimeSyncRequest{ClientSend: i})); err != nil {
					return
				}
				if i%100 == 99 {
					time.Sleep(5 * time.Millisecond)
				}
			}
		}()
	case "subscribing": // again and again: each is answered with the state
		go func() {
			var burst []byte
			for i := 0; i < 40; i++ {
				burst = append(burst, verifwire.Encode(&comm.SubscribeChannelRequest{Channel: comm.Channel_META})...)
			}
			for {
				if _, err := c.Write(burst); err != nil {
					return
				}
				time.Sleep(10 * time.Millisecond)
			}
		}()
	case "pinging":
		go func() {
			for {
				if _, err := c.Write(verifwire.Encode(&comm.PingMessage{})); err != nil {
					return
				}
				time.Sleep(time.Millisecond)
			}
		}()
	}
	return c, nil
}

// c11Unread returns how many bytes the server's side holds for the client at addr, which the network did not take.
func c11Unread(addr string) (n int64) {
	_, port, _ := net.SplitHostPort(addr)
	p, _ := strconv.Atoi(port)
	b, _ := ioutil.ReadFile("/proc/net/tcp")
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 5 || !strings.HasSuffix(f[2], fmt.Sprintf(":%04X", p)) {
			continue
		}
		if q, err := strconv.ParseInt(strings.Split(f[4], ":")[0], 16, 64); err == nil {
			n += q
		}
	}
	return
}

func TestVerif_C11_stalled(t *testing.T) {
	k := verifkit.Start(t, "C11", "stalled")
	defer k.Finish()
	flags := append(append([]string{}, fastFlags...), "--sample-rate", "441000", "--stream-chunk-size", "8820", "--song-break-size", "44100")
	songs := map[string]int{"a.mp3": 1000, "b.mp3": 1000, "c.mp3": 1000}
	// the reference: the same server with clients all of which read
	ref := vStart(k, songs, nil, nil, flags...)
	defer ref.end()
	rf, err := ref.follow(nil, comm.Channel_AUDIO)
	if err != nil {
		k.Inconclusive(err.Error())
		return
	}
	other := func() bool { // served: 5 chunks
		from := rf.newest()
		for end := time.Now().Add(vPatience); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
			if rf.newest() >= from+5 {
				return true
			}
		}
		return false
	}
	n := k.N(5, 60)
	for i := 0; i < n && !k.Failed(); i++ {
		c11Round(k, i, songs, flags, other)
	}
	k.Require("chunks received by others", int64(n*200))
	k.Require("bytes of the stream since the stall", int64(n)<<24)
	k.Require("time syncs answered", int64(n*10))
	k.Require("stalled clients with unread bytes held by the server's kernel", int64(n))
	k.Require("late clients served", int64(n*2))
	k.Require("admin commands answered", int64(n*10))
}

func c11Round(k *verifkit.Run, i int, songs map[string]int, flags []string, other func() bool) {
	rng := k.Rand(i)
	w := vStart(k, songs, nil, nil, flags...)
	defer w.end()
	kinds := []string{"silent", "subscribing", "half", "asking", "pinging"}
	sets := [][]comm.Channel{{comm.Channel_AUDIO}, {comm.Channel_META}, {comm.Channel_AUDIO, comm.Channel_META}, {}}
	type stall struct {
		Kind     string
		Channels []comm.Channel
	}
	stalls := []stall{{kinds[i%5], sets[0]}}
	for j := rng.Intn(4); j > 0; j-- {
		stalls = append(stalls, stall{kinds[rng.Intn(5)], sets[rng.Intn(4)]})
	}
	blockVolume := i%2 == 1
	replay := map[string]interface{}{"round": i, "stalled": stalls, "volume changed meanwhile": blockVolume}
	what := fmt.Sprintf("with %d stalled clients (%v)", len(stalls), stalls)
	var bytes, volume, songsSeen, pausesSeen, synced int64
	hook := func(m proto.Message) {
		switch m := m.(type) {
		case *comm.QueueChunkRequest:
			for _, s := range m.SampleLow {
				if s == s {
					atomic.AddInt64(&bytes, 16)
				}
			}
		case *comm.SetVolumeRequest:
			atomic.AddInt64(&volume, 1)
		case *comm.NewSongInfo:
			atomic.AddInt64(&songsSeen, 1)
		case *comm.PauseInfo:
			atomic.AddInt64(&pausesSeen, 1)
		case *comm.TimeSyncResponse:
			atomic.AddInt64(&synced, 1)
		}
	}
	a, err := w.follow(hook, comm.Channel_AUDIO, comm.Channel_META)
	admin := w.admin(80, 24)
	if err != nil || admin == nil {
		k.Inconclusive(fmt.Sprintf("no client: %v", err))
		return
	}
	defer a.c.Close()
	defer admin.Close()
	admin.Cmd("queue a.mp3", vPatience)
	admin.Cmd("resume", vPatience) // a server starts paused
	if ok, _ := vServed(func() bool { return a.newest() > 20 }, other, time.Minute, 200); !ok {
		k.Inconclusive("no stream from the start")
		return
	}
	// a pause in the song is part of the state sent to info clients
	for j, line := range []string{"pause", "resume"} {
		admin.Cmd(line, vPatience)
		before := time.Now()
		for atomic.LoadInt64(&pausesSeen) <= int64(j) && time.Since(before) < vPatience {
			time.Sleep(5 * time.Millisecond)
		}
	}
	var conns []net.Conn
	for _, s := range stalls {
		c, err := c11Stalled(w.srv.Addr, rng, s.Channels, s.Kind)
		if err != nil {
			k.Inconclusive(fmt.Sprintf("no client: %v", err))
			return
		}
		defer c.Close()
		conns = append(conns, c)
	}
	// expect waits for done while the reference is served
	expect := func(kind, not string, done func() bool) bool {
		served, ok := vServed(done, other, 10*time.Second, 200)
		if w.broken(what, replay) {
			return false
		}
		if served {
			return true
		}
		if !ok {
			k.Inconclusive("the reference server is not served either")
			return false
		}
		k.Violation(kind, what+" "+not+", while a client of another server received 1000 chunks", replay)
		return false
	}
	// everything the network takes on their behalf is used up: 8820 samples of 16 bytes, 50 times a second, hardly compressed
	from := a.newest()
	if !expect("stream", "another client does not receive the stream any more", func() bool { return a.newest() > from+100 }) {
		return
	}
	stallAt := atomic.LoadInt64(&bytes)
	// admin commands on the playlist
	cmd := func(line, want string) bool {
		type answer struct {
			text string
			ok   bool
		}
		c := make(chan answer, 1)
		go func() {
			text, ok := admin.Cmd(line, 10*vPatience)
			c <- answer{text, ok}
		}()
		var got *answer
		done := func() bool {
			select {
			case r := <-c:
				got = &r
			default:
			}
			return got != nil
		}
		if !expect("admin", "the admin command '"+line+"' is not answered", done) {
			return false
		}
		k.Count("admin commands answered", 1)
		if !got.ok || !strings.Contains(got.text, want) {
			k.Violation("admin", fmt.Sprintf("%s the admin command '%s' is answered by %q", what, line, verifkit.Short(got.text, 300)), replay)
			return false
		}
		return true
	}
	sync := func() bool {
		for j := 0; j < 5; j++ {
			before := atomic.LoadInt64(&synced)
			if a.c.Send(&comm.TimeSyncRequest{ClientSend: int64(j)}) != nil || !expect("timesync", "time sync requests of another client are not answered", func() bool { return atomic.LoadInt64(&synced) > before }) {
				return false
			}
			k.Count("time syncs answered", 1)
		}
		return true
	}
	late := func() bool {
		var vol, song, chunks int64
		var l *vFollower
		c := make(chan error, 1)
		go func() {
			var err error
			l, err = w.follow(func(m proto.Message) {
				switch m.(type) {
				case *comm.SetVolumeRequest:
					atomic.AddInt64(&vol, 1)
				case *comm.NewSongInfo:
					atomic.AddInt64(&song, 1)
				case *comm.QueueChunkRequest:
					atomic.AddInt64(&chunks, 1)
				}
			}, comm.Channel_AUDIO, comm.Channel_META)
			c <- err
		}()
		var err error
		back := false
		if !expect("connect", "another client can not connect", func() bool {
			select {
			case err = <-c:
				back = true
			default:
			}
			return back
		}) {
			return false
		}
		if err != nil {
			k.Violation("connect", fmt.Sprintf("%s another client can not connect: %v", what, err), replay)
			return false
		}
		defer l.c.Close()
		if !expect("subscribe", "a client connecting and subscribing is not sent the volume, the song and chunks", func() bool {
			return atomic.LoadInt64(&vol) > 0 && atomic.LoadInt64(&song) > 0 && atomic.LoadInt64(&chunks) > 10
		}) {
			return false
		}
		k.Count("late clients served", 1)
		return true
	}
	if blockVolume {
		// this command may wait for the stalled clients, but nothing else may
		second := w.admin(80, 24)
		if second == nil {
			k.Violation("admin", what+" no admin session can be opened", replay)
			return
		}
		defer second.Close()
		before := atomic.LoadInt64(&volume)
		second.Type([]byte("volume 0.4\r"))
		if !expect("volume", "a changed volume is not sent to another client", func() bool { return atomic.LoadInt64(&volume) > before }) {
			return
		}
		k.Count("volumes changed", 1)
	}
	if !(sync() && late() && cmd("playlist", "a.mp3") && cmd("queue b.mp3 0", "") && cmd("queue b.mp3 0", "") && cmd("queue c.mp3", "") && cmd("remove 0", "")) {
		return
	}
	before, pBefore := atomic.LoadInt64(&songsSeen), atomic.LoadInt64(&pausesSeen)
	if !(cmd("jump 0", "") && expect("song", "another client is not told about the next song", func() bool { return atomic.LoadInt64(&songsSeen) > before })) {
		return
	}
	k.Count("songs announced", 1)
	if !(cmd("pause", "playback paused") && expect("pause", "another client is not told about a pause", func() bool { return atomic.LoadInt64(&pausesSeen) > pBefore })) {
		return
	}
	if !(cmd("resume", "playback resumed") && expect("pause", "another client is not told about the end of a pause", func() bool { return atomic.LoadInt64(&pausesSeen) > pBefore+1 })) {
		return
	}
	k.Count("pauses announced", 2)
	if !(late() && sync() && cmd("ls", "a.mp3") && cmd("help", "queue") && cmd("playlist", "")) {
		return
	}
	from = a.newest()
	if !expect("stream", "another client does not receive the stream any more", func() bool { return a.newest() > from+100 && len(a.missing(from)) == 0 }) {
		return
	}
	k.Count("chunks received by others", a.newest()-a.first)
	k.Count("bytes of the stream since the stall", atomic.LoadInt64(&bytes)-stallAt)
	for _, c := range conns {
		if q := c11Unread(c.LocalAddr().String()); q > 0 {
			k.Count("stalled clients with unread bytes held by the server's kernel", 1)
			k.Max("most such bytes", q)
		}
	}
	k.Count("stalled clients", int64(len(stalls)))
	k.Eval(fmt.Sprintf("%v %v", stalls, blockVolume), true)
	k.Sample(replay)
}
