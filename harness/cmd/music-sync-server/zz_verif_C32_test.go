package main

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifrig"
	"github.com/LogicalOverflow/music-sync/verifwire"
	"github.com/golang/protobuf/proto"
)

// c32Limit limits the files the process may have open
func c32Limit(pid, files int) error {
	l := syscall.Rlimit{Cur: uint64(files), Max: uint64(files)}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), syscall.RLIMIT_NOFILE, uintptr(unsafe.Pointer(&l)), 0, 0, 0); e != 0 {
		return e
	}
	return nil
}

// more clients and admins than the server has files for, on the real server
func TestVerif_C32_crowd(t *testing.T) {
	k := verifkit.Start(t, "C32", "crowd")
	defer k.Finish()
	songs := map[string]int{"a.mp3": 1000, "b.mp3": 1000}
	// the reference: the same server without a crowd
	ref := vStart(k, songs, nil, nil, fastFlags...)
	defer ref.end()
	rf, err := ref.follow(nil, comm.Channel_AUDIO)
	if err != nil {
		k.Inconclusive(err.Error())
		return
	}
	other := func() bool { // served: 5 chunks
		from := rf.newest()
		for end := time.Now().Add(vPatience); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
			if rf.newest() >= from+5 {
				return true
			}
		}
		return false
	}
	n := k.N(4, 60)
	for i := 0; i < n && !k.Failed(); i++ {
		c32Round(k, i, songs, other)
	}
	k.Require("crowds", int64(2*n))
	k.Require("crowds using up all files", int64(n/2))
	k.Require("clients served after a crowd", int64(2*n))
	k.Require("admins served after a crowd", int64(2*n))
	k.Require("chunks received during crowds", int64(50*n))
}

func c32Round(k *verifkit.Run, round int, songs map[string]int, other func() bool) {
	rng := k.Rand(round)
	w := vStart(k, songs, nil, nil, fastFlags...)
	defer w.end()
	limit := 40 + rng.Intn(60)
	if round%4 == 3 {
		limit = 500 + rng.Intn(100)
	}
	var synced int64
	a, err := w.follow(func(m proto.Message) {
		if _, ok := m.(*comm.TimeSyncResponse); ok {
			atomic.AddInt64(&synced, 1)
		}
	}, comm.Channel_AUDIO, comm.Channel_META)
	admin := w.admin(80, 24)
	if err != nil || admin == nil {
		k.Inconclusive(fmt.Sprintf("no client: %v", err))
		return
	}
	defer a.c.Close()
	defer admin.Close()
	admin.Cmd("queue a.mp3", vPatience)
	admin.Cmd("resume", vPatience)
	if ok, _ := vServed(func() bool { return a.newest() > 20 }, other, time.Minute, 200); !ok {
		k.Inconclusive("no stream from the start")
		return
	}
	if err := c32Limit(w.srv.Pid(), limit); err != nil {
		k.Inconclusive(fmt.Sprintf("the files of the server can not be limited: %v", err))
		return
	}
	var crowds []string
	times := 200
	expect := func(kind, not string, done func() bool) bool {
		what := fmt.Sprintf("a server with %d files and crowds of %s", limit, strings.Join(crowds, ", "))
		served, ok := vServed(done, other, 20*time.Second, times)
		if w.broken(what, crowds) {
			return false
		}
		if served {
			return true
		}
		if !ok {
			k.Inconclusive("the reference server is not served either")
			return false
		}
		k.Violation(kind, fmt.Sprintf("%s: %s, while a client of another server was served %d times", what, not, times), crowds)
		return false
	}
	inside := func(when string) bool { // those who were there before are served
		from, before := a.newest(), atomic.LoadInt64(&synced)
		if err := a.c.Send(&comm.TimeSyncRequest{ClientSend: 1}); err != nil {
			k.Violation("inside", fmt.Sprintf("the connection of a client which was there before is closed %s a crowd (%v): %v", when, crowds, err), crowds)
			return false
		}
		if !expect("inside", "a client which was there before does not receive the stream "+when+" the crowd", func() bool { return a.newest() > from+25 }) ||
			!expect("inside", "time sync requests of a client which was there before are not answered "+when+" the crowd", func() bool { return atomic.LoadInt64(&synced) > before }) {
			return false
		}
		got, c := false, make(chan string, 1)
		var answer string
		go func() {
			s, _ := admin.Cmd("playlist", 10*vPatience)
			c <- s
		}()
		if !expect("inside", "an admin who was there before is not answered "+when+" the crowd", func() bool {
			select {
			case answer = <-c:
				got = true
			default:
			}
			return got
		}) {
			return false
		}
		if !strings.Contains(answer, "a.mp3") {
			k.Violation("inside", fmt.Sprintf("an admin who was there before is answered %q %s the crowd", verifkit.Short(answer, 200), when), crowds)
			return false
		}
		return true
	}
	for c := 0; c < 3; c++ {
		conns := make([]net.Conn, 0, 200)
		count := limit/2 + rng.Intn(100)
		mix := rng.Intn(4) // all clients, mostly clients, half, all admins
		if c == 0 {
			count, mix = 2*limit+rng.Intn(100), []int{0, 1, 2}[rng.Intn(3)]
		}
		crowds = append(crowds, fmt.Sprintf("%d (%s)", count, []string{"clients", "mostly clients", "clients and admins", "admins"}[mix]))
		from := a.newest()
		for i := 0; i < count; i++ {
			addr, ssh := w.srv.Addr, []bool{false, rng.Intn(5) == 0, rng.Intn(2) == 0, true}[mix]
			if ssh {
				addr = w.srv.SSHAddr
			}
			conn, err := net.DialTimeout("tcp", addr, 10*time.Second)
			if err != nil {
				continue // refusing is fine
			}
			conns = append(conns, conn)
			c32Use(rng, conn, ssh)
		}
		k.Count("crowds", 1)
		k.Count("connections", int64(len(conns)))
		open := len(w.srv.Files())
		ok := inside("during")
		if ok && c == 0 && round%4 == 0 {
			time.Sleep(time.Minute) // a crowd which stays
			ok = inside("during")
		}
		if again := len(w.srv.Files()); open < again {
			open = again
		}
		k.Max("most files open", int64(open))
		if open >= limit-3 {
			k.Count("crowds using up all files", 1)
		}
		k.Count("chunks received during crowds", a.newest()-from)
		order := rng.Perm(len(conns))
		for _, i := range order {
			conns[i].Close()
		}
		if !ok || !inside("after") {
			return
		}
		// others are served again; a try takes several seconds
		times = 12
		if !expect("clients", "after the crowd left, clients are not served any more", func() bool {
			var vol, song, chunks int64
			l, err := w.follow(func(m proto.Message) {
				switch m.(type) {
				case *comm.SetVolumeRequest:
					atomic.AddInt64(&vol, 1)
				case *comm.NewSongInfo:
					atomic.AddInt64(&song, 1)
				case *comm.QueueChunkRequest:
					atomic.AddInt64(&chunks, 1)
				}
			}, comm.Channel_AUDIO, comm.Channel_META)
			if err != nil {
				return false
			}
			defer l.c.Close()
			for end := time.Now().Add(3 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
				if atomic.LoadInt64(&vol) > 0 && atomic.LoadInt64(&song) > 0 && atomic.LoadInt64(&chunks) > 10 {
					return true
				}
			}
			return false
		}) {
			return
		}
		k.Count("clients served after a crowd", 1)
		if !expect("admins", "after the crowd left, admins can not log in any more", func() bool {
			s, err := verifrig.Open(w.srv.SSHAddr, verifrig.Admin(), 80, 24)
			if err != nil {
				return false
			}
			defer s.Close()
			answer, ok := s.Cmd("playlist", 10*time.Second)
			return ok && strings.Contains(answer, "a.mp3")
		}) {
			return
		}
		k.Count("admins served after a crowd", 1)
		times = 200
		k.Eval(fmt.Sprint(limit, crowds), true)
	}
	// the stream never had a gap for who was there
	last := a.newest()
	var gone []int64
	if !expect("stream", "chunks are missing from the stream", func() bool { gone = a.missing(last - 10); return len(gone) == 0 }) {
		return
	}
}

// c32Use does something with a connection
func c32Use(rng *rand.Rand, c net.Conn, ssh bool) {
	go func() { // reads what is sent
		b := make([]byte, 4096)
		for {
			if _, err := c.Read(b); err != nil {
				return
			}
		}
	}()
	c.SetWriteDeadline(time.Now().Add(time.Second))
	switch rng.Intn(4) {
	case 0:
	case 1:
		c.Write([]byte("nonsense\r\n"))
	case 2:
		if !ssh {
			c.Write(verifwire.Encode(&comm.SubscribeChannelRequest{Channel: comm.Channel(rng.Intn(2))}))
		} else {
			c.Write([]byte("SSH-2.0-Go\r\n"))
		}
	case 3:
		if !ssh {
			c.Write(verifwire.Encode(&comm.TimeSyncRequest{ClientSend: 5}))
		}
	}
}
