package main

import (
	"encoding/binary"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifrig"
	"github.com/LogicalOverflow/music-sync/verifwire"
	"github.com/golang/protobuf/proto"
)

func vc09Int(rng *rand.Rand) int64 {
	switch rng.Intn(7) {
	case 0:
		return 0
	case 1:
		return -1
	case 2:
		return math.MaxInt64 - rng.Int63n(3)
	case 3:
		return math.MinInt64 + rng.Int63n(3)
	case 4:
		return c02Clock() + rng.Int63n(4e9) - 2e9
	case 5:
		return rng.Int63n(1 << uint(1+rng.Intn(62)))
	}
	return int64(rng.Uint64())
}

func vc09Float(rng *rand.Rand) float64 {
	return []float64{0, -1, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324, rng.NormFloat64()}[rng.Intn(9)]
}

func vc09Text(rng *rand.Rand) string {
	n := []int{0, 1, 5, 80, 5000}[rng.Intn(5)]
	r := make([]rune, n)
	for i := range r {
		r[i] = []rune{0, 7, 8, 9, 10, 27, 127, 155, 'a', ' ', 'é', '日', 0x301, 0x200d, 0x1f3b5, 0xfeff, 0xfffd, 0x10ffff, 0x202e}[rng.Intn(19)]
	}
	return string(r)
}

// vc09Message makes a message which is well formed, whatever it says.
func vc09Message(rng *rand.Rand) proto.Message {
	switch rng.Intn(10) {
	case 0:
		return &comm.TimeSyncRequest{ClientSend: vc09Int(rng)}
	case 1:
		return &comm.TimeSyncResponse{ClientSendTime: vc09Int(rng), ServerRecvTime: vc09Int(rng), ServerSendTime: vc09Int(rng)}
	case 2:
		floats := func() []float64 {
			f := make([]float64, []int{0, 1, 2, 100, 5000}[rng.Intn(5)])
			for i := range f {
				f[i] = vc09Float(rng)
			}
			return f
		}
		return &comm.QueueChunkRequest{StartTime: vc09Int(rng), ChunkId: vc09Int(rng), FirstSampleIndex: uint64(vc09Int(rng)), SampleLow: floats(), SampleHigh: floats()}
	case 3:
		return &comm.PingMessage{}
	case 4:
		return &comm.PongMessage{}
	case 5:
		return &comm.SetVolumeRequest{Volume: vc09Float(rng)}
	case 6:
		return &comm.SubscribeChannelRequest{Channel: comm.Channel([]int32{0, 1, 2, 3, 7, -1, -2, math.MaxInt32, math.MinInt32, int32(rng.Uint32())}[rng.Intn(10)])}
	case 7:
		m := &comm.NewSongInfo{FirstSampleOfSongIndex: uint64(vc09Int(rng)), SongFileName: vc09Text(rng), SongLength: vc09Int(rng)}
		if rng.Intn(3) > 0 {
			m.Metadata = &comm.NewSongInfo_SongMetadata{Title: vc09Text(rng), Artist: vc09Text(rng), Album: vc09Text(rng)}
		}
		for l := rng.Intn(8); l > 0; l-- {
			line := &comm.NewSongInfo_SongLyricsLine{}
			for a := rng.Intn(4); a > 0; a-- {
				line.Atoms = append(line.Atoms, &comm.NewSongInfo_SongLyricsAtom{Timestamp: vc09Int(rng), Caption: vc09Text(rng)})
			}
			m.Lyrics = append(m.Lyrics, line)
		}
		return m
	case 8:
		return &comm.ChunkInfo{StartTime: vc09Int(rng), FirstSampleIndex: uint64(vc09Int(rng)), ChunkSize: uint64(vc09Int(rng))}
	}
	return &comm.PauseInfo{Playing: rng.Intn(2) == 0, ToggleSampleIndex: uint64(vc09Int(rng))}
}

// vc09Bytes makes bytes which are no messages.
func vc09Bytes(rng *rand.Rand) []byte {
	junk := make([]byte, rng.Intn(300))
	rng.Read(junk)
	b := verifwire.Encode(vc09Message(rng))
	switch rng.Intn(9) {
	case 0:
		return junk
	case 1:
		return b[:rng.Intn(len(b))]
	case 2:
		b[8+rng.Intn(len(b)-8)] ^= 1 << uint(rng.Intn(8))
	case 3:
		binary.LittleEndian.PutUint64(b, []uint64{math.MaxUint64, 1 << 63, 1<<63 - 1, 1 << 40, 1 << 31, 0, uint64(len(b) - 9), uint64(len(b) + 3)}[rng.Intn(8)])
	case 4:
		return verifwire.Envelope([]string{"", "comm.Nothing", "comm.Envelope", "comm.Channel", "google.protobuf.FileDescriptorProto", "comm.PingMessage\x00"}[rng.Intn(6)], junk)
	case 5:
		return verifwire.Envelope("comm.NewSongInfo", junk)
	case 6:
		h := make([]byte, 8)
		binary.LittleEndian.PutUint64(h, uint64(len(junk)))
		return append(h, junk...)
	case 7:
		return append(b, junk...)
	case 8:
		return append(junk, b...)
	}
	return b
}

// the server program under connections which say anything, well formed or not, keeps serving others
func TestVerif_C09_programs(t *testing.T) {
	k := verifkit.Start(t, "C09", "programs")
	defer k.Finish()
	for round := 0; round < k.N(2, 24) && !k.Failed(); round++ {
		vc09Server(k, k.Rand(round))
	}
	for round := 0; round < k.N(10, 120) && !k.Failed(); round++ {
		vc09Client(k, k.Rand(1000+round), round%2 == 0)
	}
	k.Require("connections", 100)
	k.Require("players", 4)
	k.Require("info clients", 4)
}

func vc09Server(k *verifkit.Run, rng *rand.Rand) {
	w := vStart(k, map[string]int{"a.mp3": 5, "b.mp3": 3}, nil, nil, fastFlags...)
	defer w.end()
	chunks := int64(0)
	f, err := w.follow(func(m proto.Message) {
		if _, ok := m.(*comm.QueueChunkRequest); ok {
			atomic.AddInt64(&chunks, 1)
		}
	}, comm.Channel_AUDIO)
	s := w.admin(200, 50)
	if err != nil || s == nil {
		if !w.broken("before anything", nil) {
			k.Inconclusive("no client")
		}
		return
	}
	defer f.c.Close()
	defer s.Close()
	s.Cmd("queue *.mp3", vPatience)
	s.Cmd("resume", vPatience)
	var said []string
	for i := 0; i < 120; i++ {
		conn, err := net.Dial("tcp", w.srv.Addr)
		if err != nil {
			if !w.broken("connections which said anything", said) {
				k.Violation("refused", "a connection is refused after others which said anything: "+err.Error(), said)
			}
			return
		}
		said = nil
		conn.SetWriteDeadline(time.Now().Add(20 * time.Second))
		for n := rng.Intn(6); n >= 0; n-- {
			m := vc09Message(rng)
			said = append(said, verifkit.Short(fmt.Sprintf("%T %v", m, m), 150))
			conn.Write(verifwire.Encode(m))
			k.Count("odd messages", 1)
		}
		if rng.Intn(2) == 0 {
			b := vc09Bytes(rng)
			said = append(said, verifkit.Short(fmt.Sprintf("%x", b), 150))
			conn.Write(b)
			k.Count("hostile bytes", 1)
		}
		if rng.Intn(3) == 0 {
			// what is sent must have been handled before the end of the connection can get in between
			conn.SetReadDeadline(time.Now().Add(30 * time.Millisecond))
			ioutil.ReadAll(conn)
		}
		if rng.Intn(4) == 0 {
			conn.(*net.TCPConn).SetLinger(0)
		}
		conn.Close()
		k.Count("connections", 1)
		if i%10 == 9 {
			if w.broken("connections which said anything, the last one", said) {
				return
			}
			before := atomic.LoadInt64(&chunks)
			if !s.Ping(vPatience) || !verifkit.Eventually(vPatience, func() bool { return before+3 <= atomic.LoadInt64(&chunks) }) {
				if !w.broken("connections which said anything, the last one", said) {
					k.Inconclusive("the others are not served")
				}
				return
			}
			k.Count("others served", 1)
		}
	}
	time.Sleep(50 * time.Millisecond)
	if w.broken("connections which said anything", said) {
		return
	}
	k.Eval(fmt.Sprint(rng.Int63()), true)
}

// players and info clients of a server which says anything
func vc09Client(k *verifkit.Run, rng *rand.Rand, player bool) {
	dir, err := ioutil.TempDir(os.Getenv("VERIF_WORK"), "c09")
	if err != nil {
		k.T.Fatal(err)
	}
	defer os.RemoveAll(dir)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		k.Inconclusive(err.Error())
		return
	}
	defer l.Close()
	_, port, _ := net.SplitHostPort(l.Addr().String())
	who, bin, tw, th := "a player", "VERIF_BIN_PLAYER", 0, 0
	if !player {
		who, bin, tw, th = "an info client", "VERIF_BIN_INFOER", 1+rng.Intn(150), 1+rng.Intn(50)
	}
	p, err := verifrig.Spawn(os.Getenv(bin), dir, []string{"VERIF_OTO_CTX=" + filepath.Join(dir, "ctx")}, tw, th, "--port", port)
	if err != nil {
		k.Inconclusive(err.Error())
		return
	}
	defer p.Kill()
	var said []string
	died := func() bool {
		if p.Alive() {
			return false
		}
		time.Sleep(100 * time.Millisecond)
		k.Violation("client-down", fmt.Sprintf("%s whose server said %q ends: %s", who, said, p.Crash()), said)
		return true
	}
	l.(*net.TCPListener).SetDeadline(time.Now().Add(vPatience))
	conn, err := l.Accept()
	if err != nil {
		if !died() {
			k.Inconclusive("not connected")
		}
		return
	}
	pongs := int64(0)
	var c *verifwire.Client
	made := make(chan struct{})
	c = verifwire.NewClient(conn, func(m proto.Message) {
		<-made
		switch m := m.(type) {
		case *comm.TimeSyncRequest:
			now := c02Clock()
			c.Send(&comm.TimeSyncResponse{ClientSendTime: m.ClientSend, ServerRecvTime: now, ServerSendTime: now})
		case *comm.PongMessage:
			atomic.AddInt64(&pongs, 1)
		}
	})
	close(made)
	defer c.Close()
	for i := 0; i < 60; i++ {
		m := vc09Message(rng)
		if _, ok := m.(*comm.PingMessage); ok {
			continue
		}
		said = append(said, verifkit.Short(fmt.Sprintf("%T %v", m, m), 150))
		if 3 < len(said) {
			said = said[1:]
		}
		c.Send(m)
		k.Count("odd messages to clients", 1)
		if !player && rng.Intn(10) == 0 {
			p.Resize(1+rng.Intn(150), 1+rng.Intn(50))
		}
		if rng.Intn(4) == 0 {
			time.Sleep(time.Duration(rng.Intn(40)) * time.Millisecond)
		}
		if i%6 == 5 {
			before := atomic.LoadInt64(&pongs)
			c.Send(&comm.PingMessage{})
			if !verifkit.Eventually(vPatience, func() bool { return before < atomic.LoadInt64(&pongs) || !p.Alive() }) {
				k.Inconclusive("no answer")
				return
			}
			if died() {
				return
			}
			k.Count("answers", 1)
		}
	}
	time.Sleep(150 * time.Millisecond) // the screen is drawn in between
	if died() {
		return
	}
	b := vc09Bytes(rng)
	said = []string{fmt.Sprintf("%x", b)}
	conn.Write(b)
	time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
	conn.Close()
	if !p.Exited(vPatience) {
		k.Inconclusive("not ended")
		return
	}
	if crash := p.Crash(); strings.Contains(p.Output(), "goroutine ") || p.ExitCode() != 1 {
		k.Violation("client-crash", fmt.Sprintf("%s whose server sent %x and closed the connection ends with code %d: %s", who, b, p.ExitCode(), crash), said)
		return
	}
	if player {
		k.Count("players", 1)
	} else {
		k.Count("info clients", 1)
	}
	k.Eval(fmt.Sprint(rng.Int63()), true)
}
