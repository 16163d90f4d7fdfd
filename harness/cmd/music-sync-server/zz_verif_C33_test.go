package main

import (
	"fmt"
	"io/ioutil"
	mrand "math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifrig"
	"github.com/LogicalOverflow/music-sync/verifwire"
	"github.com/golang/protobuf/proto"
)

// how players and info clients end
func TestVerif_C33_ends(t *testing.T) {
	k := verifkit.Start(t, "C33", "ends")
	defer k.Finish()
	n := k.N(40, 600)
	for i := 0; i < n && !k.Failed(); i++ {
		c33Round(k, k.Rand(i), i)
	}
	k.Require("players", int64(n/4))
	k.Require("info clients", int64(n/4))
	k.Require("connections lost", int64(n/4))
	k.Require("terminals which were in use", int64(n/6))
}

func c33Round(k *verifkit.Run, rng *mrand.Rand, round int) {
	dir, err := ioutil.TempDir(os.Getenv("VERIF_WORK"), "end")
	if err != nil {
		k.T.Fatal(err)
	}
	defer os.RemoveAll(dir)
	player := round%2 == 0
	ways := []string{"the server closes the connection", "the server resets the connection", "the server sends nonsense", "the server closes the connection at once",
		"nobody listens", "the user interrupts it", "the user interrupts it at once", "the server is slow to answer and closes the connection"}
	way := ways[round/2%len(ways)]
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		k.Inconclusive(err.Error())
		return
	}
	defer l.Close()
	_, port, _ := net.SplitHostPort(l.Addr().String())
	if way == "nobody listens" {
		l.Close()
	}
	bin, tw, th := "VERIF_BIN_PLAYER", 0, 0
	if !player {
		bin, tw, th = "VERIF_BIN_INFOER", 40+rng.Intn(100), 10+rng.Intn(40)
	}
	p, err := verifrig.Spawn(os.Getenv(bin), dir, []string{"VERIF_OTO_CTX=" + filepath.Join(dir, "ctx")}, tw, th, "--address", "127.0.0.1", "--port", port)
	if err != nil {
		k.Inconclusive(err.Error())
		return
	}
	defer p.Kill()
	who := "an info client"
	if player {
		who = "a player"
	}
	violation := func(kind, f string, a ...interface{}) {
		k.Violation(kind, who+", when "+way+", "+fmt.Sprintf(f, a...), map[string]interface{}{"round": round, "output": verifkit.Short(p.Output(), 2000)})
	}
	lost := false
	if way != "nobody listens" {
		accepted := make(chan net.Conn, 1)
		go func() {
			if c, err := l.Accept(); err == nil {
				accepted <- c
			}
		}()
		var conn net.Conn
		select {
		case conn = <-accepted:
		case <-time.After(vPatience):
			k.Inconclusive("the program does not connect")
			return
		}
		defer conn.Close()
		var syncs, subscriptions int64
		if way == "the server closes the connection at once" {
			conn.Close()
			lost = true
		} else if way == "the user interrupts it at once" {
			time.Sleep(time.Duration(rng.Intn(60)) * time.Millisecond)
		} else {
			var c *verifwire.Client
			made := make(chan struct{})
			c = verifwire.NewClient(conn, func(m proto.Message) {
				<-made
				switch m := m.(type) {
				case *comm.TimeSyncRequest:
					atomic.AddInt64(&syncs, 1)
					if way == "the server is slow to answer and closes the connection" {
						return
					}
					now := c02Clock()
					c.Send(&comm.TimeSyncResponse{ClientSendTime: m.ClientSend, ServerRecvTime: now, ServerSendTime: now})
				case *comm.SubscribeChannelRequest:
					atomic.AddInt64(&subscriptions, 1)
				}
			})
			close(made)
			if way == "the server is slow to answer and closes the connection" {
				verifkit.Eventually(vPatience, func() bool { return atomic.LoadInt64(&syncs) > 0 })
			} else if !verifkit.Eventually(vPatience, func() bool { return atomic.LoadInt64(&subscriptions) > 0 }) {
				k.Inconclusive("the program does not subscribe")
				return
			}
			for i := rng.Intn(4); i > 0; i-- {
				now := c02Clock()
				c.Send(&comm.NewSongInfo{FirstSampleOfSongIndex: 100, SongFileName: "song.mp3", SongLength: 4410000, Metadata: &comm.NewSongInfo_SongMetadata{}})
				c.Send(&comm.ChunkInfo{StartTime: now, FirstSampleIndex: 100, ChunkSize: 441000})
				c.Send(&comm.QueueChunkRequest{StartTime: now + 1e8, ChunkId: int64(i), SampleLow: make([]float64, 4410), SampleHigh: make([]float64, 4410), FirstSampleIndex: 100})
				c.Send(&comm.SetVolumeRequest{Volume: 0.5})
				time.Sleep(time.Duration(rng.Intn(150)) * time.Millisecond)
			}
			time.Sleep(time.Duration(rng.Intn(500)) * time.Millisecond)
			switch way {
			case "the server resets the connection":
				conn.(*net.TCPConn).SetLinger(0)
				conn.Close()
				lost = true
			case "the server sends nonsense":
				b := make([]byte, 64)
				rng.Read(b)
				b[0] |= 0x80
				conn.Write(b)
				lost = true
			case "the user interrupts it":
			default:
				conn.Close()
				lost = true
			}
		}
	}
	interrupted := false
	if strings.HasPrefix(way, "the user") {
		interrupted = true
		if !player {
			// the key is one as soon as the program reads keys itself
			if !verifkit.Eventually(vPatience, func() bool { return p.TTYMode() != p.Found() || !p.Alive() }) {
				k.Inconclusive("the info client never takes its terminal")
				return
			}
			p.Type([]byte{3})
		} else {
			time.Sleep(500 * time.Millisecond) // it has to get to waiting for interrupts
			p.Signal(syscall.SIGINT)
		}
	}
	if !verifkit.Eventually(vPatience, func() bool { return !p.Alive() }) {
		violation("goes-on", "is still running after %v", vPatience)
		return
	}
	// what it wrote last may be read a moment later
	kind, what := "", ""
	verifkit.Eventually(15*time.Second, func() bool {
		kind, what = c33Judge(p, player, interrupted, player && way == "the user interrupts it at once")
		return kind == ""
	})
	if kind != "" {
		violation(kind, "%s", what)
		return
	}
	if strings.Contains(p.Output(), "\x1b[?1049l") {
		k.Count("terminals which were in use", 1)
	}
	if player {
		k.Count("players", 1)
	} else {
		k.Count("info clients", 1)
	}
	if lost {
		k.Count("connections lost", 1)
	}
	k.Eval(who+way+fmt.Sprint(round/16), true)
}

// c33Judge tells what is wrong with the end of a program
func c33Judge(p *verifrig.Program, player, interrupted, anyCode bool) (kind, what string) {
	out := p.Output()
	if strings.Contains(out, "goroutine ") || strings.Contains(out, "panic:") {
		return "crash", "crashes: " + verifkit.Short(p.Crash(), 1000)
	}
	if code := p.ExitCode(); !anyCode && interrupted != (code == 0) || !interrupted && code < 0 {
		return "code", fmt.Sprintf("ends with the code %d", code)
	}
	left := out
	if !player {
		if mode := p.TTYMode(); mode != p.Found() {
			return "terminal", fmt.Sprintf("leaves its terminal in another mode (%s) than it found it in (%s)", mode, p.Found())
		}
		for _, m := range [][3]string{{"\x1b[?1049h", "\x1b[?1049l", "on the other screen"}, {"\x1b[?25l", "\x1b[?25h", "without a cursor"},
			{"\x1b[?1h", "\x1b[?1l", "with keys in application mode"}} {
			set, reset := strings.LastIndex(out, m[0]), strings.LastIndex(out, m[1])
			if reset < set {
				return "terminal", "leaves its terminal " + m[2]
			}
		}
		if i := strings.LastIndex(out, "\x1b[?1049l"); i >= 0 {
			left = out[i:]
		}
	}
	if !interrupted && strings.TrimSpace(verifrig.Text(left)) == "" {
		return "silent", "ends without saying why"
	}
	return "", ""
}
