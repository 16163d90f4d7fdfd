package main

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifrig"
	"github.com/LogicalOverflow/music-sync/verifwire"
	"github.com/golang/protobuf/proto"
	xssh "golang.org/x/crypto/ssh"
)

var c27Commands = []func(rng *rand.Rand) string{
	func(rng *rand.Rand) string { return fmt.Sprintf("queue song%d.mp3 %d", rng.Intn(6), rng.Intn(8)-2) },
	func(rng *rand.Rand) string { return "queue *.mp3" },
	func(rng *rand.Rand) string { return "queue sub/*" },
	func(rng *rand.Rand) string { return fmt.Sprintf("remove %d", rng.Intn(8)-1) },
	func(rng *rand.Rand) string { return fmt.Sprintf("jump %d", rng.Intn(12)-1) },
	func(rng *rand.Rand) string { return fmt.Sprintf("volume 0.%d", rng.Intn(10)) },
	func(rng *rand.Rand) string { return "volume" },
	func(rng *rand.Rand) string { return "pause" },
	func(rng *rand.Rand) string { return "resume" },
	func(rng *rand.Rand) string { return "resume" },
	func(rng *rand.Rand) string { return "playlist" },
	func(rng *rand.Rand) string { return "ls" },
	func(rng *rand.Rand) string { return "help" },
	func(rng *rand.Rand) string { return "nonsense \"" },
	func(rng *rand.Rand) string { return "qu\t so\t\t\t" },
	func(rng *rand.Rand) string { return "queue \t\t\t\x1b[A\x1b[A\x12que" },
}

// The server, players and info clients, all with the race detector, and everything which can happen at once.
func TestVerif_C27_programs(t *testing.T) {
	k := verifkit.Start(t, "C27", "server, players and info clients under the race detector")
	defer k.Finish()
	rounds := k.N(1, 12)
	for round := 0; round < rounds && !k.Failed(); round++ {
		c27Round(k, round)
	}
	k.Require("QueueChunkRequest", 50)
}

func c27Round(k *verifkit.Run, round int) {
	songs := map[string]int{}
	for i := 0; i < 6; i++ {
		songs[fmt.Sprintf("song%d.mp3", i)] = 2 + i%3
	}
	songs["sub/one.mp3"], songs["sub/two.mp3"] = 1, 1
	w := vStart(k, songs, nil, nil, append(append([]string{}, fastFlags...), "--stream-chunk-size", "4410", "--stream-start-delay", "800ms", "--stream-delay", "2500ms")...)
	defer w.end()
	for n := range songs {
		ioutil.WriteFile(filepath.Join(w.srv.Music, n+".json"), []byte(`[[{"timestamp":1,"caption":"x"},{"timestamp":400,"caption":"y"}],[{"timestamp":900,"caption":"zz"}]]`), 0644)
	}
	ioutil.WriteFile(filepath.Join(w.srv.Music, "broken.mp3"), []byte("not music"), 0644)
	host, port, _ := net.SplitHostPort(w.srv.Addr)
	var programs []*verifrig.Program
	spawn := func(bin string, env []string, tw, th int, args ...string) *verifrig.Program {
		p, err := verifrig.Spawn(os.Getenv(bin), w.dir, env, tw, th, append([]string{"--addr", host, "--port", port, "--sample-rate", "44100"}, args...)...)
		if err != nil {
			k.Inconclusive(err.Error())
			return nil
		}
		programs = append(programs, p)
		return p
	}
	defer func() {
		for _, p := range programs {
			p.Kill()
		}
	}()
	for i := 0; i < 2; i++ {
		spawn("VERIF_BIN_PLAYER", []string{fmt.Sprintf("VERIF_OTO_OUT=%s/audio%d", w.dir, i)}, 0, 0, "--logging", []string{"debug", "warn"}[i])
	}
	info := spawn("VERIF_BIN_INFOER", nil, 80, 24)
	if info == nil {
		return
	}
	duration := time.Duration(k.N(15000, 20000)) * time.Millisecond
	stop := make(chan struct{})
	ended := func() bool {
		select {
		case <-stop:
			return true
		default:
			return false
		}
	}
	var wg sync.WaitGroup
	var commands, joins int64
	counts := map[string]int64{}
	var mu sync.Mutex
	for i := 0; i < 2; i++ {
		f, err := w.follow(func(m proto.Message) {
			mu.Lock()
			counts[proto.MessageName(m)]++
			mu.Unlock()
		}, comm.Channel_AUDIO, comm.Channel_META)
		if err != nil {
			k.Inconclusive(err.Error())
			return
		}
		defer f.c.Close()
		wg.Add(1)
		go func() { // asks for the time
			defer wg.Done()
			for j := int64(0); !ended(); j++ {
				f.c.Send(&comm.TimeSyncRequest{ClientSend: j})
				if j%7 == 0 {
					f.c.Send(&comm.PingMessage{})
				}
				time.Sleep(15 * time.Millisecond)
			}
		}()
	}
	for i := 0; i < 3; i++ { // clients coming and going
		wg.Add(1)
		rng := k.Rand(round*100 + i)
		go func() {
			defer wg.Done()
			for !ended() {
				c, err := verifwire.Follow(w.srv.Addr, func(proto.Message) {})
				if err != nil {
					time.Sleep(10 * time.Millisecond)
					continue
				}
				atomic.AddInt64(&joins, 1)
				for j := rng.Intn(4); j > 0; j-- {
					c.Send(&comm.SubscribeChannelRequest{Channel: []comm.Channel{comm.Channel_AUDIO, comm.Channel_META, 7}[rng.Intn(3)]})
					c.Send(&comm.TimeSyncRequest{ClientSend: 1})
				}
				if rng.Intn(4) == 0 {
					c.Conn.Write([]byte("\x00\x00\x00\x05hello"))
				}
				time.Sleep(time.Duration(rng.Intn(250)) * time.Millisecond)
				c.Close()
			}
		}()
	}
	for i := 0; i < 3; i++ { // admins; the first starts the music
		a := w.admin(80, 24)
		if a == nil {
			k.Inconclusive("no admin session")
			break
		}
		if i == 0 {
			a.Cmd("queue *.mp3", vPatience)
			a.Cmd("resume", vPatience)
		}
		wg.Add(1)
		rng := k.Rand(round*100 + 50 + i)
		go func(i int) {
			defer wg.Done()
			for n := 0; !ended(); {
				line := c27Commands[rng.Intn(len(c27Commands))](rng)
				if i == 0 {
					line = []string{"resume", "volume 0.3", "pause", "playlist", "resume", "jump 2", "volume 0.7", "queue *.mp3"}[n%8]
					n++
				}
				if strings.ContainsAny(line, "\t\x12\"") {
					a.Type([]byte(line + "\r\x15\r"))
				} else if _, ok := a.Cmd(line, 20*time.Second); !ok {
					atomic.AddInt64(&commands, -1)
				}
				atomic.AddInt64(&commands, 1)
				if rng.Intn(5) == 0 {
					a.Resize(10+rng.Intn(120), 3+rng.Intn(40))
				}
				if i > 0 && rng.Intn(12) == 0 {
					a.Close()
					if a = w.admin(80, 24); a == nil {
						return
					}
				}
				time.Sleep(time.Duration(rng.Intn(150)) * time.Millisecond)
			}
			a.Close()
		}(i)
	}
	var hasty int64
	wg.Add(1)
	go func() { // terminals which are resized as soon as they are requested, several on a connection
		defer wg.Done()
		rng := k.Rand(round*100 + 98)
		for !ended() {
			conn, err := xssh.Dial("tcp", w.srv.SSHAddr, verifrig.Admin())
			if err != nil {
				time.Sleep(50 * time.Millisecond)
				continue
			}
			var closers []func()
			for i := 0; i < 20 && !ended(); i++ {
				var sizes [][2]int
				for j := 0; j < 6; j++ {
					sizes = append(sizes, [2]int{rng.Intn(200), rng.Intn(60)})
				}
				if c, err := verifrig.Hasty(conn, sizes); err == nil {
					closers = append(closers, c)
					atomic.AddInt64(&hasty, 1)
				}
				time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
			}
			for _, c := range closers {
				c()
			}
			conn.Close()
		}
	}()
	wg.Add(1)
	go func() { // the info client's user
		defer wg.Done()
		rng := k.Rand(round*100 + 99)
		for !ended() {
			info.Resize(20+rng.Intn(100), 5+rng.Intn(30))
			info.Signal(syscall.SIGWINCH)
			if rng.Intn(3) == 0 {
				info.Type([]byte{"abc \r\x0c"[rng.Intn(6)]})
			}
			time.Sleep(time.Duration(rng.Intn(500)) * time.Millisecond)
		}
	}()
	// another player and info client join later
	time.Sleep(duration / 2)
	spawn("VERIF_BIN_PLAYER", nil, 0, 0)
	spawn("VERIF_BIN_INFOER", nil, 60, 20)
	time.Sleep(duration / 2)
	close(stop)
	wg.Wait()
	info.Type([]byte{3})
	programs[0].Signal(syscall.SIGINT)
	for i, p := range programs {
		if i == 0 || i == 2 {
			p.Exited(5 * time.Second)
		}
	}
	for _, o := range append([]string{w.srv.Output()}, c27Outputs(programs)...) {
		if i := strings.Index(o, "fatal error: concurrent"); i >= 0 {
			k.Violation("concurrent-access", verifkit.Short(o[i:], 3000), round)
		}
	}
	if !w.srv.Alive() {
		k.Inconclusive("the server died: " + verifkit.Short(w.srv.Crash(), 1000))
	}
	mu.Lock()
	defer mu.Unlock()
	for _, n := range []string{"QueueChunkRequest", "ChunkInfo", "NewSongInfo", "PauseInfo", "SetVolumeRequest", "TimeSyncResponse"} {
		k.Count(n, counts["comm."+n])
	}
	var audio int64
	for i := 0; i < 2; i++ {
		if s, err := os.Stat(fmt.Sprintf("%s/audio%d", w.dir, i)); err == nil {
			audio += s.Size() / 4
		}
	}
	k.Count("samples played", audio)
	k.Count("screen bytes drawn", int64(len(info.Output())))
	k.Count("terminals resized while starting", atomic.LoadInt64(&hasty))
	k.Count("commands", atomic.LoadInt64(&commands))
	k.Count("clients joined and left", atomic.LoadInt64(&joins))
	k.Eval(fmt.Sprint(round), counts["comm.QueueChunkRequest"] > 0 && counts["comm.NewSongInfo"] > 1 && audio > 0 && len(info.Output()) > 2000)
}

func c27Outputs(ps []*verifrig.Program) (out []string) {
	for _, p := range ps {
		out = append(out, p.Output())
	}
	return
}
