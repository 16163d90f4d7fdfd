package main

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifrig"
	"github.com/LogicalOverflow/music-sync/verifwire"
	"github.com/golang/protobuf/proto"
	"golang.org/x/crypto/ssh"
)

type c28Load struct{ Clients, Sessions, Songs int }

// c28Serve runs a server with that load and returns what it holds after everything is gone: open files by kind, goroutines by
// where they are.
func c28Serve(k *verifkit.Run, rng *rand.Rand, load c28Load) (files map[string]int, goroutines map[string]int64, ok bool) {
	songs := map[string]int{}
	for i := 0; i < 6; i++ {
		songs[fmt.Sprintf("song%d.mp3", i)] = 60
	}
	w := vStart(k, songs, nil, []string{"GOGC=off"}, fastFlags...)
	defer w.end()
	for i := 0; i < 6; i++ { // some are broken, all have lyrics
		p := filepath.Join(w.srv.Music, fmt.Sprintf("broken%d.mp3", i))
		ioutil.WriteFile(p, []byte(strings.Repeat("\xff\xfb\x90\x64 broken", i*20)), 0644)
		for _, n := range []string{"song", "broken"} {
			ioutil.WriteFile(filepath.Join(w.srv.Music, fmt.Sprintf("%s%d.mp3.json", n, i)), []byte([]string{`[[{"timestamp":1,"caption":"x"}]]`, `[[`}[i%2]), 0644)
		}
	}
	var announced int64
	f, err := w.follow(func(m proto.Message) {
		if _, ok := m.(*comm.NewSongInfo); ok {
			atomic.AddInt64(&announced, 1)
		}
	}, comm.Channel_AUDIO, comm.Channel_META)
	admin := w.admin(80, 24)
	if err != nil || admin == nil {
		k.Inconclusive(fmt.Sprintf("no client: %v", err))
		return
	}
	defer f.c.Close()
	defer admin.Close()
	conn, err := ssh.Dial("tcp", w.srv.SSHAddr, verifrig.Admin())
	if err != nil {
		k.Inconclusive(err.Error())
		return
	}
	defer conn.Close()
	admin.Cmd("queue *", vPatience)
	admin.Cmd("resume", vPatience)

	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	do := func(n int, f func(i int, rng *rand.Rand)) {
		for i := 0; i < n; i++ {
			sem <- struct{}{}
			wg.Add(1)
			go func(i int, rng *rand.Rand) {
				defer func() { <-sem; wg.Done() }()
				f(i, rng)
			}(i, rand.New(rand.NewSource(rng.Int63())))
		}
	}
	do(load.Clients, func(i int, rng *rand.Rand) {
		c, err := net.DialTimeout("tcp", w.srv.Addr, time.Minute)
		if err != nil {
			return
		}
		defer c.Close()
		k.Count("clients served", 1)
		for j := rng.Intn(4); j > 0; j-- {
			c.Write(verifwire.Encode(&comm.SubscribeChannelRequest{Channel: comm.Channel(rng.Intn(2))}))
		}
		switch rng.Intn(5) {
		case 0:
			c.(*net.TCPConn).SetLinger(0)
		case 1:
			c.Write([]byte("garbage which is long enough to be read"))
		case 2:
			time.Sleep(time.Duration(rng.Intn(300)) * time.Millisecond) // without reading
		case 3:
			c.SetReadDeadline(time.Now().Add(time.Duration(rng.Intn(200)) * time.Millisecond))
			b := make([]byte, 1<<16)
			for err == nil {
				_, err = c.Read(b)
			}
		}
	})
	do(load.Sessions, func(i int, rng *rand.Rand) {
		switch rng.Intn(8) {
		case 0: // no terminal
			s, err := conn.NewSession()
			if err == nil {
				s.Shell()
				s.Wait()
				s.Close()
			}
		case 1: // the login is left
			if c, err := net.Dial("tcp", w.srv.SSHAddr); err == nil {
				c.Write([]byte("SSH-2.0-x\r\n"))
				c.Close()
			}
		case 2:
			verifrig.Open(w.srv.SSHAddr, verifrig.Login("admin", ssh.Password("wrong")), 80, 24)
		default:
			var s *verifrig.Session
			var err error
			if i%2 == 0 {
				s, err = verifrig.OpenOn(conn, 40+rng.Intn(60), 24) // the connection goes on
			} else {
				s, err = verifrig.Open(w.srv.SSHAddr, verifrig.Admin(), 40+rng.Intn(60), 24)
			}
			if err != nil {
				return
			}
			if s.Ping(vPatience) {
				k.Count("admin sessions served", 1)
			}
			s.Type([]byte([]string{"queue \t\t", "\x12abc", "ls\r", "playlist\rplaylist\r", "half a line", "help\r", ""}[rng.Intn(7)]))
			s.Resize(20+rng.Intn(100), 10)
			if rng.Intn(2) == 0 {
				s.Type([]byte("\r\x04"))
				time.Sleep(time.Duration(rng.Intn(50)) * time.Millisecond)
			}
			if i%2 == 0 {
				s.CloseSession()
			} else {
				s.Close()
			}
		}
	})
	for i := 0; i < load.Songs; i++ {
		before := atomic.LoadInt64(&announced)
		if text, answered := admin.Cmd(fmt.Sprintf("jump %d", i%12), vPatience); !answered {
			k.Inconclusive("no answer: " + text)
			return
		}
		for end := time.Now().Add(vPatience); atomic.LoadInt64(&announced) == before && time.Now().Before(end); {
			time.Sleep(2 * time.Millisecond)
		}
		if i%5 == 0 {
			admin.Cmd("ls", vPatience)
			admin.Cmd("queue nothing*", vPatience)
		}
	}
	k.Count("songs played", atomic.LoadInt64(&announced))
	wg.Wait()
	if w.broken("clients and sessions coming and going", load) {
		return
	}
	// while 8 seconds of music are streamed everything left can be released
	from := f.newest()
	for end := time.Now().Add(3 * vPatience); f.newest() < from+400; time.Sleep(20 * time.Millisecond) {
		if time.Now().After(end) {
			k.Inconclusive("no stream")
			return
		}
	}
	files = map[string]int{}
	for _, p := range w.srv.Files() {
		switch {
		case strings.HasPrefix(p, "socket:"):
			p = "connections"
		case strings.HasPrefix(p, w.srv.Music):
			p = "files in the music directory"
		case strings.HasPrefix(p, w.dir):
			p = "files of the configuration"
		default:
			continue
		}
		files[p]++
	}
	goroutines = map[string]int64{}
	for _, g := range strings.Split(w.srv.Dump(), "\n\n") {
		if !strings.HasPrefix(strings.TrimSpace(g), "goroutine ") {
			continue
		}
		if top := verifkit.GoroutineTop(strings.TrimSpace(g)); !strings.HasPrefix(top, "created by runtime.") {
			goroutines[top]++
		}
	}
	return files, goroutines, true
}

func TestVerif_C28_server(t *testing.T) {
	k := verifkit.Start(t, "C28", "server")
	defer k.Finish()
	for i := 0; i < k.N(1, 8) && !k.Failed(); i++ {
		rng := k.Rand(i)
		few, many := c28Load{4, 4, 4}, c28Load{150, 60, 20}
		var f1, f2 map[string]int
		var g1, g2 map[string]int64
		var ok1, ok2 bool
		var both sync.WaitGroup
		both.Add(2)
		r1, r2 := rand.New(rand.NewSource(rng.Int63())), rand.New(rand.NewSource(rng.Int63()))
		go func() { defer both.Done(); f1, g1, ok1 = c28Serve(k, r1, few) }()
		go func() { defer both.Done(); f2, g2, ok2 = c28Serve(k, r2, many) }()
		both.Wait()
		if !ok1 || !ok2 {
			return
		}
		replay := map[string]interface{}{"round": i, "few": few, "many": many, "files few": f1, "files many": f2, "goroutines few": g1, "goroutines many": g2}
		for what, n := range f2 {
			if n > f1[what]+2 {
				k.Violation("leak", fmt.Sprintf("after %+v came and left, the server holds %d %s; after %+v %d", many, n, what, few, f1[what]), replay)
			}
			k.Max(what+" held", int64(n))
		}
		var t1, t2 int64
		for _, n := range g1 {
			t1 += n
		}
		for _, n := range g2 {
			t2 += n
		}
		k.Max("goroutines left", t2)
		if t1 < 5 || t2 < 5 {
			k.Inconclusive(fmt.Sprintf("the dump shows only %d and %d goroutines", t1, t2))
		}
		if t2 > t1+8 {
			var more []string
			for _, w := range verifkit.SortedKeys(g2) {
				if g2[w] > g1[w] {
					more = append(more, fmt.Sprintf("%d instead of %d at %s", g2[w], g1[w], w))
				}
			}
			k.Violation("leak", fmt.Sprintf("after %+v came and left, the server has %d goroutines; after %+v %d: %s", many, t2, few, t1, strings.Join(more, "; ")), replay)
		}
		k.Eval(fmt.Sprint(i), true)
		k.Sample(map[string]interface{}{"load": many, "goroutines left": g2, "open": f2})
	}
	k.Require("admin sessions served", 20)
	k.Require("clients served", 100)
	k.Require("songs played", 15)
}
