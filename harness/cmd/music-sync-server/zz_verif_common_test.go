package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifrig"
	"github.com/LogicalOverflow/music-sync/verifwire"
	"github.com/golang/protobuf/proto"
)

// vPatience bounds waiting for something which is only late when the machine is.
const vPatience = 90 * time.Second

// fastFlags make chunks of 20 ms.
var fastFlags = []string{"--sample-rate", "44100", "--stream-chunk-size", "882", "--stream-start-delay", "200ms", "--stream-delay", "300ms",
	"--song-break-size", "4410", "--time-sync-interval", "500ms", "--time-sync-cycles", "3", "--time-sync-cycle-delay", "5ms"}

type vWorld struct {
	k   *verifkit.Run
	srv *verifrig.Server
	dir string
}

// vStart starts the real server on a directory with songs (name → seconds).
func vStart(k *verifkit.Run, songs map[string]int, users interface{}, env []string, flags ...string) *vWorld {
	dir, err := ioutil.TempDir(os.Getenv("VERIF_WORK"), "srv")
	if err != nil {
		k.T.Fatal(err)
	}
	i := 0
	for n, s := range songs {
		p := filepath.Join(dir, "music", n)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := ioutil.WriteFile(p, verifkit.SongBytes(i*37, s*38), 0644); err != nil {
			k.T.Fatal(err)
		}
		i++
	}
	srv, err := verifrig.Start(os.Getenv("VERIF_BIN_SERVER"), dir, users, env, flags...)
	if err != nil {
		k.Inconclusive(fmt.Sprintf("the server does not start: %v", err))
		k.T.Fatal(err)
	}
	return &vWorld{k: k, srv: srv, dir: dir}
}

// end kills the server.
func (w *vWorld) end() {
	w.srv.Kill()
	os.RemoveAll(w.dir)
}

// broken tells whether the server died or was suspended, which is reported as a violation.
func (w *vWorld) broken(doing string, replay interface{}) bool {
	if !w.srv.Alive() {
		time.Sleep(100 * time.Millisecond)
		w.k.Violation("server-down", doing+": "+w.srv.Crash(), replay)
		return true
	}
	if w.srv.Stopped() {
		w.k.Violation("server-suspended", doing+": the server process is suspended", replay)
		return true
	}
	return false
}

// vAdmin opens an admin terminal.
func (w *vWorld) admin(width, height int) *verifrig.Session {
	s, err := verifrig.Open(w.srv.SSHAddr, verifrig.Admin(), width, height)
	if err != nil && w.srv.Alive() {
		time.Sleep(time.Second)
		s, err = verifrig.Open(w.srv.SSHAddr, verifrig.Admin(), width, height)
	}
	if err != nil {
		return nil
	}
	return s
}

// vFollower receives a stream.
type vFollower struct {
	c     *verifwire.Client
	mu    sync.Mutex
	n     map[string]int64
	first int64 // ids of chunks
	last  int64
	seen  map[int64]bool
	twice []int64
	hook  func(proto.Message)
}

// follow subscribes to channels.
func (w *vWorld) follow(hook func(proto.Message), channels ...comm.Channel) (*vFollower, error) {
	f := &vFollower{n: map[string]int64{}, seen: map[int64]bool{}, first: -1, last: -1, hook: hook}
	c, err := verifwire.Follow(w.srv.Addr, func(m proto.Message) {
		f.mu.Lock()
		f.n[proto.MessageName(m)]++
		if q, ok := m.(*comm.QueueChunkRequest); ok {
			if f.seen[q.ChunkId] {
				f.twice = append(f.twice, q.ChunkId)
			}
			f.seen[q.ChunkId] = true
			if f.first < 0 {
				f.first = q.ChunkId
			}
			if f.last < q.ChunkId {
				f.last = q.ChunkId
			}
		}
		f.mu.Unlock()
		if hook != nil {
			hook(m)
		}
	})
	if err != nil {
		return nil, err
	}
	f.c = c
	for _, ch := range channels {
		if err := c.Send(&comm.SubscribeChannelRequest{Channel: ch}); err != nil {
			return nil, err
		}
	}
	return f, nil
}

func (f *vFollower) count(name string) int64 {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.n["comm."+name]
}

// newest is the highest chunk id received.
func (f *vFollower) newest() int64 {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.last
}

// missing returns the chunks missing up to id to (chunks may overtake each other).
func (f *vFollower) missing(to int64) (ids []int64) {
	f.mu.Lock()
	defer f.mu.Unlock()
	for i := f.first + 20; 0 <= f.first && i <= to; i++ {
		if !f.seen[i] {
			ids = append(ids, i)
		}
	}
	return
}

// vServed waits until done; it gives up (false) when asked, after a minimal time, this many times and more something else
// was served all the time. ok is false when the something else was not served either (nothing can be said).
func vServed(done func() bool, other func() bool, min time.Duration, times int) (served, ok bool) {
	start := time.Now()
	for i := 0; ; i++ {
		if done() {
			return true, true
		}
		if time.Since(start) > min && i >= times {
			return done(), true
		}
		if !other() {
			return done(), false
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// c02Clock is the clock of this machine, which the server's is as well
func c02Clock() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Nano()
}
