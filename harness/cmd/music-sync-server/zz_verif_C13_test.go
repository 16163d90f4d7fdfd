package main

import (
	"fmt"
	"math"
	mrand "math/rand"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifrig"
	"github.com/LogicalOverflow/music-sync/verifwire"
	"github.com/golang/protobuf/proto"
)

// c13Formats are ways to write a number
var c13Formats = []func(v float64) string{
	func(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) },
	func(v float64) string { return strconv.FormatFloat(v, 'f', -1, 64) },
	func(v float64) string { return strconv.FormatFloat(v, 'e', 17, 64) },
	func(v float64) string { return fmt.Sprintf("%+.40f", v) },
	func(v float64) string { return "00" + strconv.FormatFloat(math.Abs(v), 'g', -1, 64) },
	func(v float64) string { return strconv.FormatFloat(v, 'E', -1, 64) + " and more" },
}

// c13Follower is a client which remembers the volumes it got
type c13Follower struct {
	*vFollower
	what string
	mu   sync.Mutex
	got  []float64
}

func (f *c13Follower) last() (v float64, n int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if n = len(f.got); n > 0 {
		v = f.got[n-1]
	}
	return
}

// sessions of the real server set the volume while clients of all kinds join and leave
func TestVerif_C13_server(t *testing.T) {
	k := verifkit.Start(t, "C13", "server")
	defer k.Finish()
	for i := 0; i < k.N(3, 30) && !k.Failed(); i++ {
		c13Server(k, k.Rand(i))
	}
	k.Require("clients", 20)
	k.Require("disputes", 5)
}

func c13Server(k *verifkit.Run, rng *mrand.Rand) {
	w := vStart(k, map[string]int{"a.mp3": 3}, nil, nil, fastFlags...)
	defer w.end()
	var clients []*c13Follower
	kinds := [][]comm.Channel{{comm.Channel_AUDIO}, {comm.Channel_META}, {comm.Channel_AUDIO, comm.Channel_META}, {comm.Channel_META, comm.Channel_AUDIO}}
	join := func(kind int) *c13Follower {
		f := &c13Follower{what: fmt.Sprint(kinds[kind])}
		var err error
		f.vFollower, err = w.follow(func(m proto.Message) {
			if m, ok := m.(*comm.SetVolumeRequest); ok {
				f.mu.Lock()
				f.got = append(f.got, m.Volume)
				f.mu.Unlock()
			}
		}, kinds[kind]...)
		if err != nil {
			return nil
		}
		return f
	}
	defer func() {
		for _, c := range clients {
			c.c.Close()
		}
	}()
	// one connected, but not subscribed to anything
	silent, err := verifwire.Dial(w.srv.Addr, nil)
	if err != nil {
		k.Inconclusive("not connected")
		return
	}
	defer silent.Close()
	var sessions []*verifrig.Session
	for i := 0; i < 3; i++ {
		s := w.admin(200, 40)
		if s == nil || !s.Ping(vPatience) {
			if !w.broken("opening a session", nil) {
				k.Inconclusive("no session")
			}
			return
		}
		defer s.Close()
		sessions = append(sessions, s)
	}
	set := map[float64]bool{0.1: true}
	current := map[float64]bool{0.1: true}
	var clock verifkit.Clock
	for epoch := 0; epoch < 25 && !k.Failed(); epoch++ {
		type command struct {
			line       string
			v          float64
			valid      bool
			start, end int64
		}
		n := 1 + rng.Intn(3)
		cmds := make([][]*command, n)
		for s := range cmds {
			for i := 1 + rng.Intn(3); i > 0; i-- {
				c := &command{valid: true, v: float64(rng.Intn(3000)) / 1000}
				switch rng.Intn(6) {
				case 0:
					c.v = rng.Float64()
				case 1:
					c.v = []float64{0, 1, 0.30000000000000004, 100, 1e100, 0.1}[rng.Intn(6)]
				}
				c.line = "volume " + c13Formats[rng.Intn(len(c13Formats))](c.v)
				if rng.Intn(5) == 0 {
					c.valid = false
					c.line = []string{"volume", "volume abc", "volume 1,5", "volume 0.5x", "volume 1e999", "volume \"\"", "volume \"0.5 \"", "volume -", "volume 50%", "volumes 0.7"}[rng.Intn(10)]
				}
				cmds[s] = append(cmds[s], c)
			}
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		failed := ""
		for s := range cmds {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				for _, c := range cmds[s] {
					c.start = clock.Tick()
					if _, ok := sessions[s].Cmd(c.line, vPatience); !ok {
						mu.Lock()
						failed = c.line
						mu.Unlock()
						return
					}
					c.end = clock.Tick()
				}
			}(s)
		}
		joining := 0
		if len(clients) < 12 {
			joining = rng.Intn(3)
		}
		delays := []time.Duration{}
		for i := 0; i < joining; i++ {
			delays = append(delays, time.Duration(rng.Intn(4000))*time.Microsecond)
		}
		for i := 0; i < joining; i++ {
			wg.Add(1)
			go func(i, kind int) {
				defer wg.Done()
				time.Sleep(delays[i])
				if c := join(kind); c != nil {
					mu.Lock()
					clients = append(clients, c)
					mu.Unlock()
				}
			}(i, rng.Intn(len(kinds)))
		}
		wg.Wait()
		if failed != "" {
			if !w.broken("setting the volume", nil) {
				k.Inconclusive("no answer to " + failed)
			}
			return
		}
		// those in force now: no other command began after they ended
		var latest int64
		disputed := 0
		for _, cs := range cmds {
			for _, c := range cs {
				if c.valid {
					set[c.v] = true
					if c.start > latest {
						latest = c.start
					}
				}
			}
		}
		if latest > 0 {
			current = map[float64]bool{}
			for _, cs := range cmds {
				for _, c := range cs {
					if c.valid && c.end > latest {
						current[c.v] = true
						disputed++
					}
				}
			}
		}
		history := ""
		for s, cs := range cmds {
			for _, c := range cs {
				history += fmt.Sprintf(" %d:%q", s, c.line)
			}
		}
		if rng.Intn(3) == 0 { // and one after all of them
			if c := join(rng.Intn(len(kinds))); c != nil {
				clients = append(clients, c)
			}
		}
		finals := func() (final map[float64]string, agreed bool) {
			final = map[float64]string{}
			agreed = true
			for _, c := range clients {
				v, n := c.last()
				if n == 0 {
					agreed = false
				} else {
					final[v] += c.what
				}
			}
			if len(final) > 1 {
				agreed = false
			}
			for v := range final {
				if !current[v] {
					agreed = false
				}
			}
			return
		}
		if !verifkit.Eventually(20*time.Second, func() bool { _, ok := finals(); return ok || !w.srv.Alive() }) || !w.srv.Alive() {
			if w.broken("setting the volume", history) {
				return
			}
			final, _ := finals()
			for _, c := range clients {
				if _, n := c.last(); n == 0 {
					k.Violation("not-told", fmt.Sprintf("after%s: 20 s after it subscribed to %s a client does not know the volume", history, c.what), history)
					return
				}
			}
			k.Violation("disagree", fmt.Sprintf("20 s after the commands (session:line)%s the clients (volume: channels) are at %v, which are to be at one of %v", history, final, current), history)
			return
		}
		for _, c := range clients {
			c.mu.Lock()
			for _, v := range c.got {
				if !set[v] {
					c.mu.Unlock()
					k.Violation("wrong-value", fmt.Sprintf("after%s: a client is told the volume %v, which was not set", history, v), history)
					return
				}
			}
			c.mu.Unlock()
		}
		for _, m := range first(silent.Got()) {
			if m, ok := m.(*comm.SetVolumeRequest); ok {
				k.Violation("not-asked", fmt.Sprintf("a client which did not subscribe to anything is told the volume %v", m.Volume), history)
				return
			}
		}
		if disputed > 1 {
			k.Count("disputes", 1)
		}
		k.Max("clients", int64(len(clients)))
		k.Eval(history, disputed > 0)
	}
	k.Count("clients", int64(len(clients)))
}

func first(l []proto.Message, _ error) []proto.Message { return l }
