package schedule

import (
	"fmt"
	"math"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
)

func c13Volumes(c *vClient) []float64 {
	var r []float64
	for _, m := range c.received() {
		if v, ok := m.(*comm.SetVolumeRequest); ok {
			r = append(r, v.Volume)
		}
	}
	return r
}

// sessions set the volume while clients join
func TestVerif_C13_consensus(t *testing.T) {
	r := verifkit.Start(t, "C13", "consensus")
	defer r.Finish()
	for i := 0; i < r.N(700, 15000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		hub := &vHub{delay: vDelays(r.Rand(i + 1<<20))}
		ss := vState(nil)
		ss.sender = hub
		handler := ss.createClientHandler()
		chans := func(k int) []comm.Channel {
			return [][]comm.Channel{{comm.Channel_AUDIO}, {comm.Channel_META}, {comm.Channel_AUDIO, comm.Channel_META}}[k%3]
		}
		var clients []*vClient
		for k := rng.Intn(3); k >= 0; k-- {
			clients = append(clients, hub.join(handler, chans(k)...))
		}
		sessions, per, joins := 1+rng.Intn(4), 1+rng.Intn(3), rng.Intn(4)
		var clock verifkit.Clock
		type command struct {
			v          float64
			start, end int64
		}
		cmds := make([][]command, sessions)
		pause := vDelays(r.Rand(i + 1<<21))
		var wg sync.WaitGroup
		var mu sync.Mutex
		for s := 0; s < sessions; s++ {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				for k := 0; k < per; k++ {
					pause()
					c := command{v: float64(s*100+k+1) / 1000}
					c.start = clock.Tick()
					ss.volumeCommand().Exec([]string{strconv.FormatFloat(c.v, 'g', -1, 64)})
					c.end = clock.Tick()
					cmds[s] = append(cmds[s], c)
				}
			}(s)
		}
		for j := 0; j < joins; j++ {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				pause()
				pause()
				c := hub.join(handler, chans(j)...)
				mu.Lock()
				clients = append(clients, c)
				mu.Unlock()
			}(j)
		}
		if v, rep := verifkit.Bounded(60*time.Second, wg.Wait); v == verifkit.Stuck {
			r.Violation("hangs", "setting the volume from several sessions never ends", rep)
			return
		} else if v != verifkit.Completed {
			r.Inconclusive("setting the volume did not finish")
			return
		}
		clients = append(clients, hub.join(handler, chans(i)...)) // after everything
		last := map[float64]bool{}
		var latest int64
		for _, cs := range cmds {
			for _, c := range cs {
				if c.start > latest {
					latest = c.start
				}
			}
		}
		for _, cs := range cmds {
			for _, c := range cs {
				if c.end > latest {
					last[c.v] = true
				}
			}
		}
		what := fmt.Sprintf("%d sessions, %d commands each, %d clients", sessions, per, len(clients))
		final := map[float64]int{}
		for _, c := range clients {
			vs := c13Volumes(c)
			if len(vs) == 0 {
				r.Violation("not-told", what+": a subscribed client never got any volume", nil)
				return
			}
			for _, v := range vs {
				if s, k := int(math.Round(v*1000))/100, int(math.Round(v*1000))%100; v != 0.1 && (s >= sessions || k < 1 || k > per || v != float64(s*100+k)/1000) {
					r.Violation("wrong-value", fmt.Sprintf("%s: volume %v received, which was never set", what, v), nil)
					return
				}
			}
			final[vs[len(vs)-1]]++
		}
		if len(final) != 1 {
			r.Violation("disagree", fmt.Sprintf("%s: once all commands are done, the volumes received last are (volume: clients) %v", what, final), nil)
			return
		}
		for v := range final {
			if !last[v] {
				r.Violation("outdated", fmt.Sprintf("%s: the volume of all clients is %v, the last commands set one of %v", what, v, last), nil)
				return
			}
		}
		r.Count("clients", int64(len(clients)))
		r.Count("commands", int64(sessions*per))
		r.Eval(fmt.Sprint(sessions, per, joins, final, i), sessions > 1)
	}
}

func TestVerif_C13_command(t *testing.T) {
	r := verifkit.Start(t, "C13", "command")
	defer r.Finish()
	hub := &vHub{}
	ss := vState(nil)
	ss.sender = hub
	client := hub.join(ss.createClientHandler(), comm.Channel_META)
	player := hub.join(ss.createClientHandler(), comm.Channel_AUDIO)
	hub.join(ss.createClientHandler()) // not subscribed to anything
	current := 0.1
	for i := 0; i < r.N(3000, 50000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		var args []string
		valid := false
		var want float64
		switch rng.Intn(5) {
		case 0:
			args = [][]string{nil, {}, {""}, {"abc"}, {"0.5x"}, {"50%"}, {"0,5"}, {" 0.5"}, {"1 2"}, {"--1"}, {"."}, {"e5"}, {"1e"}, {"½"}, {"٣"}}[rng.Intn(15)]
		case 1:
			args = []string{[]string{"0", "1", "-0", "0.1", "1e-3", "+0.25", ".5", "5.", "1e300", "-2", "0.30000000000000004", "4.9e-324"}[rng.Intn(12)]}
			valid = true
		default:
			want = rng.Float64() * []float64{1, 1, 10, 1e6}[rng.Intn(4)]
			args = []string{strconv.FormatFloat(want, []byte("gfeE")[rng.Intn(4)], -1, 64)}
			valid = true
		}
		if valid {
			want, _ = strconv.ParseFloat(args[0], 64)
			if rng.Intn(5) == 0 {
				args = append(args, "surplus")
			}
		}
		before := [2]int{len(client.received()), len(player.received())}
		var p string
		if p = verifkit.Catch(func() { ss.volumeCommand().Exec(args) }); p != "" {
			r.Violation("crash", fmt.Sprintf("volume %q: %s", args, p), args)
			return
		}
		for k, c := range []*vClient{client, player} {
			got := c.received()[before[k]:]
			if !valid && len(got) > 0 {
				r.Violation("changed", fmt.Sprintf("volume %q sends %v", args, got), args)
			} else if valid {
				vs := c13Volumes(c)
				if len(got) == 0 || vs[len(vs)-1] != want {
					r.Violation("wrong-value", fmt.Sprintf("volume %q: client received %v", args, got), args)
				}
			}
		}
		if valid {
			current = want
		}
		if rng.Intn(10) == 0 { // whoever joins gets the same
			c := hub.join(ss.createClientHandler(), []comm.Channel{comm.Channel_META, comm.Channel_AUDIO}[rng.Intn(2)])
			if vs := c13Volumes(c); len(vs) == 0 || vs[len(vs)-1] != current {
				r.Violation("outdated", fmt.Sprintf("after volume %q a new client gets the volumes %v, the volume is %v", args, vs, current), args)
			}
			hub.mu.Lock()
			hub.clients = hub.clients[:3]
			hub.mu.Unlock()
		}
		r.Eval(fmt.Sprintf("%q", args), valid)
	}
	hub.mu.Lock()
	defer hub.mu.Unlock()
	if n := len(hub.clients[2].received()); n > 0 {
		r.Violation("told-others", fmt.Sprintf("a client subscribed to nothing received %d messages", n), nil)
	}
}
