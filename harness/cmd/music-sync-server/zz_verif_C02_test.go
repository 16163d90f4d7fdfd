package main

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifwire"
	"github.com/golang/protobuf/proto"
)

// the real server answers each request for its time with it, while it does other things too
func TestVerif_C02_server(t *testing.T) {
	k := verifkit.Start(t, "C02", "server")
	defer k.Finish()
	w := vStart(k, map[string]int{"a.mp3": 30}, nil, nil, fastFlags...)
	defer w.end()
	if s := w.admin(100, 30); s != nil {
		s.Cmd("queue a.mp3", vPatience)
		s.Cmd("resume", vPatience)
		defer s.Close()
	}
	var origin int64 // of the server's clock on this one; both advance alike
	var originKnown bool
	var lowest, highest int64
	var mu sync.Mutex
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(k.Rand(g).Int63()))
			answers := make(chan *comm.TimeSyncResponse, 1000)
			recv := make(chan int64, 1000)
			c, err := verifwire.Follow(w.srv.Addr, func(m proto.Message) {
				if r, ok := m.(*comm.TimeSyncResponse); ok {
					recv <- c02Clock()
					answers <- r
				}
			})
			if err != nil {
				k.Inconclusive(err.Error())
				return
			}
			defer c.Close()
			if g%2 == 0 {
				c.Send(&comm.SubscribeChannelRequest{Channel: comm.Channel_META})
			}
			for i := 0; i < k.N(300, 5000) && !k.Failed(); i++ {
				id := rng.Int63() - 1<<62
				burst := 1
				if rng.Intn(5) == 0 {
					burst = 1 + rng.Intn(5)
				}
				ids := map[int64]bool{}
				t0 := c02Clock()
				for b := 0; b < burst; b++ {
					ids[id+int64(b)] = true
					if c.Send(&comm.TimeSyncRequest{ClientSend: id + int64(b)}) != nil {
						w.broken("time is asked for", nil)
						return
					}
				}
				for b := 0; b < burst; b++ {
					var r *comm.TimeSyncResponse
					select {
					case r = <-answers:
					case <-time.After(vPatience):
						if !w.broken("time is asked for", nil) {
							k.Inconclusive("a request for the time is not answered")
						}
						return
					}
					t1 := <-recv
					if !ids[r.ClientSendTime] {
						k.Violation("mixed-up", fmt.Sprintf("a request sent at %d is answered as sent at %d", id, r.ClientSendTime), nil)
						return
					}
					delete(ids, r.ClientSendTime)
					if r.ServerSendTime < r.ServerRecvTime {
						k.Violation("backwards", fmt.Sprintf("a request is said to be received at %d and answered at %d", r.ServerRecvTime, r.ServerSendTime), nil)
						return
					}
					if r.ServerSendTime-r.ServerRecvTime > t1-t0 {
						k.Violation("too-long", fmt.Sprintf("a request answered within %d ns is said to have taken %d", t1-t0, r.ServerSendTime-r.ServerRecvTime), nil)
						return
					}
					// the server's clock is ahead of this one by at least lo and at most hi
					lo, hi := r.ServerSendTime-t1, r.ServerRecvTime-t0
					mu.Lock()
					if !originKnown {
						lowest, highest, originKnown = lo, hi, true
					}
					if lo > lowest {
						lowest = lo
					}
					if hi < highest {
						highest = hi
					}
					if lowest > highest+1000 {
						k.Violation("wrong", fmt.Sprintf("the times the server answers with contradict each other: by one answer its clock is ahead by at least %d, by another by at most %d ns", lowest, highest), nil)
						mu.Unlock()
						return
					}
					origin = highest - lowest
					mu.Unlock()
					k.Count("answers", 1)
				}
				k.Eval(fmt.Sprint(g, i), true)
				if rng.Intn(4) == 0 {
					time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
				}
			}
		}(g)
	}
	wg.Wait()
	k.Max("the server's clock is known to within this many ns", origin)
	k.Require("answers", 500)
}
