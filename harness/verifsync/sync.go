// Package verifsync runs a whole client - its handlers, its connection and its schedule - against a scripted server, both
// under a clock of the monitor's.
package verifsync

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifwire"
	"github.com/aristanetworks/goarista/monotime"
	"github.com/golang/protobuf/proto"
)

// World is the clock: the server's, and how far the raw clock of the client is ahead of it.
type World struct {
	now, skew int64
}

// Now is the server's clock.
func (w *World) Now() int64 { return atomic.LoadInt64(&w.now) }

// Advance lets time pass.
func (w *World) Advance(d int64) { atomic.AddInt64(&w.now, d) }

// Skew sets the client's clock.
func (w *World) Skew(s int64) { atomic.StoreInt64(&w.skew, s) }

// Raw is the client's clock.
func (w *World) Raw() int64 { return w.Now() + atomic.LoadInt64(&w.skew) }

// Use makes w the clock of this process.
func (w *World) Use(now, skew int64) {
	w.now, w.skew = now, skew
	monotime.SetSource(func() uint64 { return uint64(w.Raw()) })
}

// Handler is the handler of the client, telling when it is done with a message.
type Handler struct {
	comm.TypedPackageHandlerInterface
	w       *World
	mu      sync.Mutex
	rtt     []int64
	syncs   int64
	chunks  int64
	volumes int64
}

// HandleTimeSyncResponse hands an answer to the client.
func (h *Handler) HandleTimeSyncResponse(m *comm.TimeSyncResponse, c net.Conn) {
	h.TypedPackageHandlerInterface.HandleTimeSyncResponse(m, c)
	h.mu.Lock()
	h.rtt = append(h.rtt, h.w.Raw()-m.ClientSendTime)
	h.mu.Unlock()
	atomic.AddInt64(&h.syncs, 1)
}

// HandleQueueChunkRequest hands a chunk to the client.
func (h *Handler) HandleQueueChunkRequest(m *comm.QueueChunkRequest, c net.Conn) {
	h.TypedPackageHandlerInterface.HandleQueueChunkRequest(m, c)
	atomic.AddInt64(&h.chunks, 1)
}

// HandleSetVolumeRequest hands a volume to the client.
func (h *Handler) HandleSetVolumeRequest(m *comm.SetVolumeRequest, c net.Conn) {
	h.TypedPackageHandlerInterface.HandleSetVolumeRequest(m, c)
	atomic.AddInt64(&h.volumes, 1)
}

// Syncs, Chunks, Volumes are the numbers of messages handled.
func (h *Handler) Syncs() int64   { return atomic.LoadInt64(&h.syncs) }
func (h *Handler) Chunks() int64  { return atomic.LoadInt64(&h.chunks) }
func (h *Handler) Volumes() int64 { return atomic.LoadInt64(&h.volumes) }

// Server is the scripted server, to which the client is connected.
type Server struct {
	Conn     net.Conn
	H        *Handler
	Sender   comm.MessageSender
	Requests chan *comm.TimeSyncRequest
	Channels chan comm.Channel
}

// Connect connects a client to a scripted server.
func Connect(w *World, handler comm.TypedPackageHandler) (*Server, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	defer l.Close()
	s := &Server{H: &Handler{TypedPackageHandlerInterface: handler.TypedPackageHandlerInterface, w: w},
		Requests: make(chan *comm.TimeSyncRequest, 100000), Channels: make(chan comm.Channel, 100)}
	accepted := make(chan net.Conn, 1)
	go func() {
		c, err := l.Accept()
		if err == nil {
			accepted <- c
		}
		close(accepted)
	}()
	if s.Sender, err = comm.ConnectToServer(l.Addr().String(), comm.TypedPackageHandler{TypedPackageHandlerInterface: s.H}); err != nil {
		return nil, err
	}
	s.Conn = <-accepted
	if s.Conn == nil {
		return nil, fmt.Errorf("not connected")
	}
	go func() {
		for {
			m, err := verifwire.Read(s.Conn)
			if err != nil {
				return
			}
			switch m := m.(type) {
			case *comm.TimeSyncRequest:
				s.Requests <- m
			case *comm.SubscribeChannelRequest:
				s.Channels <- m.Channel
			}
		}
	}()
	return s, nil
}

// Send sends m to the client.
func (s *Server) Send(m proto.Message) error {
	_, err := s.Conn.Write(verifwire.Encode(m))
	return err
}

// Case of a sync.
type Case struct {
	Seed     int64
	Cycles   int
	Rounds   int
	Interval time.Duration // of syncs by themselves
}

// Answer of a child.
type Answer struct {
	Problems    []string
	Unclear     string
	Syncs       int
	Exchanges   int
	InProgress  int
	Delayed     int
	Lost        int
	WorstOfHalf float64 // the worst error in parts of what is allowed
}

// Run lets a client sync several times and judges its clock after each, and meanwhile.
func Run(c Case, handler comm.TypedPackageHandler, start func(comm.MessageSender)) (a Answer) {
	rng := rand.New(rand.NewSource(c.Seed))
	w := &World{}
	w.Use(1e15+rng.Int63n(1e15), rng.Int63n(2e14)-1e14)
	schedule.TimeSyncCycles, schedule.TimeSyncCycleDelay, schedule.TimeSyncInterval = c.Cycles, 0, time.Hour
	s, err := Connect(w, handler)
	if err != nil {
		a.Unclear = err.Error()
		return
	}
	if c.Interval > 0 {
		return resync(c, w, s, start)
	}
	// this much is added to the raw clock
	offset := func() int64 { return timing.GetSyncedTime() - timing.GetRawTime() }
	was := offset()
	for round := 0; round < c.Rounds; round++ {
		switch rng.Intn(4) {
		case 0: // the clock of the client is set
			w.Skew(rng.Int63n(2e16) - 1e15)
		case 1: // it is off by a little
			w.Skew(w.Raw() - w.Now() + rng.Int63n(2e6) - 1e6)
		}
		scale := []int64{0, 1000, 1e6, 1e8, 1e10}[rng.Intn(5)]
		side := rng.Intn(3)
		delay := func(out bool) {
			if scale > 0 && (side == 0 || side == 1 && out || side == 2 && !out) {
				w.Advance(rng.Int63n(scale))
			}
		}
		s.H.mu.Lock()
		s.H.rtt = nil
		s.H.mu.Unlock()
		skew := w.Raw() - w.Now()
		lost := -1
		if rng.Intn(5) == 0 {
			lost = rng.Intn(c.Cycles)
		}
		handled := s.H.Syncs()
		if round == 0 {
			start(s.Sender)
		} else {
			schedule.Infoer(s.Sender) // syncs at once, as each client does
		}
		for k := 0; k < c.Cycles; k++ {
			var req *comm.TimeSyncRequest
			select {
			case req = <-s.Requests:
			case <-time.After(60 * time.Second):
				a.Unclear = fmt.Sprintf("request %d of %d of sync %d does not come", k, c.Cycles, round)
				return
			}
			if offset() != was {
				a.Problems = append(a.Problems, fmt.Sprintf("the time used changed by %d ns after %d of %d exchanges of sync %d", offset()-was, k, c.Cycles, round))
				return
			}
			a.InProgress++
			if k == lost {
				continue
			}
			delay(true)
			m := &comm.TimeSyncResponse{ClientSendTime: req.ClientSend, ServerRecvTime: w.Now()}
			if scale > 0 && rng.Intn(3) == 0 {
				w.Advance(rng.Int63n(scale)) // the server takes its time
			}
			m.ServerSendTime = w.Now()
			delay(false)
			s.Send(m)
			handled++
			if !verifkit.Eventually(60*time.Second, func() bool { return s.H.Syncs() == handled }) {
				a.Unclear = fmt.Sprintf("%d answers sent, %d handled", handled, s.H.Syncs())
				return
			}
			a.Exchanges++
		}
		if lost >= 0 {
			if offset() != was {
				a.Problems = append(a.Problems, fmt.Sprintf("the time used changed by %d ns in sync %d, of which one of %d exchanges was lost", offset()-was, round, c.Cycles))
				return
			}
			a.Lost++
			continue
		}
		s.H.mu.Lock()
		sum := 0.
		for _, r := range s.H.rtt {
			sum += float64(r)
		}
		bound := sum/float64(len(s.H.rtt))/2 + 2
		s.H.mu.Unlock()
		e := float64(timing.GetSyncedTime() - w.Now())
		if e < 0 {
			e = -e
		}
		if e > bound {
			a.Problems = append(a.Problems, fmt.Sprintf("after sync %d of %d exchanges with a mean round trip of %.0f ns, the time used is off by %.0f ns (raw clock ahead by %d)", round, c.Cycles, 2*bound, e, skew))
			return
		}
		if bound > 100 && e/bound > a.WorstOfHalf {
			a.WorstOfHalf = e / bound
		}
		if scale > 0 {
			a.Delayed++
		}
		a.Syncs++
		was = offset()
	}
	return
}

// resync lets the client sync by itself, while its clock is set again and again.
func resync(c Case, w *World, s *Server, start func(comm.MessageSender)) (a Answer) {
	schedule.TimeSyncInterval = c.Interval
	rng := rand.New(rand.NewSource(c.Seed))
	start(s.Sender)
	go func() {
		for req := range s.Requests {
			s.Send(&comm.TimeSyncResponse{ClientSendTime: req.ClientSend, ServerRecvTime: w.Now(), ServerSendTime: w.Now()})
		}
	}()
	for round := 0; round < c.Rounds; round++ {
		if !verifkit.Eventually(60*time.Second, func() bool { return timing.GetSyncedTime() == w.Now() }) {
			if s.H.Syncs() > int64(round+20)*int64(c.Cycles) { // it did sync
				a.Problems = append(a.Problems, fmt.Sprintf("the clock of the client was set %d times; after %d exchanges without any delay, the time used is off by %d ns", round, s.H.Syncs(), timing.GetSyncedTime()-w.Now()))
			} else {
				before := s.H.Syncs()
				time.Sleep(20 * time.Second)
				if s.H.Syncs() == before {
					a.Problems = append(a.Problems, fmt.Sprintf("the client does not sync any more after %d exchanges, though it is to sync every %v", before, c.Interval))
				} else {
					a.Unclear = "too few syncs"
				}
			}
			return
		}
		a.Syncs++
		a.Delayed++
		w.Skew(rng.Int63n(2e16) - 1e15)
	}
	a.Exchanges = int(s.H.Syncs())
	return
}

// Judge runs clients in child processes.
func Judge(k *verifkit.Run, child string, n int) {
	for i := 0; i < n && !k.Failed(); i++ {
		rng := k.Rand(i)
		c := Case{Seed: rng.Int63(), Cycles: []int{1, 2, 3, 7, 20, 100, 500}[(i+rng.Intn(2))%7], Rounds: 25}
		if i%7 == 6 {
			c.Cycles, c.Interval, c.Rounds = 1+rng.Intn(4), 100*time.Millisecond, 8
		}
		if c.Cycles > 50 {
			c.Rounds = 4
		}
		var a Answer
		if !k.Judge(verifkit.RunChild(child, c, 5*time.Minute), c, &a) {
			continue
		}
		for _, p := range a.Problems {
			k.Violation("off", p, c)
		}
		if a.Unclear != "" {
			k.Inconclusive(a.Unclear)
		}
		k.Count("syncs", int64(a.Syncs))
		k.Count("syncs with lost exchanges", int64(a.Lost))
		k.Count("exchanges", int64(a.Exchanges))
		k.Count("looks during a sync", int64(a.InProgress))
		k.Max("worst error in percent of what is allowed", int64(100*a.WorstOfHalf))
		k.Eval(fmt.Sprint(c), a.Delayed > 0)
	}
}
