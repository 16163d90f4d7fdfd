package comm_test

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifwire"
	"github.com/golang/protobuf/proto"
)

// c32GivenUp is the time after which nothing sent to a client which reads nothing may still be held
const c32GivenUp = 4 * time.Minute

// what is held for clients which stop reading is let go, and those which read on lose nothing
func TestVerif_C32_unread(t *testing.T) {
	k := verifkit.Start(t, "C32", "unread")
	defer k.Finish()
	n := k.N(1, 4)
	for i := 0; i < n && !k.Failed(); i++ {
		c32Unread(k, k.Rand(i))
	}
	k.Require("clients which stopped reading", int64(3*n))
	k.Require("messages received by others", int64(200*n))
}

func c32Unread(k *verifkit.Run, rng *rand.Rand) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		k.Inconclusive(err.Error())
		return
	}
	addr := l.Addr().String()
	l.Close()
	sender, err := comm.StartServer(addr)
	if err != nil {
		k.Inconclusive(err.Error())
		return
	}
	type reader struct {
		mu   sync.Mutex
		seen map[int64]int
	}
	receive := func(addr string, nap time.Duration) *reader {
		r := &reader{seen: map[int64]int{}}
		var once sync.Once
		c, err := verifwire.Follow(addr, func(m proto.Message) {
			if q, ok := m.(*comm.QueueChunkRequest); ok {
				if 0 <= q.ChunkId {
					once.Do(func() { time.Sleep(nap) }) // reads nothing meanwhile
				}
				r.mu.Lock()
				r.seen[q.ChunkId]++
				r.mu.Unlock()
			}
		})
		if err != nil || c.Send(&comm.SubscribeChannelRequest{Channel: comm.Channel_AUDIO}) != nil {
			k.Inconclusive("no client")
			return nil
		}
		return r
	}
	reads, naps := receive(addr, 0), receive(addr, 10*time.Second)
	if reads == nil || naps == nil {
		return
	}
	var stalled []net.Conn
	for i := 0; i < 3; i++ {
		c, err := net.Dial("tcp", addr)
		if err != nil {
			k.Inconclusive("no client")
			return
		}
		c.(*net.TCPConn).SetReadBuffer(1 << 12)
		c.Write(verifwire.Encode(&comm.SubscribeChannelRequest{Channel: comm.Channel_AUDIO}))
		if rng.Intn(2) == 0 {
			c.Write(verifwire.Encode(&comm.SubscribeChannelRequest{Channel: comm.Channel_META}))
		}
		if rng.Intn(3) == 0 {
			c.Write([]byte{0, 0}) // the beginning of a message
		}
		defer c.Close()
		stalled = append(stalled, c)
	}
	for end := time.Now().Add(30 * time.Second); ; time.Sleep(50 * time.Millisecond) {
		sender.SendMessage(&comm.QueueChunkRequest{ChunkId: -1})
		reads.mu.Lock()
		ready := reads.seen[-1] > 20
		reads.mu.Unlock()
		if ready {
			break
		}
		if time.Now().After(end) {
			k.Inconclusive("the clients are not subscribed")
			return
		}
	}
	k.Count("clients which stopped reading", int64(len(stalled)))
	// some 150 kB of noise, ten times a second
	samples := 9000
	low, high := make([]float64, samples), make([]float64, samples)
	for i := range low {
		low[i], high[i] = rng.Float64(), rng.Float64()
	}
	var sent, returned int64
	type held struct {
		at   time.Time
		done int32
	}
	var all []*held
	begin := time.Now()
	var firstHeld *held
	for {
		m := &held{at: time.Now()}
		all = append(all, m)
		id := sent
		sent++
		go func() {
			sender.SendMessage(&comm.QueueChunkRequest{ChunkId: id, SampleLow: low, SampleHigh: high})
			atomic.StoreInt32(&m.done, 1)
			atomic.AddInt64(&returned, 1)
		}()
		time.Sleep(100 * time.Millisecond)
		k.Max("messages held", sent-atomic.LoadInt64(&returned))
		if firstHeld == nil {
			for _, h := range all {
				if atomic.LoadInt32(&h.done) == 0 && time.Since(h.at) > 3*time.Second {
					firstHeld = h
					break
				}
			}
			if firstHeld == nil && time.Since(begin) > 60*time.Second {
				break // nothing is ever held
			}
			continue
		}
		if atomic.LoadInt32(&firstHeld.done) == 1 {
			break
		}
		if time.Since(firstHeld.at) > c32GivenUp {
			k.Violation("held", fmt.Sprintf("%d clients do not read; a message sent %v ago is still held for them, with %d others", len(stalled), time.Since(firstHeld.at), sent-atomic.LoadInt64(&returned)-1), nil)
			return
		}
	}
	if firstHeld != nil {
		k.Max("seconds a message was held", int64(time.Since(firstHeld.at)/time.Second))
	}
	// all which is still held ends as well
	if !verifkit.Eventually(c32GivenUp, func() bool { return atomic.LoadInt64(&returned) == sent }) {
		k.Violation("held", fmt.Sprintf("%d clients do not read; %d messages are held for them for ever", len(stalled), sent-atomic.LoadInt64(&returned)), nil)
		return
	}
	for name, r := range map[string]*reader{"a client which always reads": reads, "a client which did not read for ten seconds": naps} {
		missing, twice := int64(0), 0
		complete := func() bool {
			r.mu.Lock()
			defer r.mu.Unlock()
			missing, twice = sent, 0
			for id, n := range r.seen {
				if id < 0 {
					continue
				}
				missing--
				if n > 1 {
					twice++
				}
			}
			return missing == 0
		}
		verifkit.Eventually(60*time.Second, complete)
		if complete(); missing != 0 || twice != 0 {
			k.Violation("others", fmt.Sprintf("next to %d clients which do not read, of %d messages sent to %s, %d are missing and %d came twice", len(stalled), sent, name, missing, twice), nil)
			return
		}
		k.Count("messages received by others", sent)
	}
	k.Eval(fmt.Sprint(len(stalled), sent), firstHeld != nil)
}
