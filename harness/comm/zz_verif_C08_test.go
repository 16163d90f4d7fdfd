package comm

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"reflect"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/golang/protobuf/proto"
)

// Sequences of messages over one connection, cut into any pieces, written in
// any short writes, and read back.
func TestVerif_C08_roundtrip(t *testing.T) {
	r := verifkit.Start(t, "C08", "fragmented-roundtrip")
	defer r.Finish()
	for c := 0; c < r.N(1200, 15000) && !r.Failed(); c++ {
		rng := r.Rand(c)
		out := &vConn{}
		switch rng.Intn(4) {
		case 0:
			out.short = func() int { return 1 + rng.Intn(3) }
		case 1:
			out.short = func() int { return 1 + rng.Intn(5000) }
		}
		var sent []proto.Message
		var keys []string
		for k := 1 + rng.Intn(8); k > 0; k-- {
			kind := rng.Intn(vKinds)
			if c < 4 && len(sent) == 0 {
				kind = 2
			}
			m := vMessage(rng, kind)
			if q, ok := m.(*QueueChunkRequest); ok && c < 4 && len(sent) == 0 { // chunks of the default size and beyond
				out.short = nil
				q.SampleLow, q.SampleHigh = make([]float64, 176400<<uint(c)), make([]float64, 176400<<uint(c))
				for i := range q.SampleLow {
					q.SampleLow[i], q.SampleHigh[i] = rng.Float64()*2-1, rng.Float64()
				}
			} else if ok && len(q.SampleLow) > 5000 && (out.short != nil || rng.Intn(8) > 0) {
				q.SampleLow, q.SampleHigh = q.SampleLow[:1000], q.SampleHigh[:0]
			}
			key := vKey(m)
			var err error
			if p := verifkit.Catch(func() {
				if rng.Intn(2) == 0 {
					err = sendWire(m, out)
				} else {
					err = (&singleMessageSender{connection: out}).SendMessage(m)
				}
			}); p != "" {
				r.Violation("panic", "sending panicked: "+p, fmt.Sprintf("%v", m))
				return
			}
			if err != nil {
				r.Violation("send-failed", fmt.Sprintf("sending a valid %T failed: %v", m, err), verifkit.Short(m.String(), 2000))
				return
			}
			if vKey(m) != key {
				r.Violation("message-changed", fmt.Sprintf("sending changed the message %T", m), verifkit.Short(m.String(), 2000))
				return
			}
			sent, keys = append(sent, m), append(keys, key)
		}
		data := append([]byte{}, out.out.Bytes()...)
		in := &vConn{in: bytes.NewReader(data)}
		switch rng.Intn(4) {
		case 0:
			if len(data) > 2000000 {
				break
			}
			in.cut = func() int { return 1 }
			if len(data) > 200000 {
				in.cut = func() int { return 1 + rng.Intn(9) }
			}
		case 1:
			if len(data) > 2000000 {
				break
			}
			in.cut = func() int { return 1 + rng.Intn(12) }
		case 2:
			in.cut = func() int { return 1 + rng.Intn(70000) }
		}
		for i := range sent {
			var m proto.Message
			var err error
			if p := verifkit.Catch(func() { m, err = readWire(in) }); p != "" {
				r.Violation("panic", "receiving panicked: "+p, vHex(data))
				return
			}
			if err != nil {
				r.Violation("receive-failed", fmt.Sprintf("message %d (%T) was not received: %v", i, sent[i], err), verifkit.Short(sent[i].String(), 2000))
				return
			}
			if reflect.TypeOf(m) != reflect.TypeOf(sent[i]) || vKey(m) != keys[i] {
				r.Violation("message-differs", fmt.Sprintf("message %d (%T) was received as %T with a different content", i, sent[i], m),
					map[string]string{"sent": verifkit.Short(sent[i].String(), 2000), "received": verifkit.Short(m.String(), 2000)})
				return
			}
			r.Count(fmt.Sprintf("received_%T", m), 1)
			r.Eval(keys[i], true)
		}
		if m, err := readWire(in); err != io.EOF && err == nil {
			r.Violation("extra-message", fmt.Sprintf("an extra %T was received", m), vHex(data))
			return
		}
		r.Count("bytes", int64(len(data)))
		r.Sample(fmt.Sprintf("%d messages, %d bytes, first %s", len(sent), len(data), verifkit.Short(sent[0].String(), 200)))
	}
	r.Require("", 1500)
}

// A message that can not be sent leaves nothing on the connection.
func TestVerif_C08_unsendable(t *testing.T) {
	r := verifkit.Start(t, "C08", "unsendable")
	defer r.Finish()
	for c := 0; c < r.N(200, 2000) && !r.Failed(); c++ {
		rng := r.Rand(c)
		out := &vConn{}
		bad := vString(rng) + "\xff\xfe" + vString(rng)
		m := &NewSongInfo{SongFileName: bad}
		if rng.Intn(2) == 0 {
			m = &NewSongInfo{SongFileName: vString(rng), Metadata: &NewSongInfo_SongMetadata{Title: bad}}
		}
		good := vMessage(rng, rng.Intn(vKinds))
		var err error
		if p := verifkit.Catch(func() { err = sendWire(m, out) }); p != "" {
			r.Violation("panic", "sending panicked: "+p, m.String())
			return
		}
		if err == nil && out.out.Len() == 0 {
			r.Violation("silently-lost", "a message was dropped without an error", m.String())
			return
		}
		if sendWire(good, out) != nil {
			r.Violation("send-failed", "sending failed after an unsendable message", good.String())
			return
		}
		in := &vConn{in: bytes.NewReader(out.out.Bytes())}
		got, rerr := readWire(in)
		if err == nil && rerr == nil {
			got, rerr = readWire(in)
		}
		if rerr != nil || vKey(got) != vKey(good) {
			r.Violation("corrupted", fmt.Sprintf("the message after an unsendable one was not received: %v", rerr), good.String())
			return
		}
		r.Eval(vKey(good)+bad, true)
	}
}

// Many senders on one connection at once.
func TestVerif_C08_concurrent(t *testing.T) {
	r := verifkit.Start(t, "C08", "concurrent-senders")
	defer r.Finish()
	for c := 0; c < r.N(200, 2000) && !r.Failed(); c++ {
		rng := r.Rand(c)
		senders := 2 + rng.Intn(8)
		per := 1 + rng.Intn(20)
		type tagged struct {
			Sender, Seq int
		}
		plan := make([][]proto.Message, senders)
		owner := map[string]tagged{}
		for s := range plan {
			for k := 0; k < per; k++ {
				m := vMessage(rng, []int{0, 1, 2, 5, 7, 8, 9}[rng.Intn(7)])
				id := int64(s*1000 + k + 1)
				switch m := m.(type) { // unique content
				case *TimeSyncRequest:
					m.ClientSend = id
				case *TimeSyncResponse:
					m.ClientSendTime = id
				case *QueueChunkRequest:
					m.ChunkId = id
					if len(m.SampleLow) > 7000 && rng.Intn(6) > 0 {
						m.SampleLow, m.SampleHigh = m.SampleLow[:7000], nil
					}
				case *SetVolumeRequest:
					m.Volume = float64(id)
				case *NewSongInfo:
					m.SongLength = id
				case *ChunkInfo:
					m.StartTime = id
				case *PauseInfo:
					m.ToggleSampleIndex = uint64(id)
				}
				plan[s] = append(plan[s], m)
				owner[vKey(m)] = tagged{s, k}
			}
		}
		total := senders * per
		real := c%2 == 0
		var rd, wr net.Conn
		mem := &vConn{yield: true}
		if real {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				t.Fatal(err)
			}
			ch := make(chan net.Conn, 1)
			go func() { x, _ := l.Accept(); ch <- x }()
			wr, err = net.Dial("tcp", l.Addr().String())
			if err != nil {
				t.Fatal(err)
			}
			rd = <-ch
			l.Close()
			if rng.Intn(2) == 0 {
				rd.(*net.TCPConn).SetReadBuffer(65536)
				wr.(*net.TCPConn).SetWriteBuffer(16384)
			}
		} else {
			wr = mem
		}
		mms := &multiMessageSender{connections: []net.Conn{wr}, channels: map[net.Conn][]Channel{wr: {Channel_AUDIO, Channel_META}}}
		var got []proto.Message
		var rerr error
		readAll := func(from net.Conn) {
			for len(got) < total {
				m, err := readWire(from)
				if err != nil {
					rerr = err
					return
				}
				got = append(got, m)
			}
		}
		var panicked string
		v, rep := verifkit.Bounded(120*time.Second, func() {
			var wg sync.WaitGroup
			for s := 0; s < senders; s++ {
				wg.Add(1)
				go func(s int) {
					defer wg.Done()
					for _, m := range plan[s] {
						if s%2 == 0 {
							mms.SendMessage(m)
						} else {
							(&singleMessageSender{connection: wr}).SendMessage(m)
						}
						runtime.Gosched()
					}
				}(s)
			}
			if real {
				go func() { wg.Wait(); wr.Close() }()
				panicked = verifkit.Catch(func() { readAll(rd) })
				rd.Close()
				wg.Wait()
			} else {
				wg.Wait()
				mem.in = bytes.NewReader(mem.out.Bytes())
				mem.yield = false
				panicked = verifkit.Catch(func() { readAll(mem) })
			}
		})
		if v == verifkit.Stuck {
			r.Violation("stuck", "concurrent sending or receiving never finished", rep)
			return
		} else if v != verifkit.Completed {
			r.Inconclusive(fmt.Sprintf("case %d did not complete: %v", c, v))
			return
		}
		if panicked != "" {
			r.Violation("panic", "receiving from concurrent senders panicked: "+panicked, c)
			return
		}
		next := make([]int, senders)
		for i, m := range got {
			o, ok := owner[vKey(m)]
			if !ok {
				r.Violation("corrupted", fmt.Sprintf("message %d received (%T) is not one that was sent", i, m), verifkit.Short(m.String(), 2000))
				return
			}
			if o.Seq != next[o.Sender] {
				r.Violation("order", fmt.Sprintf("message %d of sender %d received, expected its message %d", o.Seq, o.Sender, next[o.Sender]), c)
				return
			}
			next[o.Sender]++
		}
		if len(got) != total {
			r.Violation("lost", fmt.Sprintf("%d of %d messages received, then %v", len(got), total, rerr), c)
			return
		}
		r.Count("messages", int64(total))
		r.Count("senders", int64(senders))
		r.Eval(fmt.Sprintf("%d/%d/%v/%s", senders, per, real, vKey(got[0])), true)
	}
	r.Require("messages", 500)
}

// Every message of a connection reaches exactly the handler of its type, once, until the connection ends.
func TestVerif_C08_dispatch(t *testing.T) {
	r := verifkit.Start(t, "C08", "dispatch")
	defer r.Finish()
	for c := 0; c < r.N(200, 3000) && !r.Failed(); c++ {
		rng := r.Rand(c)
		out := &vConn{}
		want := map[string]int{}
		n := 1 + rng.Intn(30)
		for k := 0; k < n; k++ {
			m := vMessage(rng, rng.Intn(vKinds))
			if q, ok := m.(*QueueChunkRequest); ok && len(q.SampleLow) > 500 {
				q.SampleLow, q.SampleHigh = nil, q.SampleHigh[:50]
			}
			if err := sendWire(m, out); err != nil {
				r.Violation("send-failed", err.Error(), m.String())
				return
			}
			want[reflect.TypeOf(m).Elem().Name()+"|"+vKey(m)]++
		}
		in := &vConn{in: bytes.NewReader(out.out.Bytes()), cut: func() int { return 1 + rng.Intn(3000) }}
		h := &vRecorder{}
		v, rep := verifkit.Bounded(60*time.Second, func() { handleConnection(in, TypedPackageHandler{TypedPackageHandlerInterface: h}) })
		if v == verifkit.Panicked || v == verifkit.Stuck {
			r.Violation("connection-loop", "handling a connection did not return: "+rep.Panic, rep)
			return
		}
		if v != verifkit.Completed {
			r.Inconclusive("handling a connection did not return")
			return
		}
		all := verifkit.Eventually(30*time.Second, func() bool { h.mu.Lock(); defer h.mu.Unlock(); return len(h.got) >= n })
		time.Sleep(200 * time.Microsecond)
		h.mu.Lock()
		got := append([]string{}, h.got...)
		h.mu.Unlock()
		for _, g := range got {
			want[g]--
		}
		for k, d := range want {
			if d != 0 {
				if d > 0 && !all {
					// handlers run in their own goroutines: only a missing goroutine proves the loss
					if runtime.NumGoroutine() > 30 {
						r.Inconclusive("handlers still running")
						return
					}
				}
				r.Violation("misdispatched", fmt.Sprintf("handler %s: sent minus handled = %d", k[:bytes.IndexByte([]byte(k), '|')], d), vHex([]byte(k)))
				return
			}
		}
		if !in.closed {
			r.Violation("not-closed", "the connection was not closed after it ended", c)
			return
		}
		r.Count("messages", int64(n))
		r.Eval(fmt.Sprintf("%d%v", n, got), true)
	}
}
