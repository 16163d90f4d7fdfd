package comm

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/golang/protobuf/proto"
)

// message kinds with an id, and the channels they belong to (the specification)
func c10Make(kind int, id int64) proto.Message {
	switch kind {
	case 0:
		return &QueueChunkRequest{ChunkId: id}
	case 1:
		return &SetVolumeRequest{Volume: float64(id)}
	case 2:
		return &ChunkInfo{StartTime: id}
	case 3:
		return &NewSongInfo{SongLength: id}
	case 4:
		return &PauseInfo{ToggleSampleIndex: uint64(id)}
	}
	return &TimeSyncResponse{ClientSendTime: id}
}

func c10ID(m proto.Message) int64 {
	switch m := m.(type) {
	case *QueueChunkRequest:
		return m.ChunkId
	case *SetVolumeRequest:
		return int64(m.Volume)
	case *ChunkInfo:
		return m.StartTime
	case *NewSongInfo:
		return m.SongLength
	case *PauseInfo:
		return int64(m.ToggleSampleIndex)
	case *TimeSyncResponse:
		return m.ClientSendTime
	}
	return -1
}

func c10For(kind int, audio, meta bool) bool {
	switch kind {
	case 0:
		return audio
	case 1:
		return audio || meta
	case 2, 3, 4:
		return meta
	}
	return true
}

type c10Bcast struct {
	Kind      int
	Call, Ret int64
	Err       string
}

type c10ClientLog struct {
	Name                string
	ConnAt, ConnBy      int64    // dial begun; known to be connected
	SubAt, SubBy        [2]int64 // subscription sent; known to be effective (0: never)
	EndAt               int64    // disconnect begun (0: at the end)
	Got                 map[int64]int
	Err                 string
	DialFailed, Abandon bool
	Markers             int
}

type c10Case struct {
	Seed    int64
	Clients int
	Msgs    int
	Rude    bool // some clients reset their connections or send garbage
}

type c10Answer struct {
	Problem, Inconclusive      string
	Clients, Bcasts, Delivered int
	MustHave, MustNot, Either  int
	Witness                    interface{}
}

const c10MarkerBase = 1 << 40

func TestVerifChild_C10(t *testing.T) {
	var c c10Case
	verifkit.ChildArgs(t, &c)
	rng := rand.New(rand.NewSource(c.Seed))
	var a c10Answer
	var clk verifkit.Clock
	// the marker a subscriber gets tells that its subscription is effective
	NewClientHandler = func(ch Channel, s MessageSender) {
		if ch >= 0 {
			s.SendMessage(&SetVolumeRequest{Volume: float64(c10MarkerBase + int64(ch))})
		}
	}
	sender, addr := vServer()

	var mu sync.Mutex
	var bc = map[int64]c10Bcast{}
	var logs []*c10ClientLog
	var wg sync.WaitGroup
	stop := make(chan struct{})
	seeds := make([]int64, c.Clients)
	for i := range seeds {
		seeds[i] = rng.Int63()
	}
	pause := func(rng *rand.Rand) {
		switch rng.Intn(3) {
		case 0:
			time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
		case 1:
			time.Sleep(time.Duration(rng.Intn(200)) * time.Microsecond)
		}
	}
	client := func(name string, rng *rand.Rand) {
		l := &c10ClientLog{Name: name, Got: map[int64]int{}}
		l.ConnAt = clk.Tick()
		cl := vDial(addr)
		mu.Lock()
		logs = append(logs, l)
		mu.Unlock()
		defer func() {
			for _, m := range cl.log() {
				if v, ok := m.(*SetVolumeRequest); ok && v.Volume >= c10MarkerBase {
					l.Markers++
					continue
				}
				if _, ok := m.(*PongMessage); ok {
					continue
				}
				l.Got[c10ID(m)]++
			}
		}()
		if !cl.ping(90 * time.Second) {
			l.Abandon = true
			return
		}
		l.ConnBy = clk.Tick()
		order := [][]Channel{{}, {0}, {1}, {0, 1}, {1, 0}, {0, 0}, {1, 1, 0}, {7}}[rng.Intn(8)]
		markers := 0
		for _, ch := range order {
			pause(rng)
			if ch < 2 && l.SubAt[ch] == 0 {
				l.SubAt[ch] = clk.Tick()
			}
			cl.send(&SubscribeChannelRequest{Channel: ch})
			markers++
			if !cl.wait(90*time.Second, func(got []proto.Message) bool {
				n := 0
				for _, m := range got {
					if v, ok := m.(*SetVolumeRequest); ok && v.Volume >= c10MarkerBase {
						n++
					}
				}
				return n >= markers
			}) {
				l.Abandon = true
				return
			}
			if ch < 2 && l.SubBy[ch] == 0 {
				l.SubBy[ch] = clk.Tick()
			}
		}
		if rng.Intn(2) == 0 {
			select {
			case <-stop:
			case <-time.After(time.Duration(rng.Intn(8000)) * time.Microsecond):
			}
			l.EndAt = clk.Tick()
			if c.Rude {
				switch rng.Intn(3) {
				case 0:
					cl.conn.(*net.TCPConn).SetLinger(0)
				case 1:
					cl.conn.Write(vJunk)
				}
			}
			cl.conn.Close()
			return
		}
		<-stop
		// a last round trip: everything written to the connection before is read before its answer
		if !cl.ping(90 * time.Second) {
			cl.mu.Lock()
			l.Err = fmt.Sprint(cl.err)
			cl.mu.Unlock()
		}
	}
	for i := 0; i < c.Clients; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seeds[i]))
			for k := 0; k < 1+r.Intn(3); k++ {
				pause(r)
				client(fmt.Sprintf("%d.%d", i, k), r)
			}
		}(i)
	}
	var bw sync.WaitGroup
	for b := 0; b < 3; b++ {
		bw.Add(1)
		go func(b int) {
			defer bw.Done()
			r := rand.New(rand.NewSource(c.Seed + int64(b) + 1))
			for k := 0; k < c.Msgs; k++ {
				id := int64(b*1000000 + k + 1)
				x := c10Bcast{Kind: r.Intn(6)}
				x.Call = clk.Tick()
				if err := sender.SendMessage(c10Make(x.Kind, id)); err != nil {
					x.Err = err.Error()
				}
				x.Ret = clk.Tick()
				mu.Lock()
				bc[id] = x
				mu.Unlock()
				pause(r)
			}
		}(b)
	}
	fin := make(chan struct{})
	go func() { bw.Wait(); close(stop); wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(150 * time.Second):
		a.Inconclusive = "the workload did not finish"
		a.Witness = verifkit.Short(verifkit.AllStacks(), 6000)
		verifkit.ChildDone(a)
	}
	a.Bcasts = len(bc)
	for _, l := range logs {
		if l.Abandon {
			a.Inconclusive = "client " + l.Name + " was not served"
			continue
		}
		a.Clients++
		for id := range l.Got {
			if _, ok := bc[id]; !ok && a.Problem == "" {
				a.Problem = fmt.Sprintf("client %s received a message (id %d) nobody sent", l.Name, id)
			}
		}
		for id, x := range bc {
			n := l.Got[id]
			a.Delivered += n
			if n > 1 && a.Problem == "" {
				a.Problem = fmt.Sprintf("client %s received message %d (kind %d) %d times", l.Name, id, x.Kind, n)
			}
			may := func(at, before int64) bool { return at != 0 && x.Ret > at }
			// possibly subscribed at some moment of the broadcast
			can := c10For(x.Kind, may(l.SubAt[0], 0), may(l.SubAt[1], 0)) && x.Ret > l.ConnAt
			// certainly connected and subscribed during all of the broadcast
			by := func(t int64) bool { return t != 0 && t < x.Call }
			must := by(l.ConnBy) && c10For(x.Kind, by(l.SubBy[0]), by(l.SubBy[1])) && l.EndAt == 0 && l.Err == ""
			if !can && n > 0 && a.Problem == "" {
				a.Problem = fmt.Sprintf("client %s received message %d (kind %d) which is not for its channels", l.Name, id, x.Kind)
			}
			if must && n == 0 && a.Problem == "" {
				a.Problem = fmt.Sprintf("client %s did not receive message %d (kind %d, broadcast error %q)", l.Name, id, x.Kind, x.Err)
			}
			switch {
			case must:
				a.MustHave++
			case !can:
				a.MustNot++
			default:
				a.Either++
			}
			if a.Problem != "" && a.Witness == nil {
				a.Witness = map[string]interface{}{"client": l, "broadcast": x}
			}
		}
		if l.Err != "" && a.Problem == "" {
			a.Problem = fmt.Sprintf("client %s lost its connection: %s", l.Name, l.Err)
		}
	}
	verifkit.ChildDone(a)
}

var vJunk = []byte("\x05\x00\x00\x00\x00\x00\x00\x00hello, garbage")

func TestVerif_C10_routing(t *testing.T) {
	r := verifkit.Start(t, "C10", "routing")
	defer r.Finish()
	n := r.N(40, 600)
	type ans struct {
		c c10Case
		a c10Answer
	}
	var wg sync.WaitGroup
	ch := make(chan c10Case)
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range ch {
				if r.Failed() {
					continue
				}
				var a c10Answer
				if !r.Judge(verifkit.RunChild("C10", c, 200*time.Second), c, &a) {
					continue
				}
				if a.Problem != "" {
					r.Violation("routing", a.Problem, map[string]interface{}{"case": c, "witness": a.Witness})
					continue
				}
				if a.Inconclusive != "" {
					r.Inconclusive(fmt.Sprintf("%+v: %s %v", c, a.Inconclusive, a.Witness))
					continue
				}
				r.Count("clients", int64(a.Clients))
				r.Count("broadcasts", int64(a.Bcasts))
				r.Count("deliveries", int64(a.Delivered))
				r.Count("pairs_must_receive", int64(a.MustHave))
				r.Count("pairs_must_not_receive", int64(a.MustNot))
				r.Count("pairs_in_transition", int64(a.Either))
				r.Eval(fmt.Sprintf("%+v", c), a.MustHave > 0 && a.MustNot > 0)
				r.Sample(map[string]interface{}{"case": c, "observed": a})
			}
		}()
	}
	for i := 0; i < n; i++ {
		rng := r.Rand(i)
		ch <- c10Case{Seed: rng.Int63(), Clients: 1 + rng.Intn(16), Msgs: 20 + rng.Intn(100), Rude: i%2 == 0}
	}
	close(ch)
	wg.Wait()
	if !r.Failed() {
		r.Require("pairs_must_receive", 1000)
	}
}

// c10Fail is a client whose connection fails in some way.
type c10Fail struct {
	vConn
	mode int
	n    int
}

func (f *c10Fail) Write(b []byte) (int, error) {
	f.mu.Lock()
	f.n++
	n := f.n
	f.mu.Unlock()
	switch f.mode {
	case 1:
		return 0, fmt.Errorf("broken pipe")
	case 2:
		return len(b) / 2, fmt.Errorf("reset")
	case 3:
		if n%2 == 0 {
			return 0, fmt.Errorf("timeout")
		}
	}
	return f.vConn.Write(b)
}

// Failing clients: the others receive, and the sender is told.
func TestVerif_C10_failing(t *testing.T) {
	r := verifkit.Start(t, "C10", "failing-clients")
	defer r.Finish()
	for c := 0; c < r.N(1500, 20000) && !r.Failed(); c++ {
		rng := r.Rand(c)
		mms := &multiMessageSender{connections: make([]net.Conn, 0), channels: make(map[net.Conn][]Channel)}
		n := rng.Intn(9)
		conns := make([]*c10Fail, n)
		audio, meta := make([]bool, n), make([]bool, n)
		present := make([]bool, n)
		bad := 0
		add := func(i int) {
			mms.AddConn(conns[i])
			present[i] = true
			audio[i], meta[i] = false, false
			for k := rng.Intn(4); k > 0; k-- {
				if rng.Intn(2) == 0 {
					mms.Subscribe(conns[i], Channel_AUDIO)
					audio[i] = true
				} else {
					mms.Subscribe(conns[i], Channel_META)
					meta[i] = true
				}
			}
		}
		for i := range conns {
			conns[i] = &c10Fail{mode: []int{0, 0, 0, 1, 2, 3}[rng.Intn(6)]}
			add(i)
		}
		for k := 0; k < 8; k++ {
			if n > 0 && rng.Intn(2) == 0 {
				i := rng.Intn(n)
				if present[i] {
					mms.DelConn(conns[i])
					present[i] = false
				} else {
					add(i)
				}
			}
			kind := rng.Intn(6)
			m := c10Make(kind, int64(k+1))
			wire, _ := toWire(m)
			before := make([]int, n)
			tries := make([]int, n)
			for i, f := range conns {
				before[i], tries[i] = f.out.Len(), f.n
			}
			var err error
			v, rep := verifkit.Bounded(60*time.Second, func() { err = mms.SendMessage(m) })
			if v == verifkit.Panicked || v == verifkit.Stuck {
				r.Violation("send", fmt.Sprintf("broadcasting with failing clients did not return: %s", rep.Panic), rep)
				return
			} else if v != verifkit.Completed {
				r.Inconclusive("broadcast did not return")
				return
			}
			failed := false
			for i, f := range conns {
				should := present[i] && c10For(kind, audio[i], meta[i])
				wrote := f.out.Len() - before[i]
				want := 0
				if should {
					want = len(wire)
				}
				fails := f.mode == 1 || f.mode == 2 || f.mode == 3 && (tries[i]+1)%2 == 0
				if should && fails {
					failed = true
					bad++
					continue
				}
				if wrote != want {
					r.Violation("not-delivered", fmt.Sprintf("a client (present %v, audio %v, meta %v) got %d bytes of a message of kind %d, want %d", present[i], audio[i], meta[i], wrote, kind, want), fmt.Sprintf("case %d", c))
					return
				}
				r.Count("deliveries_checked", 1)
			}
			if failed != (err != nil) {
				r.Violation("error", fmt.Sprintf("sending failed for a client: %v, error returned: %v", failed, err), fmt.Sprintf("case %d", c))
				return
			}
			r.Eval(fmt.Sprintf("%d/%d/%d/%v", c, n, kind, failed), n > 0)
		}
	}
	r.Require("deliveries_checked", 1000)
}
