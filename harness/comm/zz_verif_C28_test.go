package comm

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/golang/protobuf/proto"
)

type c28Case struct {
	Seed        int64
	First, Then int
}

type c28Answer struct {
	Problem string
	Count   map[string]int64
	Usage   []verifkit.Usage
}

func TestVerifChild_C28clients(t *testing.T) {
	var c c28Case
	verifkit.ChildArgs(t, &c)
	log.DefaultCutoffLevel = log.LevelOff
	ans := c28Answer{Count: map[string]int64{}}
	defer func() { verifkit.ChildDone(ans) }()
	SetNewClientHandler(func(ch Channel, s MessageSender) { s.SendMessage(&SetVolumeRequest{Volume: 0.5}) })
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		ans.Problem = "INCONCLUSIVE: " + err.Error()
		return
	}
	addr := l.Addr().String()
	l.Close()
	sender, err := StartServer(addr)
	if err != nil {
		ans.Problem = "INCONCLUSIVE: " + err.Error()
		return
	}
	rng := rand.New(rand.NewSource(c.Seed))
	var mu sync.Mutex
	count := func(s string) { mu.Lock(); ans.Count[s]++; mu.Unlock() }
	chunk := &QueueChunkRequest{SampleLow: make([]float64, 5000), SampleHigh: make([]float64, 5000)}
	for i := range chunk.SampleLow {
		chunk.SampleLow[i], chunk.SampleHigh[i] = rng.Float64(), rng.Float64()
	}
	serve := func(n int) {
		stop := make(chan struct{})
		var bg sync.WaitGroup
		bg.Add(1)
		go func() {
			defer bg.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Millisecond):
					bg.Add(1)
					go func() { defer bg.Done(); sender.SendMessage(chunk) }()
				}
			}
		}()
		sem := make(chan struct{}, 20)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			sem <- struct{}{}
			wg.Add(1)
			go func(rng *rand.Rand) {
				defer func() { <-sem; wg.Done() }()
				conn, err := net.Dial("tcp", addr)
				if err != nil {
					count("refused connections")
					return
				}
				defer conn.Close()
				send := func(m proto.Message) { sendWire(m, conn) }
				for j := rng.Intn(3); j > 0; j-- {
					send(&SubscribeChannelRequest{Channel: Channel(rng.Intn(3))})
				}
				kind := []string{"leaving at once", "reading", "not reading", "sending garbage", "sending half a message", "resetting", "asking", "closing its side only"}[rng.Intn(8)]
				count("clients " + kind)
				switch kind {
				case "reading":
					conn.SetReadDeadline(time.Now().Add(time.Duration(rng.Intn(20)) * time.Millisecond))
					b := make([]byte, 1<<16)
					for {
						if _, err := conn.Read(b); err != nil {
							break
						}
					}
				case "not reading":
					send(&SubscribeChannelRequest{Channel: Channel_AUDIO})
					time.Sleep(time.Duration(rng.Intn(60)) * time.Millisecond)
				case "sending garbage":
					b := make([]byte, rng.Intn(100))
					rng.Read(b)
					conn.Write(b)
				case "sending half a message":
					conn.Write([]byte{0, 0, 0, 0, 0, 0, 1, 0, 5, 5})
				case "resetting":
					conn.(*net.TCPConn).SetLinger(0)
				case "asking":
					for j := 0; j < 20; j++ {
						send(&TimeSyncRequest{})
						send(&PingMessage{})
					}
				case "closing its side only":
					conn.(*net.TCPConn).CloseWrite()
					time.Sleep(time.Duration(rng.Intn(5)) * time.Millisecond)
				}
			}(rand.New(rand.NewSource(rng.Int63())))
		}
		wg.Wait()
		close(stop)
		bg.Wait()
	}
	base := verifkit.Measure()
	marks := []verifkit.Usage{}
	total := 0
	for _, n := range []int{c.First, c.Then} {
		serve(n)
		total += n
		what := ""
		if !verifkit.Eventually(90*time.Second, func() bool {
			what = base.Grown(verifkit.Measure(), 0, 0, 1<<40)
			return what == ""
		}) {
			ans.Problem = fmt.Sprintf("after %d clients came and left, %s", total, what)
			return
		}
		if err := sender.SendMessage(chunk); err != nil {
			ans.Problem = fmt.Sprintf("after %d clients came and left, messages are still sent to some: %v", total, err)
			return
		}
		marks = append(marks, verifkit.Measure())
	}
	ans.Usage = marks
	if s := marks[0].Grown(marks[1], 0, 0, int64(c.Then)/2); s != "" {
		ans.Problem = fmt.Sprintf("serving %d more clients after %d: %s", c.Then, c.First, s)
	}
}

func TestVerif_C28_clients(t *testing.T) {
	k := verifkit.Start(t, "C28", "clients")
	defer k.Finish()
	for i := 0; i < k.N(2, 12) && !k.Failed(); i++ {
		rng := k.Rand(i)
		c := c28Case{rng.Int63(), 500, 1500 * k.N(1, 4)}
		var ans c28Answer
		res := verifkit.RunChild("C28clients", c, 10*time.Minute)
		if !k.Judge(res, c, &ans) {
			return
		}
		for n, v := range ans.Count {
			k.Count(n, v)
		}
		if len(ans.Problem) > 12 && ans.Problem[:12] == "INCONCLUSIVE" {
			k.Inconclusive(ans.Problem)
			return
		}
		if ans.Problem != "" {
			k.Violation("leak", ans.Problem, c)
			return
		}
		k.Max("objects held in the end", ans.Usage[1].Objects)
		k.Eval(fmt.Sprint(c), true)
		k.Sample(c)
	}
	k.Require("clients not reading", 100)
	k.Require("clients leaving at once", 100)
}
