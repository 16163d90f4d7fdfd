package comm

import (
	"errors"
	"fmt"
	"net"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/golang/protobuf/proto"
)

// c31Conn is a connection which may fail
type c31Conn struct {
	vConn
	fails error
	after int // bytes it takes before
	wait  func()
	got   int
	mu2   sync.Mutex
}

func (c *c31Conn) Write(b []byte) (int, error) {
	c.wait()
	c.mu2.Lock()
	defer c.mu2.Unlock()
	if c.fails == nil {
		c.got += len(b)
		return len(b), nil
	}
	if c.got+len(b) <= c.after {
		c.got += len(b)
		return len(b), nil
	}
	n := c.after - c.got
	if n < 0 {
		n = 0
	}
	c.got += n
	return n, c.fails
}

var c31Number = regexp.MustCompile(`\d+ clients?\b`)

// what a broadcast returns tells how many receivers, and how each of them, could not be sent to
func TestVerif_C31_broadcasts(t *testing.T) {
	k := verifkit.Start(t, "C31", "broadcasts")
	defer k.Finish()
	for i := 0; i < k.N(1500, 40000) && !k.Failed(); i++ {
		rng := k.Rand(i)
		mms := &multiMessageSender{connections: make([]net.Conn, 0), channels: make(map[net.Conn][]Channel)}
		n := []int{0, 1, 2, 3, 5, 12, 40}[rng.Intn(7)]
		type peer struct {
			*c31Conn
			audio, meta bool
		}
		var peers []peer
		for j := 0; j < n; j++ {
			c := &c31Conn{wait: func() {}}
			if mode := rng.Intn(4); mode == 1 {
				d := time.Duration(rng.Intn(200)) * time.Microsecond
				c.wait = func() { time.Sleep(d) }
			}
			if rng.Intn(3) == 0 || i%5 == 0 {
				c.fails = fmt.Errorf("failure <%d.%d>", i, j)
				if i%4 == 0 {
					c.fails = fmt.Errorf("failure <%d.%d>", i, rng.Intn(2)) // the same for many
				}
				if rng.Intn(3) == 0 {
					c.after = rng.Intn(8) // less than any message takes
				}
			}
			p := peer{c, rng.Intn(2) == 0, rng.Intn(2) == 0}
			mms.AddConn(c)
			if p.audio {
				mms.Subscribe(c, Channel_AUDIO)
			}
			if p.meta {
				mms.Subscribe(c, Channel_META)
			}
			peers = append(peers, p)
		}
		send := 1 + rng.Intn(3)
		messages := make([]proto.Message, send)
		answers := make([]error, send)
		for j := range messages {
			messages[j] = vMessage(rng, []int{3, 5, 7, 8, 9, 2}[rng.Intn(6)])
		}
		var wg sync.WaitGroup
		for j := range messages {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				answers[j] = mms.SendMessage(messages[j])
			}(j)
		}
		if v, rep := verifkit.Bounded(60*time.Second, wg.Wait); v == verifkit.Stuck {
			k.Violation("hangs", fmt.Sprintf("sending to %d clients, some of which fail, never ends", n), rep)
			return
		} else if v != verifkit.Completed {
			k.Inconclusive("sending did not end")
			return
		}
		for j, m := range messages {
			if _, err := toWire(m); err != nil {
				continue // nothing can be sent at all
			}
			var want []string
			for _, p := range peers {
				to := true
				switch m.(type) {
				case *QueueChunkRequest:
					to = p.audio
				case *SetVolumeRequest:
					to = p.audio || p.meta
				case *ChunkInfo, *NewSongInfo, *PauseInfo:
					to = p.meta
				}
				if to && p.fails != nil {
					want = append(want, p.fails.Error())
				}
			}
			what := fmt.Sprintf("a %T to %d clients (%d messages at once) which fails for %d of them (%q)", m, n, send, len(want), want)
			err := answers[j]
			if err == nil {
				if len(want) > 0 {
					k.Violation("unreported", what+": no error is reported", nil)
					return
				}
				k.Count("without failures", 1)
				k.Eval(what, false)
				continue
			}
			text := err.Error()
			if len(want) == 0 {
				k.Violation("invented", what+": reported is "+text, nil)
				return
			}
			times := make(map[string]int)
			for _, w := range want {
				times[w]++
			}
			for w, n := range times {
				if strings.Count(text, w) != n {
					k.Violation("unreported", fmt.Sprintf("%s: reported is %q", what, text), nil)
					return
				}
			}
			if c := strings.Count(text, "failure <"); c != len(want) {
				k.Violation("invented", fmt.Sprintf("%s: reported is %q", what, text), nil)
				return
			}
			number := c31Number.FindString(text)
			if c, err := strconv.Atoi(strings.Split(number+" ", " ")[0]); err != nil || c != len(want) {
				k.Violation("number", fmt.Sprintf("%s: the number of clients reported is %q in %q", what, number, text), nil)
				return
			}
			k.Count("failures", int64(len(want)))
			k.Eval(what, true)
		}
	}
	k.Require("failures", 500)
}

// what one client is sent fails or not by itself
func TestVerif_C31_single(t *testing.T) {
	k := verifkit.Start(t, "C31", "single")
	defer k.Finish()
	for i := 0; i < k.N(2000, 40000) && !k.Failed(); i++ {
		rng := k.Rand(i)
		c := &c31Conn{wait: func() {}}
		m := vMessage(rng, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}[rng.Intn(10)])
		w, err := toWire(m)
		if err != nil {
			continue
		}
		fails := rng.Intn(2) == 0
		if fails {
			c.fails, c.after = errors.New("failure <>"), rng.Intn(len(w))
		}
		var got error
		if p := verifkit.Catch(func() { got = (&singleMessageSender{c}).SendMessage(m) }); p != "" {
			k.Violation("panic", p, nil)
			return
		}
		if fails != (got != nil) || got != nil && !strings.Contains(got.Error(), "failure <>") {
			k.Violation("unreported", fmt.Sprintf("sending %T to a client which takes %d of %d bytes (fails: %v) reports %v", m, c.after, len(w), fails, got), nil)
			return
		}
		if !fails && c.got != len(w) {
			k.Violation("unreported", fmt.Sprintf("sending %T: %d of %d bytes are sent", m, c.got, len(w)), nil)
			return
		}
		k.Eval(fmt.Sprint(i), fails)
	}
}
