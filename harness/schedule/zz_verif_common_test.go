package schedule

import (
	"math/rand"
	"os"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/metadata"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/golang/protobuf/proto"
)

func TestMain(m *testing.M) {
	log.DefaultCutoffLevel = log.LevelOff
	os.Exit(m.Run())
}

// a server whose playlist is not streamed
func vState(songs []string) *serverState {
	return &serverState{
		playlist:         playback.NewPlaylist(44100, append([]string{}, songs...), 0),
		lyricsProvider:   metadata.GetLyricsProvider(),
		metadataProvider: metadata.GetProvider(),
		pauses:           make([]*comm.PauseInfo, 0),
		volume:           0.1,
	}
}

// vHub stands in for the connections of a server: a broadcast reaches the
// clients subscribed at that moment, each after a delay of its own.
type vHub struct {
	mu      sync.Mutex
	clients []*vClient
	delay   func() // before each delivery
	sent    []proto.Message
}

type vClient struct {
	mu       sync.Mutex
	channels map[comm.Channel]bool
	got      []proto.Message
	hub      *vHub
}

func vChannels(m proto.Message) []comm.Channel {
	switch m.(type) {
	case *comm.QueueChunkRequest:
		return []comm.Channel{comm.Channel_AUDIO}
	case *comm.SetVolumeRequest:
		return []comm.Channel{comm.Channel_AUDIO, comm.Channel_META}
	case *comm.ChunkInfo, *comm.NewSongInfo, *comm.PauseInfo:
		return []comm.Channel{comm.Channel_META}
	}
	return nil
}

func (h *vHub) SendMessage(m proto.Message) error {
	h.mu.Lock()
	h.sent = append(h.sent, m)
	var to []*vClient
	for _, c := range h.clients {
		for _, ch := range vChannels(m) {
			if c.channels[ch] {
				to = append(to, c)
				break
			}
		}
	}
	h.mu.Unlock()
	var wg sync.WaitGroup
	for _, c := range to {
		wg.Add(1)
		go func(c *vClient) {
			defer wg.Done()
			c.SendMessage(m)
		}(c)
	}
	wg.Wait()
	return nil
}

// SendMessage sends to this client only
func (c *vClient) SendMessage(m proto.Message) error {
	if c.hub.delay != nil {
		c.hub.delay()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.got = append(c.got, proto.Clone(m))
	return nil
}

func (c *vClient) received() []proto.Message {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]proto.Message{}, c.got...)
}

// join connects a client and subscribes it as the server does
func (h *vHub) join(handler func(comm.Channel, comm.MessageSender), chs ...comm.Channel) *vClient {
	c := &vClient{channels: map[comm.Channel]bool{}, hub: h}
	h.mu.Lock()
	h.clients = append(h.clients, c)
	h.mu.Unlock()
	for _, ch := range chs {
		h.mu.Lock()
		c.channels[ch] = true
		h.mu.Unlock()
		handler(ch, c)
	}
	return c
}

// vDelays makes schedules: yields and short sleeps
func vDelays(rng *rand.Rand) func() {
	kind := rng.Intn(4)
	var mu sync.Mutex
	return func() {
		mu.Lock()
		n := rng.Intn(100)
		mu.Unlock()
		switch {
		case kind == 0:
		case kind == 1 || n < 70:
			for ; n > 0; n -= 10 {
				runtime.Gosched()
			}
		case n < 97:
			time.Sleep(time.Duration(n) * time.Microsecond)
		default:
			time.Sleep(2 * time.Millisecond)
		}
	}
}
