package comm

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/golang/protobuf/proto"
)

func TestMain(m *testing.M) {
	log.DefaultCutoffLevel = log.LevelOff
	os.Exit(m.Run())
}

// vKey identifies a message by type and content (bitwise for samples).
func vKey(m proto.Message) string {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	return proto.MessageName(m) + "|" + string(b)
}

func vFloat(rng *rand.Rand) float64 {
	switch rng.Intn(9) {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(1)
	case 2:
		return math.Inf(-1)
	case 3:
		return math.Copysign(0, -1)
	case 4:
		return math.SmallestNonzeroFloat64
	case 5:
		return 0
	case 6:
		return math.Float64frombits(rng.Uint64())
	}
	return rng.Float64()*2 - 1
}

func vInt(rng *rand.Rand) int64 {
	switch rng.Intn(6) {
	case 0:
		return 0
	case 1:
		return -1
	case 2:
		return math.MaxInt64
	case 3:
		return math.MinInt64
	case 4:
		return int64(rng.Intn(1000))
	}
	return int64(rng.Uint64())
}

func vString(rng *rand.Rand) string {
	n := rng.Intn(12)
	if rng.Intn(10) == 0 {
		n = rng.Intn(3000)
	}
	r := make([]rune, n)
	for i := range r {
		switch rng.Intn(5) {
		case 0:
			r[i] = rune(rng.Intn(32))
		case 1:
			r[i] = rune(0x80 + rng.Intn(0x700))
		case 2:
			r[i] = rune(0x10000 + rng.Intn(0x1000))
		default:
			r[i] = rune(32 + rng.Intn(95))
		}
	}
	return string(r)
}

func vSize(rng *rand.Rand) int {
	switch rng.Intn(8) {
	case 0:
		return 0
	case 1, 2, 3:
		return rng.Intn(5)
	case 4:
		return 60000 + rng.Intn(20000)
	case 5:
		return 1 << uint(rng.Intn(14))
	}
	return rng.Intn(600)
}

const vKinds = 10

// vMessage makes a message of one of the ten types.
func vMessage(rng *rand.Rand, kind int) proto.Message {
	switch kind {
	case 0:
		return &TimeSyncRequest{ClientSend: vInt(rng)}
	case 1:
		return &TimeSyncResponse{ClientSendTime: vInt(rng), ServerRecvTime: vInt(rng), ServerSendTime: vInt(rng)}
	case 2:
		n := vSize(rng)
		m := &QueueChunkRequest{StartTime: vInt(rng), ChunkId: vInt(rng), FirstSampleIndex: uint64(vInt(rng)), SampleLow: make([]float64, n), SampleHigh: make([]float64, n)}
		mode := rng.Intn(3)
		for i := range m.SampleLow {
			switch mode {
			case 0:
				m.SampleLow[i], m.SampleHigh[i] = math.NaN(), math.NaN()
			case 1:
				m.SampleLow[i], m.SampleHigh[i] = vFloat(rng), vFloat(rng)
			case 2:
				m.SampleLow[i], m.SampleHigh[i] = rng.Float64()*2-1, rng.Float64()*2-1
			}
		}
		if rng.Intn(10) == 0 {
			m.SampleHigh = m.SampleHigh[:rng.Intn(n+1)]
		}
		return m
	case 3:
		return &PingMessage{}
	case 4:
		return &PongMessage{}
	case 5:
		return &SetVolumeRequest{Volume: vFloat(rng)}
	case 6:
		return &SubscribeChannelRequest{Channel: Channel(rng.Intn(4) - 1)}
	case 7:
		m := &NewSongInfo{FirstSampleOfSongIndex: uint64(vInt(rng)), SongFileName: vString(rng), SongLength: vInt(rng)}
		if rng.Intn(2) == 0 {
			m.Metadata = &NewSongInfo_SongMetadata{Title: vString(rng), Artist: vString(rng), Album: vString(rng)}
		}
		for l := rng.Intn(5); l > 0; l-- {
			line := &NewSongInfo_SongLyricsLine{}
			for a := rng.Intn(4); a > 0; a-- {
				line.Atoms = append(line.Atoms, &NewSongInfo_SongLyricsAtom{Timestamp: vInt(rng), Caption: vString(rng)})
			}
			m.Lyrics = append(m.Lyrics, line)
		}
		return m
	case 8:
		return &ChunkInfo{StartTime: vInt(rng), FirstSampleIndex: uint64(vInt(rng)), ChunkSize: uint64(vInt(rng))}
	}
	return &PauseInfo{Playing: rng.Intn(2) == 0, ToggleSampleIndex: uint64(vInt(rng))}
}

// vConn is a connection in memory: reads are cut into pieces, writes may be
// short (only with one sender) and let other goroutines run in between.
type vConn struct {
	mu       sync.Mutex
	in       *bytes.Reader
	out      bytes.Buffer
	cut      func() int // size of the next piece read
	short    func() int // size of the next piece written (nil: all)
	yield    bool
	writes   int
	closed   bool
	endError error
}

type vAddr struct{}

func (vAddr) Network() string { return "mem" }
func (vAddr) String() string  { return "mem" }

func (c *vConn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, io.ErrClosedPipe
	}
	if c.cut != nil && len(b) > 0 {
		n := c.cut()
		if n < 1 {
			n = 1
		}
		if n < len(b) {
			b = b[:n]
		}
	}
	n, err := c.in.Read(b)
	if err == io.EOF && c.endError != nil {
		err = c.endError
	}
	return n, err
}

func (c *vConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	if c.short != nil {
		n := c.short()
		if n < 1 {
			n = 1
		}
		if n < len(b) {
			b = b[:n]
		}
	}
	c.writes++
	n, err := c.out.Write(b)
	c.mu.Unlock()
	if c.yield {
		runtime.Gosched()
		time.Sleep(time.Microsecond)
	}
	return n, err
}
func (c *vConn) Close() error                       { c.mu.Lock(); c.closed = true; c.mu.Unlock(); return nil }
func (c *vConn) LocalAddr() net.Addr                { return vAddr{} }
func (c *vConn) RemoteAddr() net.Addr               { return vAddr{} }
func (c *vConn) SetDeadline(t time.Time) error      { return nil }
func (c *vConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vConn) SetWriteDeadline(t time.Time) error { return nil }

// vServer starts a real server on a free port.
func vServer() (MessageSender, string) {
	for i := 0; i < 50; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		addr := l.Addr().String()
		l.Close()
		if s, err := StartServer(addr); err == nil {
			return s, addr
		}
	}
	panic("no free port")
}

// vClient is a client which reads everything into a channel-less log.
type vClient struct {
	conn net.Conn
	mu   sync.Mutex
	cond *sync.Cond
	got  []proto.Message
	err  error
}

func vDial(addr string) *vClient {
	var conn net.Conn
	var err error
	for i := 0; i < 100; i++ {
		if conn, err = net.Dial("tcp", addr); err == nil {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if err != nil {
		panic(err)
	}
	c := &vClient{conn: conn}
	c.cond = sync.NewCond(&c.mu)
	go func() {
		for {
			m, err := readWire(conn)
			c.mu.Lock()
			if err != nil {
				c.err = err
				c.cond.Broadcast()
				c.mu.Unlock()
				return
			}
			c.got = append(c.got, m)
			c.cond.Broadcast()
			c.mu.Unlock()
		}
	}()
	return c
}

// wait until cond (called with the lock held) is true; false if patience ran out or the connection ended.
func (c *vClient) wait(patience time.Duration, cond func(got []proto.Message) bool) bool {
	expired := false
	t := time.AfterFunc(patience, func() { c.mu.Lock(); expired = true; c.cond.Broadcast(); c.mu.Unlock() })
	defer t.Stop()
	c.mu.Lock()
	defer c.mu.Unlock()
	for !cond(c.got) {
		if expired || c.err != nil {
			return false
		}
		c.cond.Wait()
	}
	return true
}

func (c *vClient) log() []proto.Message {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]proto.Message{}, c.got...)
}

func (c *vClient) send(m proto.Message) error { return sendWire(m, c.conn) }

func (c *vClient) pongs() int {
	n := 0
	for _, m := range c.log() {
		if _, ok := m.(*PongMessage); ok {
			n++
		}
	}
	return n
}

// ping waits for one more answer.
func (c *vClient) ping(patience time.Duration) bool {
	before := c.pongs()
	if c.send(&PingMessage{}) != nil {
		return false
	}
	return c.wait(patience, func(got []proto.Message) bool {
		n := 0
		for _, m := range got {
			if _, ok := m.(*PongMessage); ok {
				n++
			}
		}
		return n > before
	})
}

func vHex(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%x...(%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// vRecorder hands every handled message to a log.
type vRecorder struct {
	mu  sync.Mutex
	got []string
	on  map[string]string
}

func (h *vRecorder) rec(fn string, m proto.Message) {
	k := fn + "|" + vKey(m)
	h.mu.Lock()
	h.got = append(h.got, k)
	h.mu.Unlock()
}
func (h *vRecorder) HandleTimeSyncRequest(m *TimeSyncRequest, _ net.Conn) {
	h.rec("TimeSyncRequest", m)
}
func (h *vRecorder) HandleTimeSyncResponse(m *TimeSyncResponse, _ net.Conn) {
	h.rec("TimeSyncResponse", m)
}
func (h *vRecorder) HandleQueueChunkRequest(m *QueueChunkRequest, _ net.Conn) {
	h.rec("QueueChunkRequest", m)
}
func (h *vRecorder) HandlePingMessage(m *PingMessage, _ net.Conn) { h.rec("PingMessage", m) }
func (h *vRecorder) HandlePongMessage(m *PongMessage, _ net.Conn) { h.rec("PongMessage", m) }
func (h *vRecorder) HandleSetVolumeRequest(m *SetVolumeRequest, _ net.Conn) {
	h.rec("SetVolumeRequest", m)
}
func (h *vRecorder) HandleSubscribeChannelRequest(m *SubscribeChannelRequest, _ net.Conn) {
	h.rec("SubscribeChannelRequest", m)
}
func (h *vRecorder) HandleNewSongInfo(m *NewSongInfo, _ net.Conn) { h.rec("NewSongInfo", m) }
func (h *vRecorder) HandleChunkInfo(m *ChunkInfo, _ net.Conn)     { h.rec("ChunkInfo", m) }
func (h *vRecorder) HandlePauseInfo(m *PauseInfo, _ net.Conn)     { h.rec("PauseInfo", m) }
