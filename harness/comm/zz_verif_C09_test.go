package comm

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/golang/protobuf/proto"
)

func c09Zip(b []byte) []byte {
	var o bytes.Buffer
	w := zlib.NewWriter(&o)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

func c09Frame(env []byte) []byte {
	w := make([]byte, 8+len(env))
	binary.LittleEndian.PutUint64(w, uint64(len(env)))
	copy(w[8:], env)
	return w
}

func c09Envelope(typ string, data []byte) []byte {
	e, err := proto.Marshal(&Envelope{Type: typ, Data: data})
	if err != nil { // names which are not text, by hand
		e = append([]byte{0x0a}, proto.EncodeVarint(uint64(len(typ)))...)
		e = append(e, typ...)
		e = append(e, 0x12)
		e = append(e, proto.EncodeVarint(uint64(len(data)))...)
		e = append(e, data...)
	}
	return e
}

var c09Types = []string{"comm.TimeSyncRequest", "comm.TimeSyncResponse", "comm.QueueChunkRequest", "comm.PingMessage", "comm.PongMessage",
	"comm.SetVolumeRequest", "comm.SubscribeChannelRequest", "comm.NewSongInfo", "comm.ChunkInfo", "comm.PauseInfo", "comm.Envelope",
	"comm.NewSongInfo.SongLyricsAtom", "comm.NewSongInfo.SongMetadata", "comm.NewSongInfo.SongLyricsLine"}

var c09OddTypes = []string{"", "x", "comm.", "comm.Nothing", "comm.Channel", "google.protobuf.Any", "google.protobuf.FileDescriptorProto", "comm.PingMessage\x00",
	"\xff\xfe", "*comm.PingMessage", "comm.PingMessage ", strings.Repeat("a", 70000), "google.protobuf.Struct", "google.protobuf.FieldDescriptorProto.Type"}

func c09Junk(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

// c09Bytes makes hostile bytes; tag says what kind; complete says that the bytes
// hold at least one complete frame which is not a message.
func c09Bytes(rng *rand.Rand) (b []byte, tag string, complete bool) {
	inner := func() []byte {
		x, _ := proto.Marshal(vMessage(rng, []int{0, 1, 5, 7, 8, 9}[rng.Intn(6)]))
		return x
	}
	switch k := rng.Intn(14); k {
	case 0:
		return c09Junk(rng, rng.Intn(64)), "junk", false
	case 1: // a correct length, junk inside
		j := c09Junk(rng, rng.Intn(200))
		e := &Envelope{}
		bad := proto.Unmarshal(j, e) != nil || proto.MessageType(e.Type) == nil
		return c09Frame(j), "junk-envelope", bad
	case 2:
		typ := c09OddTypes[rng.Intn(len(c09OddTypes))]
		return c09Frame(c09Envelope(typ, c09Zip(inner()))), "odd-type", proto.MessageType(typ) == nil
	case 3:
		return c09Frame(c09Envelope(c09Types[rng.Intn(len(c09Types))], c09Junk(rng, rng.Intn(100)))), "junk-data", true
	case 4: // data cut short
		z := c09Zip(append(inner(), c09Junk(rng, 40)...))
		return c09Frame(c09Envelope(c09Types[rng.Intn(len(c09Types))], z[:rng.Intn(len(z))])), "cut-data", true
	case 5: // a wrong field inside
		return c09Frame(c09Envelope(c09Types[rng.Intn(len(c09Types))], c09Zip(c09Junk(rng, 1+rng.Intn(60))))), "junk-inner", false
	case 6: // zlib data broken in one byte
		z := c09Zip(append(inner(), inner()...))
		z[rng.Intn(len(z))] ^= 1 << uint(rng.Intn(8))
		return c09Frame(c09Envelope(c09Types[rng.Intn(len(c09Types))], z)), "flipped-data", false
	case 7: // a valid message, one byte changed anywhere
		w, _ := toWire(vMessage(rng, []int{0, 1, 5, 7, 8, 9}[rng.Intn(6)]))
		w[8+rng.Intn(len(w)-8)] ^= 1 << uint(rng.Intn(8))
		return w, "flipped-byte", false
	case 8: // extreme lengths
		w := make([]byte, 8+rng.Intn(20))
		l := []uint64{1<<64 - 1, 1 << 63, 1<<63 - 1, 1<<62 + 5, 1 << 40, 1 << 33, 1<<64 - 9, 1<<31 - 1, 1 << 31, 1 << 32}[rng.Intn(10)]
		binary.LittleEndian.PutUint64(w, l)
		return w, "extreme-length", l > 1<<40
	case 9: // nothing in the envelope
		return c09Frame(nil), "empty-envelope", true
	case 10: // type only
		return c09Frame(c09Envelope(c09Types[rng.Intn(len(c09Types))], nil)), "no-data", true
	case 11: // cut anywhere
		w, _ := toWire(vMessage(rng, []int{0, 1, 5, 7, 8, 9}[rng.Intn(6)]))
		return w[:rng.Intn(len(w))], "cut", false
	case 12: // two messages glued with the wrong length of the first
		w, _ := toWire(vMessage(rng, 7))
		binary.LittleEndian.PutUint64(w, uint64(len(w)-8+rng.Intn(21)-10))
		w2, _ := toWire(vMessage(rng, 1))
		return append(w, w2...), "wrong-length", false
	}
	// invalid text inside a message
	x := append([]byte{0x12, 4}, 0xff, 0xfe, 0xfd, 0xc0)
	return c09Frame(c09Envelope("comm.NewSongInfo", c09Zip(x))), "invalid-text", true
}

// Reading any bytes ends, without a panic, with messages and then an error.
func TestVerif_C09_read(t *testing.T) {
	r := verifkit.Start(t, "C09", "hostile-bytes")
	defer r.Finish()
	for c := 0; c < r.N(15000, 400000) && !r.Failed(); c++ {
		rng := r.Rand(c)
		b, tag, complete := c09Bytes(rng)
		if rng.Intn(3) == 0 {
			m, _ := toWire(vMessage(rng, 5))
			b = append(m, b...)
		}
		in := &vConn{in: bytes.NewReader(b), cut: func() int { return 1 + rng.Intn(200) }}
		n := 0
		last := ""
		v, rep := verifkit.Bounded(60*time.Second, func() {
			for {
				m, err := readWire(in)
				if err != nil {
					last = err.Error()
					return
				}
				if m == nil {
					last = "nil message without an error"
					n = -1000
					return
				}
				n++
				if n > len(b) {
					return
				}
			}
		})
		if v == verifkit.Panicked {
			r.Violation("panic", fmt.Sprintf("reading %s bytes panicked: %s", tag, rep.Panic), vHex(b))
			return
		} else if v == verifkit.Stuck {
			r.Violation("stuck", fmt.Sprintf("reading %s bytes never ends", tag), vHex(b))
			return
		} else if v != verifkit.Completed {
			r.Inconclusive("reading did not end")
			return
		}
		if n < 0 || n > len(b) {
			r.Violation("bogus", fmt.Sprintf("reading %s bytes: %d messages, %s", tag, n, last), vHex(b))
			return
		}
		_ = complete
		r.Count(tag, 1)
		r.Eval(string(b), len(b) > 0)
		if c < 40 {
			r.Sample(tag + " " + vHex(b) + " -> " + last)
		}
	}
	r.Require("", 10000)
}

type c09MemCase struct {
	Kind string
	Size uint64
}

type c09MemAnswer struct {
	RSSMB  int64
	Err    string
	Panic  string
	Server bool
}

// c09Feed yields prefix and then zero or more chunks made by next until it returns nil.
type c09Feed struct {
	vConn
	buf  []byte
	next func() []byte
}

func (f *c09Feed) Read(b []byte) (int, error) {
	for len(f.buf) == 0 {
		f.buf = f.next()
		if f.buf == nil {
			return 0, fmt.Errorf("connection reset")
		}
	}
	n := copy(b, f.buf)
	f.buf = f.buf[n:]
	return n, nil
}

func TestVerifChild_C09mem(t *testing.T) {
	var c c09MemCase
	verifkit.ChildArgs(t, &c)
	// what the process may have altogether: far beyond any limit of a sane reader
	var a c09MemAnswer
	f := &c09Feed{next: func() []byte { return nil }}
	switch c.Kind {
	case "declared": // declares a huge package, sends little
		h := make([]byte, 8)
		binary.LittleEndian.PutUint64(h, c.Size)
		f.buf = append(h, make([]byte, 1000)...)
	case "bomb": // a small package which inflates to Size
		var z bytes.Buffer
		w := zlib.NewWriter(&z)
		blk := make([]byte, 1<<20)
		for n := uint64(0); n < c.Size; n += 1 << 20 {
			w.Write(blk)
		}
		w.Close()
		f.buf = c09Frame(c09Envelope("comm.QueueChunkRequest", z.Bytes()))
	case "nested": // deeply nested unknown groups
		var inner []byte
		for i := uint64(0); i < c.Size; i++ {
			inner = append(inner, 0x73) // start group 14
		}
		f.buf = c09Frame(c09Envelope("comm.NewSongInfo", c09Zip(inner)))
	case "nested-lines": // messages in messages of a type which happens to be known
		var rev []byte // built back to front
		for n := uint64(0); n < c.Size; n++ {
			l := proto.EncodeVarint(uint64(len(rev)))
			for i := len(l) - 1; i >= 0; i-- {
				rev = append(rev, l[i])
			}
			rev = append(rev, 0x1a) // DescriptorProto.nested_type
		}
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		f.buf = c09Frame(c09Envelope("google.protobuf.DescriptorProto", c09Zip(rev)))
	case "nested-envelope":
		f.buf = c09Frame(bytes.Repeat([]byte{0x73}, int(c.Size)))
	case "nested-inner": // inside a message inside the message
		in := bytes.Repeat([]byte{0x73}, int(c.Size))
		f.buf = c09Frame(c09Envelope("comm.NewSongInfo", c09Zip(append(append([]byte{0x2a}, proto.EncodeVarint(uint64(len(in)))...), in...))))
	}
	a.Panic = verifkit.Catch(func() {
		_, err := readWire(f)
		if err != nil {
			a.Err = verifkit.Short(err.Error(), 200)
		}
	})
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	a.RSSMB = ru.Maxrss / 1024
	verifkit.ChildDone(a)
}

// What a peer declares or compresses does not decide how much memory is taken.
func TestVerif_C09_memory(t *testing.T) {
	r := verifkit.Start(t, "C09", "memory")
	defer r.Finish()
	cases := []c09MemCase{{"declared", 1<<64 - 1}, {"declared", 1<<63 - 1}, {"declared", 1 << 44}, {"declared", 1 << 36}, {"declared", 1 << 34},
		{"declared", 1 << 32}, {"declared", 1 << 30}, {"declared", 1 << 29}, {"declared", 1 << 28}, {"declared", 1 << 27}, {"declared", 1 << 62},
		{"bomb", 3 << 30}, {"bomb", 1 << 26}, {"nested", 100}, {"nested", 1 << 20}, {"nested", 1 << 24}, {"nested-lines", 5000000}, {"nested-envelope", 1 << 24}, {"nested-inner", 1 << 24}}
	if r.Thorough() {
		cases = append(cases, c09MemCase{"bomb", 24 << 30}, c09MemCase{"declared", 1 << 40}, c09MemCase{"nested", 1 << 26})
	}
	for _, c := range cases {
		var a c09MemAnswer
		res := verifkit.RunChild("C09mem", c, 300*time.Second, "GOGC=30")
		if strings.Contains(res.Out, "out of memory") || strings.Contains(res.Out, "stack exceeds") || (res.Answer == nil && strings.Contains(res.Out, "signal: killed")) {
			r.Violation("memory", fmt.Sprintf("a %s package of size %d used up all memory", c.Kind, c.Size), c)
			return
		}
		if !r.Judge(res, c, &a) {
			return
		}
		if a.Panic != "" {
			r.Violation("panic", fmt.Sprintf("a %s package of size %d: %s", c.Kind, c.Size, a.Panic), c)
			return
		}
		limit := int64(300)
		if c.Kind == "bomb" {
			limit = 1500
		}
		if strings.HasPrefix(c.Kind, "nested") {
			limit = 1500
		}
		r.Max("max_rss_mb_"+c.Kind, a.RSSMB)
		if a.RSSMB > limit {
			r.Violation("memory", fmt.Sprintf("a %s package of size %d made the process take %d MB", c.Kind, c.Size, a.RSSMB), c)
			return
		}
		if a.Err == "" && c.Kind == "declared" {
			r.Violation("accepted", fmt.Sprintf("a %s package of size %d was taken for a message", c.Kind, c.Size), c)
			return
		}
		r.Eval(c.Kind+strconv.FormatUint(c.Size, 10), true)
		r.Sample(map[string]interface{}{"case": c, "answer": a})
	}
}

type c09SrvAnswer struct {
	Problem      string
	Inconclusive string
	Hostile      int
	Closed       int
	Healthy      int
	Frames       int
	Tags         map[string]int
}

func TestVerifChild_C09server(t *testing.T) {
	var c struct {
		Seed int64
		N    int
	}
	verifkit.ChildArgs(t, &c)
	rng := rand.New(rand.NewSource(c.Seed))
	a := c09SrvAnswer{Tags: map[string]int{}}
	done := func() { verifkit.ChildDone(a) }
	NewClientHandler = func(ch Channel, s MessageSender) {
		if ch >= 0 {
			s.SendMessage(&SetVolumeRequest{Volume: 0.25})
		}
	}
	sender, addr := vServer()
	healthy := vDial(addr)
	healthy.send(&SubscribeChannelRequest{Channel: Channel_AUDIO})
	isVol := func(want int) func(got []proto.Message) bool {
		return func(got []proto.Message) bool {
			n := 0
			for _, m := range got {
				if _, ok := m.(*SetVolumeRequest); ok {
					n++
				}
			}
			return n >= want
		}
	}
	if !healthy.wait(60*time.Second, isVol(1)) {
		a.Inconclusive = "the healthy client was not served in the first place"
		done()
	}
	vols := 1
	check := func(what string) bool {
		if !healthy.ping(60 * time.Second) {
			if healthy.err != nil {
				a.Problem = "the connection of a healthy client was closed after " + what + ": " + healthy.err.Error()
			} else {
				a.Inconclusive = "a healthy client got no answer after " + what
			}
			return false
		}
		a.Healthy++
		return true
	}
	pingWire, _ := toWire(&PingMessage{})
	for i := 0; i < c.N; i++ {
		b, tag, complete := c09Bytes(rng)
		conn, err := net.Dial("tcp", addr)
		if err != nil {
			a.Problem = "a new connection was refused after hostile ones: " + err.Error()
			done()
		}
		a.Hostile++
		a.Tags[tag]++
		if rng.Intn(3) == 0 {
			w, _ := toWire(&SubscribeChannelRequest{Channel: Channel_META})
			conn.Write(w)
		}
		conn.Write(b)
		if complete {
			// either the server answers this ping (it went on reading after garbage) or it ends the connection
			conn.Write(pingWire)
			conn.SetReadDeadline(time.Now().Add(60 * time.Second))
			got := false
			for {
				m, err := readWire(conn)
				if err != nil {
					if ne, ok := err.(net.Error); ok && ne.Timeout() {
						rounds := 0
						for k := 0; k < 50 && healthy.ping(10*time.Second); k++ {
							rounds++
						}
						if rounds == 50 {
							a.Problem = fmt.Sprintf("the server neither closed nor served a connection which sent %s bytes %s", tag, vHex(b))
						} else {
							a.Inconclusive = "neither end nor answer"
						}
						done()
					}
					break
				}
				if _, ok := m.(*PongMessage); ok {
					got = true
					break
				}
			}
			if got {
				a.Problem = fmt.Sprintf("the server went on serving a connection after %s bytes %s", tag, vHex(b))
				done()
			}
			a.Closed++
			conn.Close()
		} else if rng.Intn(2) == 0 {
			conn.(*net.TCPConn).SetLinger(0) // reset
			conn.Close()
		} else {
			conn.Close()
		}
		if i%10 == 9 {
			if !check(tag) {
				done()
			}
			sender.SendMessage(&SetVolumeRequest{Volume: float64(i)})
			vols++
			if !healthy.wait(60*time.Second, isVol(vols)) {
				a.Inconclusive = "a healthy client did not get a broadcast after hostile connections"
				done()
			}
		}
	}
	check("everything")
	// a broadcast still reaches a new client
	n := vDial(addr)
	n.send(&SubscribeChannelRequest{Channel: Channel_META})
	if !n.wait(60*time.Second, isVol(1)) {
		a.Inconclusive = "a new client was not served after hostile connections"
	}
	done()
}

// A server under hostile connections keeps serving the healthy ones.
func TestVerif_C09_server(t *testing.T) {
	r := verifkit.Start(t, "C09", "hostile-clients")
	defer r.Finish()
	for i := 0; i < r.N(4, 40) && !r.Failed(); i++ {
		args := map[string]interface{}{"Seed": r.Rand(i).Int63(), "N": 150}
		var a c09SrvAnswer
		if !r.Judge(verifkit.RunChild("C09server", args, 400*time.Second), args, &a) {
			return
		}
		if a.Problem != "" {
			r.Violation("server", a.Problem, args)
			return
		}
		if a.Inconclusive != "" {
			r.Inconclusive(a.Inconclusive)
			return
		}
		r.Count("hostile_connections", int64(a.Hostile))
		r.Count("closed_by_server", int64(a.Closed))
		r.Count("healthy_answers", int64(a.Healthy))
		for k, v := range a.Tags {
			r.Count(k, int64(v))
		}
		r.Eval(fmt.Sprint(args), true)
	}
	r.Require("closed_by_server", 50)
}

func TestVerifChild_C09client(t *testing.T) {
	var c struct{ Seed int64 }
	verifkit.ChildArgs(t, &c)
	rng := rand.New(rand.NewSource(c.Seed))
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	b, tag, _ := c09Bytes(rng)
	go func() {
		conn, _ := l.Accept()
		for k := rng.Intn(4); k > 0; k-- {
			sendWire(vMessage(rng, []int{0, 1, 5, 7, 8, 9}[rng.Intn(6)]), conn)
		}
		conn.Write(b)
		time.Sleep(5 * time.Millisecond)
		conn.Close()
	}()
	if _, err := ConnectToServer(l.Addr().String(), TypedPackageHandler{TypedPackageHandlerInterface: &vRecorder{}}); err != nil {
		t.Fatal(err)
	}
	fmt.Println("hostile server:", tag)
	time.Sleep(60 * time.Second) // the client is to end itself, with status 1, once the connection ended
	os.Exit(7)
}

// A client of a hostile server ends in an orderly way.
func TestVerif_C09_client(t *testing.T) {
	r := verifkit.Start(t, "C09", "hostile-server")
	defer r.Finish()
	for i := 0; i < r.N(40, 400) && !r.Failed(); i++ {
		args := map[string]interface{}{"Seed": r.Rand(i).Int63()}
		res := verifkit.RunChild("C09client", args, 100*time.Second)
		if res.Crash != "" {
			r.Violation("crash", "a client of a hostile server crashed: "+strings.SplitN(res.Crash, "\n", 2)[0], map[string]interface{}{"case": args, "crash": res.Crash})
			return
		}
		if res.TimedOut {
			r.Inconclusive("client timed out")
			return
		}
		if res.ExitCode == 7 {
			r.Inconclusive("a client did not end after its connection did: " + res.Out)
			return
		}
		if res.ExitCode != 1 {
			r.Inconclusive(fmt.Sprintf("client ended with %d: %s", res.ExitCode, verifkit.Short(res.Out, 500)))
			return
		}
		r.Eval(fmt.Sprint(args), true)
	}
}
