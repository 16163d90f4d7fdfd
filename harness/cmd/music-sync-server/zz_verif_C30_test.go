package main

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	mrand "math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifrig"
	"github.com/LogicalOverflow/music-sync/verifwire"
	"github.com/golang/protobuf/proto"
	xssh "golang.org/x/crypto/ssh"
)

// c30Names are the names of the options
var c30Names = map[string][]string{
	"address": {"address", "addr", "a"}, "port": {"port", "p"}, "music-dir": {"music-dir", "dir", "d"},
	"ssh-address": {"ssh-address", "ssh-addr", "sa"}, "ssh-port": {"ssh-port", "sp"}, "users-file": {"users-file", "users", "u"},
	"host-key": {"host-key", "key", "k"},
}

// c30Args are options under one of their names, in any order
func c30Args(rng *mrand.Rand, opts map[string]string) (args []string) {
	keys := []string{}
	for o := range opts {
		keys = append(keys, o)
	}
	// maps are not iterated in a reproducible order
	for i := range keys {
		for j := i + 1; j < len(keys); j++ {
			if keys[j] < keys[i] {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	for _, o := range keys {
		n := o
		if a := c30Names[o]; a != nil {
			n = a[rng.Intn(len(a))]
		}
		switch rng.Intn(3) {
		case 0:
			args = append(args, "--"+n+"="+opts[o])
		case 1:
			args = append(args, "-"+n, opts[o])
		default:
			args = append(args, "--"+n, opts[o])
		}
	}
	return
}

func c30Dir(t *testing.T) string {
	dir, err := ioutil.TempDir(os.Getenv("VERIF_WORK"), "cfg")
	if err != nil {
		t.Fatal(err)
	}
	return dir
}

func c30Users(path string) {
	ioutil.WriteFile(path, []byte(`{"admin": {"password": "secret"}}`), 0644)
}

func c30Dials(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, 10*time.Second)
	if err == nil {
		c.Close()
	}
	return err == nil
}

// c30Up waits until p listens at all of addrs
func c30Up(p *verifrig.Program, addrs ...string) bool {
	for _, a := range addrs {
		if !verifkit.Eventually(vPatience, func() bool { return c30Dials(a) || !p.Alive() }) || !p.Alive() {
			return false
		}
	}
	return true
}

// c30Ahead is by how much the server's clock is ahead of this one, at least and at most
func c30Ahead(addr string) (lo, hi int64, ok bool) {
	c, err := verifwire.Dial(addr, nil)
	if err != nil {
		return
	}
	defer c.Close()
	for i := 0; i < 20; i++ {
		t0 := c02Clock()
		n := c.Len()
		c.Send(&comm.TimeSyncRequest{ClientSend: int64(i)})
		var m proto.Message
		if !c.Wait(vPatience, func(l []proto.Message) bool {
			for _, x := range l[n:] {
				if _, is := x.(*comm.TimeSyncResponse); is {
					m = x
				}
			}
			return m != nil
		}) {
			return
		}
		t1 := c02Clock()
		r := m.(*comm.TimeSyncResponse)
		l, h := r.ServerSendTime-t1, r.ServerRecvTime-t0
		if !ok || l > lo {
			lo = l
		}
		if !ok || h < hi {
			hi = h
		}
		ok = true
	}
	return
}

// the stream has the size of chunks, the rate, the delays and the breaks the options say
func TestVerif_C30_stream(t *testing.T) {
	k := verifkit.Start(t, "C30", "stream")
	defer k.Finish()
	var wg sync.WaitGroup
	slots := make(chan struct{}, 3)
	for round := 0; round < k.N(9, 90); round++ {
		slots <- struct{}{}
		if k.Failed() {
			break
		}
		wg.Add(1)
		go func(round int) {
			defer func() { <-slots; wg.Done() }()
			c30Stream(k, round)
		}(round)
	}
	wg.Wait()
	k.Require("chunks", 200)
	k.Require("breaks", 3)
}

func c30Stream(k *verifkit.Run, round int) {
	rng := k.Rand(round)
	dir := c30Dir(k.T)
	defer os.RemoveAll(dir)
	rate := []int{8000, 11025, 22050, 44100, 48000}[rng.Intn(5)]
	size := []int{441, 882, 1000, rate / 50, rate / 10, rate/20 + 1}[rng.Intn(6)]
	breaks := []int{0, 1, 100, 441, size, 3 * size, rate / 4}[rng.Intn(7)]
	startDelay := time.Duration(rng.Intn(1500)) * time.Millisecond
	if round%3 == 1 { // more than the default
		startDelay += 6 * time.Second
	}
	delay := time.Duration(100+rng.Intn(5000)) * time.Millisecond
	if rng.Intn(4) == 0 {
		delay = time.Duration(rng.Intn(40)) * time.Second
	}
	opts := map[string]string{"sample-rate": fmt.Sprint(rate), "stream-chunk-size": fmt.Sprint(size), "song-break-size": fmt.Sprint(breaks),
		"stream-start-delay": startDelay.String(), "stream-delay": delay.String(), "time-sync-interval": "1m", "time-sync-cycles": "7", "time-sync-cycle-delay": "1ms"}
	for _, o := range []string{"time-sync-interval", "time-sync-cycles", "time-sync-cycle-delay", "sample-rate"} { // defaults
		if (strings.HasPrefix(o, "time-") || o == "sample-rate" && rate == 44100) && rng.Intn(2) == 0 {
			delete(opts, o)
		}
	}
	songs := filepath.Join(dir, "music")
	for i := 0; i < 4; i++ {
		verifkit.WriteSong(filepath.Join(songs, fmt.Sprintf("%d.mp3", i)), i*40, 6+rng.Intn(10), nil, nil)
	}
	spawned := c02Clock()
	args := c30Args(rng, opts)
	srv, err := verifrig.Start(os.Getenv("VERIF_BIN_SERVER"), dir, nil, nil, args...)
	if err != nil {
		k.Inconclusive(err.Error())
		return
	}
	defer srv.Kill()
	w := &vWorld{k: k, srv: srv, dir: dir}
	doing := fmt.Sprintf("with the options %q, ", args)
	lo, hi, ok := c30Ahead(srv.Addr)
	if !ok {
		if !w.broken(doing, args) {
			k.Inconclusive("no time")
		}
		return
	}
	type got struct {
		m  *comm.QueueChunkRequest
		at int64
	}
	var mu sync.Mutex
	var chunks []got
	var news []*comm.NewSongInfo
	wrong := ""
	f, err := w.follow(func(m proto.Message) {
		at := c02Clock()
		mu.Lock()
		defer mu.Unlock()
		switch m := m.(type) {
		case *comm.QueueChunkRequest:
			if len(m.SampleLow) != size || len(m.SampleHigh) != size {
				wrong = fmt.Sprintf("a chunk has %d and %d samples", len(m.SampleLow), len(m.SampleHigh))
			}
			chunks = append(chunks, got{m: &comm.QueueChunkRequest{ChunkId: m.ChunkId, StartTime: m.StartTime, FirstSampleIndex: m.FirstSampleIndex}, at: at})
		case *comm.ChunkInfo:
			if int(m.ChunkSize) != size {
				wrong = fmt.Sprintf("a chunk is said to have %d samples", m.ChunkSize)
			}
		case *comm.NewSongInfo:
			news = append(news, m)
		}
	}, comm.Channel_AUDIO, comm.Channel_META)
	s := w.admin(200, 40)
	if err != nil || s == nil {
		if !w.broken(doing, args) {
			k.Inconclusive("no session")
		}
		return
	}
	defer f.c.Close()
	defer s.Close()
	for i := 0; i < 4; i++ {
		s.Cmd(fmt.Sprintf("queue %d.mp3", i), vPatience)
	}
	s.Cmd("resume", vPatience)
	period := float64(size) * 1e9 / float64(rate)
	// the first chunk is complete after one period, and they come one by one
	timely := func() bool {
		for _, c := range chunks {
			if float64(c.m.StartTime-c.at-hi) > float64(delay)-2*period-50e6 {
				return true
			}
		}
		return false
	}
	done := verifkit.Eventually(60*time.Second, func() bool {
		mu.Lock()
		defer mu.Unlock()
		return !srv.Alive() || wrong != "" || len(news) > 2 && len(chunks) > 10 && timely()
	})
	if w.broken(doing, args) {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	violation := func(kind, f string, a ...interface{}) {
		k.Violation(kind, doing+fmt.Sprintf(f, a...), args)
	}
	if wrong != "" {
		violation("chunk-size", "%s", wrong)
		return
	}
	if len(chunks) < 11 {
		if done || len(chunks) > 0 {
			k.Inconclusive(doing + "too few chunks")
		} else {
			k.Inconclusive(doing + "no chunks")
		}
		return
	}
	var worst float64 = -1e18
	for _, c := range chunks {
		if d := float64(c.m.StartTime-chunks[0].m.StartTime) - float64(c.m.ChunkId-chunks[0].m.ChunkId)*period; d > float64(len(chunks)+100)*2 || d < -float64(len(chunks)+100)*2 {
			violation("rate", "chunk %d is to start %.3f ms after chunk %d: %d samples take %.3f ms", c.m.ChunkId, float64(c.m.StartTime-chunks[0].m.StartTime)/1e6, chunks[0].m.ChunkId, size, period/1e6)
			return
		}
		lead := float64(c.m.StartTime - c.at - lo)
		if lead > float64(delay)+1e6 {
			violation("delay", "chunk %d is sent %.1f ms before it is to be played, not at most %v", c.m.ChunkId, lead/1e6, delay)
			return
		}
		if lead > worst {
			worst = lead
		}
		if first := float64(c.m.StartTime) - float64(c.m.ChunkId)*period; first < float64(spawned+lo+int64(startDelay+delay))-float64(c.m.ChunkId+100)*2 {
			violation("start", "the stream starts %.1f ms after the server does, not after %v and %v", (first-float64(spawned+lo))/1e6, startDelay, delay)
			return
		}
	}
	if !timely() {
		violation("late", "of %d chunks none is sent more than %.1f ms before it is to be played, not about %v", len(chunks), worst/1e6, delay)
		return
	}
	k.Count("chunks", int64(len(chunks)))
	for i := 1; i < len(news); i++ {
		if news[i].FirstSampleOfSongIndex < news[i-1].FirstSampleOfSongIndex {
			news[i], news[i-1] = news[i-1], news[i]
			i = 0
		}
	}
	for i := 1; i < len(news); i++ {
		if got := int64(news[i].FirstSampleOfSongIndex-news[i-1].FirstSampleOfSongIndex) - news[i-1].SongLength; got != int64(breaks) {
			violation("break", "a song of %d samples at %d is followed by one at %d: a break of %d samples, not %d", news[i-1].SongLength, news[i-1].FirstSampleOfSongIndex, news[i].FirstSampleOfSongIndex, got, breaks)
			return
		}
		k.Count("breaks", 1)
	}
	k.Eval(fmt.Sprint(args), true)
}

func c30Key(path string, kind int) xssh.PublicKey {
	if kind == 0 {
		verifrig.HostKey(path)
	} else {
		key, _ := rsa.GenerateKey(rand.Reader, 2048)
		ioutil.WriteFile(path, pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(key)}), 0600)
	}
	b, _ := ioutil.ReadFile(path)
	s, err := xssh.ParsePrivateKey(b)
	if err != nil {
		panic(err)
	}
	return s.PublicKey()
}

// c30HostKey is the key the ssh server at addr identifies itself by, to one who logs in
func c30HostKey(addr, user, password string) (key string, in bool) {
	c, err := xssh.Dial("tcp", addr, &xssh.ClientConfig{User: user, Auth: []xssh.AuthMethod{xssh.Password(password)}, Timeout: time.Minute,
		HostKeyCallback: func(_ string, _ net.Addr, k xssh.PublicKey) error {
			key = string(k.Marshal())
			return nil
		}})
	if err == nil {
		c.Close()
	}
	return key, err == nil
}

// the server is where, and who, the options say, with the music and the users they say
func TestVerif_C30_places(t *testing.T) {
	k := verifkit.Start(t, "C30", "places")
	defer k.Finish()
	keys := map[string]string{}
	for round := 0; round < k.N(8, 80) && !k.Failed(); round++ {
		rng := k.Rand(round)
		dir := c30Dir(t)
		func() {
			defer os.RemoveAll(dir)
			opts := map[string]string{}
			addr, sshAddr, port, sshPort := "127.0.0.1", "127.0.0.1", "13333", "13334"
			music, users, key := "audio", "users.json", "id_rsa"
			given := func() bool { return rng.Intn(3) > 0 && round%4 != 3 }
			place := func(name string) string {
				d := []string{"", "sub/", "s p/"}[rng.Intn(3)]
				os.MkdirAll(filepath.Join(dir, d), 0755)
				if rng.Intn(2) == 0 {
					return d + name
				}
				return filepath.Join(dir, d, name)
			}
			if given() {
				addr = fmt.Sprintf("127.%d.%d.%d", rng.Intn(3), rng.Intn(3), 2+rng.Intn(100))
				opts["address"] = addr
			}
			if given() {
				sshAddr = fmt.Sprintf("127.%d.%d.%d", 3+rng.Intn(3), rng.Intn(3), 2+rng.Intn(100))
				opts["ssh-address"] = sshAddr
			}
			if round%4 != 3 {
				port, sshPort = fmt.Sprint(verifrig.FreePort()), fmt.Sprint(verifrig.FreePort())
				opts["port"], opts["ssh-port"] = port, sshPort
				if rng.Intn(4) == 0 { // one port at two addresses
					opts["address"], opts["ssh-address"], addr, sshAddr = "127.0.0.5", "127.0.0.6", "127.0.0.5", "127.0.0.6"
					sshPort, opts["ssh-port"] = port, port
				}
			}
			if given() {
				music = place("music")
				opts["music-dir"] = music
			}
			if given() {
				users = place("people")
				opts["users-file"] = users
			}
			if given() {
				key = place("key")
				opts["host-key"] = key
			}
			abs := func(p string) string {
				if filepath.IsAbs(p) {
					return p
				}
				return filepath.Join(dir, p)
			}
			// what is at the default places is not used
			os.MkdirAll(filepath.Join(dir, "audio"), 0755)
			ioutil.WriteFile(filepath.Join(dir, "audio", "decoy.mp3"), verifkit.SongBytes(0, 20), 0644)
			c30Users(filepath.Join(dir, "users.json"))
			c30Key(filepath.Join(dir, "id_rsa"), 0)
			os.MkdirAll(abs(music), 0755)
			os.Remove(filepath.Join(dir, "audio", "decoy.mp3"))
			if music != "audio" {
				ioutil.WriteFile(filepath.Join(dir, "audio", "decoy.mp3"), verifkit.SongBytes(0, 20), 0644)
			}
			ioutil.WriteFile(filepath.Join(abs(music), "right.mp3"), verifkit.SongBytes(3, 20), 0644)
			ioutil.WriteFile(abs(users), []byte(`{"other": {"password": "known"}}`), 0644)
			wantKey := ""
			if rng.Intn(4) == 0 {
				os.Remove(abs(key))
			} else {
				wantKey = string(c30Key(abs(key), rng.Intn(2)).Marshal())
			}
			args := c30Args(rng, opts)
			at, sshAt := addr+":"+port, sshAddr+":"+sshPort
			if round%4 == 3 && (c30Dials(at) || c30Dials(sshAt)) {
				k.Count("default ports busy", 1)
				return
			}
			last := ""
			for start := 0; start < 2; start++ {
				p, err := verifrig.Spawn(os.Getenv("VERIF_BIN_SERVER"), dir, nil, 0, 0, args...)
				if err != nil {
					k.Inconclusive(err.Error())
					return
				}
				defer p.Kill()
				violation := func(kind, f string, a ...interface{}) {
					k.Violation(kind, fmt.Sprintf("with the options %q (started %d times): ", args, start+1)+fmt.Sprintf(f, a...), args)
				}
				if !c30Up(p, at, sshAt) {
					if !p.Alive() {
						if strings.Contains(p.Output(), "in use") {
							k.Count("ports busy", 1)
							return
						}
						violation("not-started", "the server ends: %s", verifkit.Short(p.Output(), 800))
					} else if c30Dials(at) != c30Dials(sshAt) || strings.Contains(p.Output(), "starting") || c30Dials("127.0.0.1:13333") && round%4 != 3 {
						violation("elsewhere", "the server does not listen at %s and %s: %s", at, sshAt, verifkit.Short(p.Output(), 800))
					} else {
						k.Inconclusive("the server does not come up")
					}
					return
				}
				for _, o := range []string{"127.0.0.1", "127.9.9.9"} {
					if o != addr && o+":"+port != sshAt && c30Dials(o+":"+port) || o != sshAddr && o+":"+sshPort != at && c30Dials(o+":"+sshPort) {
						violation("elsewhere", "the server listens at %s, too", o)
						return
					}
				}
				hk, in := c30HostKey(sshAt, "other", "known")
				if !in && p.Alive() {
					hk, in = c30HostKey(sshAt, "other", "known")
				}
				if !in {
					violation("users", "the user of %q is refused", users)
					return
				}
				if _, in := c30HostKey(sshAt, "admin", "secret"); in && users != "users.json" {
					violation("users", "a user of users.json is admitted, not only those of %q", users)
					return
				}
				if wantKey != "" && hk != wantKey {
					violation("host-key", "the host key is not that of %q", key)
					return
				}
				if wantKey == "" {
					if was := keys[hk]; was != "" || hk == last {
						violation("host-key", "a generated host key was used before (%s)", was)
						return
					}
					keys[hk] = fmt.Sprint(args)
				}
				last = hk
				s, err := verifrig.Open(sshAt, verifrig.Login("other", xssh.Password("known")), 120, 30)
				if err != nil {
					k.Inconclusive(err.Error())
					return
				}
				out, ok := s.Cmd("ls", vPatience)
				if !ok {
					k.Inconclusive("no answer")
					return
				}
				if !strings.Contains(out, "right.mp3") || strings.Contains(out, "decoy.mp3") {
					violation("music-dir", "ls shows %q, not what is in %q", verifkit.Short(out, 300), music)
					return
				}
				// playable, too
				got := make(chan string, 10)
				c, err := verifwire.Follow(at, func(m proto.Message) {
					if n, ok := m.(*comm.NewSongInfo); ok {
						got <- n.SongFileName
					}
				})
				if err == nil {
					c.Send(&comm.SubscribeChannelRequest{Channel: comm.Channel_META})
					defer c.Close()
				}
				if q, ok := s.Cmd("queue right.mp3", vPatience); !ok || strings.Contains(q, "rror") {
					violation("music-dir", "a song in %q can not be queued: %q", music, q)
					return
				}
				s.Close()
				p.Signal(syscall.SIGINT)
				if !p.Exited(vPatience) {
					violation("interrupt", "the server does not end when interrupted")
					return
				}
				k.Count("servers", 1)
				k.Eval(fmt.Sprint(args, start), len(args) > 0)
			}
		}()
	}
	k.Require("servers", 8)
}

// what can not be used is refused
func TestVerif_C30_refused(t *testing.T) {
	k := verifkit.Start(t, "C30", "refused")
	defer k.Finish()
	dir := c30Dir(t)
	defer os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(dir, "audio"), 0755)
	c30Users(filepath.Join(dir, "users.json"))
	c30Key(filepath.Join(dir, "id"), 0)
	for name, text := range map[string]string{"bad1": "", "bad2": "{", "bad3": `["x"]`, "bad4": `{"a": {"password": 3}}`, "bad5": `{"a": {"pubKey": "%%"}}`, "file": "x"} {
		ioutil.WriteFile(filepath.Join(dir, name), []byte(text), 0644)
	}
	busy, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer busy.Close()
	_, busyPort, _ := net.SplitHostPort(busy.Addr().String())
	base := func(over map[string]string) map[string]string {
		o := map[string]string{"port": fmt.Sprint(verifrig.FreePort()), "ssh-port": fmt.Sprint(verifrig.FreePort()), "music-dir": "audio", "users-file": "users.json", "host-key": "id"}
		for n, v := range over {
			o[n] = v
		}
		return o
	}
	type try struct {
		bin  string
		opts map[string]string
		why  string
	}
	tries := []try{
		{"SERVER", base(map[string]string{"music-dir": "missing"}), "the music directory does not exist"},
		{"SERVER", base(map[string]string{"music-dir": "file"}), "the music directory is a file"},
		{"SERVER", base(map[string]string{"users-file": "missing"}), "the users file does not exist"},
		{"SERVER", base(map[string]string{"users-file": "audio"}), "the users file is a directory"},
		{"SERVER", base(map[string]string{"port": busyPort}), "the port is in use"},
		{"SERVER", base(map[string]string{"address": "192.0.2.1"}), "the address is not one of this host"},
		{"SERVER", base(map[string]string{"port": "x"}), "the port is not a number"},
		{"SERVER", base(map[string]string{"stream-delay": "5"}), "the delay has no unit"},
		{"SERVER", base(map[string]string{"unknown": "5"}), "there is no such option"},
		{"PLAYER", map[string]string{"port": fmt.Sprint(verifrig.FreePort())}, "nobody listens at the port"},
		{"PLAYER", map[string]string{"sample-rate": "x"}, "the rate is not a number"},
		{"PLAYER", map[string]string{"music-dir": "audio"}, "there is no such option"},
		{"INFOER", map[string]string{"port": fmt.Sprint(verifrig.FreePort())}, "nobody listens at the port"},
		{"INFOER", map[string]string{"lyrics-history-size": "-1"}, "the size is negative"},
	}
	for i := 1; i <= 5; i++ {
		tries = append(tries, try{"SERVER", base(map[string]string{"users-file": fmt.Sprintf("bad%d", i)}), "the users file is malformed"})
	}
	for i, x := range tries {
		rng := k.Rand(i)
		args := c30Args(rng, x.opts)
		w, h := 0, 0
		if x.bin == "INFOER" {
			w, h = 80, 24
		}
		p, err := verifrig.Spawn(os.Getenv("VERIF_BIN_"+x.bin), dir, nil, w, h, args...)
		if err != nil {
			k.Inconclusive(err.Error())
			return
		}
		ended := p.Exited(20 * time.Second)
		if !ended && (x.bin != "SERVER" || !c30Dials("127.0.0.1:"+x.opts["ssh-port"])) {
			ended = p.Exited(vPatience)
		}
		p.Kill()
		what := fmt.Sprintf("%s with the options %q, of which %s", strings.ToLower(x.bin), args, x.why)
		if c := p.Crash(); c != "" {
			k.Violation("crash", what+" crashes: "+c, args)
		} else if !ended {
			k.Violation("not-refused", what+" goes on: "+verifkit.Short(p.Output(), 400), args)
		} else if p.ExitCode() == 0 {
			k.Violation("not-refused", what+" ends as if all was well: "+verifkit.Short(p.Output(), 400), args)
		}
		k.Eval(x.why+x.bin, true)
		k.Count("refused", 1)
	}
	k.Require("refused", 10)
}

// players and info clients connect where, play at the rate, and show as many lines as the options say
func TestVerif_C30_clients(t *testing.T) {
	k := verifkit.Start(t, "C30", "clients")
	defer k.Finish()
	for round := 0; round < k.N(16, 160) && !k.Failed(); round++ {
		c30Client(k, k.Rand(round), round)
	}
	k.Require("players", 4)
	k.Require("info clients", 4)
}

func c30Client(k *verifkit.Run, rng *mrand.Rand, round int) {
	dir := c30Dir(k.T)
	defer os.RemoveAll(dir)
	addr, port := fmt.Sprintf("127.%d.0.%d", rng.Intn(3), 2+rng.Intn(50)), fmt.Sprint(verifrig.FreePort())
	opts := map[string]string{"address": addr, "port": port}
	if rng.Intn(3) == 0 {
		delete(opts, "address")
		addr = "127.0.0.1"
	}
	if round%6 < 2 {
		delete(opts, "port")
		port = "13333"
	}
	l, err := net.Listen("tcp", addr+":"+port)
	if err != nil {
		k.Count("ports busy", 1)
		return
	}
	defer l.Close()
	rate := 44100
	if rng.Intn(4) > 0 {
		rate = []int{8000, 22050, 48000, 96000}[rng.Intn(4)]
		opts["sample-rate"] = fmt.Sprint(rate)
	}
	lines := 5
	player := round%2 == 0
	if !player && round/2%8 > 0 {
		lines = []int{24, 1, 9, 0, 25, 2, 23, 40, 22}[(round/2-1)%9]
		opts["lyrics-history-size"] = fmt.Sprint(lines)
	}
	args := c30Args(rng, opts)
	bin, tw, th := "VERIF_BIN_PLAYER", 0, 0
	if !player {
		bin, tw, th = "VERIF_BIN_INFOER", 100, 30
	}
	ctx := filepath.Join(dir, "ctx")
	p, err := verifrig.Spawn(os.Getenv(bin), dir, []string{"VERIF_OTO_CTX=" + ctx}, tw, th, args...)
	if err != nil {
		k.Inconclusive(err.Error())
		return
	}
	defer p.Kill()
	violation := func(kind, f string, a ...interface{}) {
		who := "an info client"
		if player {
			who = "a player"
		}
		k.Violation(kind, fmt.Sprintf("%s with the options %q: ", who, args)+fmt.Sprintf(f, a...), args)
	}
	accepted := make(chan net.Conn, 1)
	go func() {
		if c, err := l.Accept(); err == nil {
			accepted <- c
		}
	}()
	var conn net.Conn
	if !verifkit.Eventually(vPatience, func() bool {
		select {
		case conn = <-accepted:
		default:
		}
		return conn != nil || !p.Alive()
	}) || conn == nil {
		violation("not-connected", "it does not connect to %s:%s: %s", addr, port, verifkit.Short(p.Output(), 300))
		return
	}
	channel := make(chan comm.Channel, 10)
	var c *verifwire.Client
	made := make(chan struct{})
	c = verifwire.NewClient(conn, func(m proto.Message) {
		<-made
		switch m := m.(type) {
		case *comm.TimeSyncRequest:
			now := c02Clock()
			c.Send(&comm.TimeSyncResponse{ClientSendTime: m.ClientSend, ServerRecvTime: now, ServerSendTime: now})
		case *comm.SubscribeChannelRequest:
			channel <- m.Channel
		}
	})
	close(made)
	defer c.Close()
	want := comm.Channel_META
	if player {
		want = comm.Channel_AUDIO
	}
	select {
	case ch := <-channel:
		if ch != want {
			violation("channel", "it subscribes to %v", ch)
			return
		}
	case <-time.After(vPatience):
		k.Inconclusive("not subscribed")
		return
	}
	if player {
		device := ""
		if !verifkit.Eventually(vPatience, func() bool {
			b, _ := ioutil.ReadFile(ctx)
			device = string(b)
			return strings.HasSuffix(device, ".")
		}) {
			k.Inconclusive("no device is opened")
			return
		}
		if device != fmt.Sprintf("%d 2 2 .", rate) {
			violation("rate", "it opens its device with rate, channels and bytes per sample %s", device)
			return
		}
		k.Count("players", 1)
	} else {
		// a song of 3:25, 100 lines of which are due
		song := &comm.NewSongInfo{FirstSampleOfSongIndex: 100, SongFileName: "song.mp3", SongLength: int64(rate)*205 + int64(rate)/2, Metadata: &comm.NewSongInfo_SongMetadata{}}
		for i := 0; i < 100; i++ {
			song.Lyrics = append(song.Lyrics, &comm.NewSongInfo_SongLyricsLine{Atoms: []*comm.NewSongInfo_SongLyricsAtom{{Timestamp: 0, Caption: fmt.Sprintf("line-%02d.", i)}}})
		}
		c.Send(song)
		time.Sleep(300 * time.Millisecond)
		c.Send(&comm.PauseInfo{Playing: true, ToggleSampleIndex: 50})
		time.Sleep(100 * time.Millisecond)
		now := c02Clock()
		c.Send(&comm.ChunkInfo{StartTime: now - 5e9, FirstSampleIndex: 100, ChunkSize: uint64(rate) * 100})
		shown := func() (n []int) {
			out := strings.Join(verifrig.Screen(p.Output(), tw, th), "\n")
			for i := 0; i < 100; i++ {
				if strings.Contains(out, fmt.Sprintf("line-%02d.", i)) {
					n = append(n, i)
				}
			}
			return
		}
		screen := func() string { return strings.Join(verifrig.Screen(p.Output(), tw, th), "\n") }
		fits := lines
		if fits > th-7 {
			fits = th - 7
		}
		good := func() string {
			switch n := shown(); {
			case !strings.Contains(screen(), "song.mp3"):
				return "the song is not shown"
			case strings.Contains(screen(), "Lyrics") != (fits > 0):
				return fmt.Sprintf("it is %v that a box with lyrics is shown", fits == 0)
			case !strings.Contains(screen(), "/3:25"):
				return fmt.Sprintf("it does not show that a song of %d samples takes 3:25", song.SongLength)
			case len(n) != fits || fits > 0 && (n[0] != 100-fits || n[fits-1] != 99):
				return fmt.Sprintf("of 100 lines of lyrics due, it shows %v, not the last %d", n, fits)
			}
			return ""
		}
		if !verifkit.Eventually(15*time.Second, func() bool { return good() == "" || !p.Alive() }) {
			what := good()
			if strings.Contains(what, "not shown") {
				k.Inconclusive(what)
				return
			}
			violation("screen", "for 15 s, %s: %s", what, verifkit.Short(screen(), 3000))
			return
		}
		k.Count("info clients", 1)
	}
	if player {
		p.Signal(syscall.SIGINT)
	} else {
		p.Type([]byte{3})
	}
	if !p.Exited(vPatience) {
		violation("interrupt", "it does not end when interrupted")
		return
	}
	if p.ExitCode() != 0 {
		violation("interrupt", "interrupted, it ends with the code %d: %s", p.ExitCode(), verifkit.Short(p.Output(), 300))
		return
	}
	k.Eval(fmt.Sprint(bin, args), len(args) > 0)
}
