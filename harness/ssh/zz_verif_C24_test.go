package ssh

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/playback"
	kit "github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/gliderlabs/ssh"
)

// vc24 is the terminal of an admin: what it types is what the session reads.
type vc24 struct {
	in     chan []byte
	rest   []byte
	gone   chan struct{}
	once   sync.Once
	closed chan struct{}
	w, h   int
	winch  chan ssh.Window
	mu     sync.Mutex
	out    bytes.Buffer
}

func newVC24(w, h int) *vc24 {
	v := &vc24{in: make(chan []byte, 4096), gone: make(chan struct{}), closed: make(chan struct{}), w: w, h: h, winch: make(chan ssh.Window, 1)}
	v.winch <- ssh.Window{Width: w, Height: h}
	return v
}

func (v *vc24) Read(p []byte) (int, error) {
	if len(v.rest) == 0 {
		select {
		case b := <-v.in:
			v.rest = b
		default:
			select {
			case b := <-v.in:
				v.rest = b
			case <-v.gone:
				return 0, io.EOF
			case <-v.closed:
				return 0, io.EOF
			}
		}
	}
	n := copy(p, v.rest)
	v.rest = v.rest[n:]
	return n, nil
}

func (v *vc24) Write(p []byte) (int, error) {
	v.mu.Lock()
	defer v.mu.Unlock()
	select {
	case <-v.gone:
		return 0, io.EOF
	case <-v.closed:
		return 0, io.EOF
	default:
	}
	return v.out.Write(p)
}

func (v *vc24) output() string {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.out.String()
}

func (v *vc24) Close() error {
	v.once.Do(func() { close(v.closed) })
	return nil
}
func (v *vc24) CloseWrite() error                                               { return nil }
func (v *vc24) SendRequest(name string, wantReply bool, p []byte) (bool, error) { return false, nil }
func (v *vc24) Stderr() io.ReadWriter                                           { return v }
func (v *vc24) User() string                                                    { return "admin" }
func (v *vc24) RemoteAddr() net.Addr                                            { return &net.TCPAddr{} }
func (v *vc24) LocalAddr() net.Addr                                             { return &net.TCPAddr{} }
func (v *vc24) Environ() []string                                               { return nil }
func (v *vc24) Exit(code int) error                                             { return v.Close() }
func (v *vc24) Command() []string                                               { return nil }
func (v *vc24) RawCommand() string                                              { return "" }
func (v *vc24) PublicKey() ssh.PublicKey                                        { return nil }
func (v *vc24) Context() context.Context                                        { return context.Background() }
func (v *vc24) Permissions() ssh.Permissions                                    { return ssh.Permissions{} }
func (v *vc24) Pty() (ssh.Pty, <-chan ssh.Window, bool) {
	return ssh.Pty{Term: "xterm", Window: ssh.Window{Width: v.w, Height: v.h}}, v.winch, true
}
func (v *vc24) Signals(c chan<- ssh.Signal) {}

type vc24Args struct {
	Seed     int64
	From, To int
	Log      string
	Keys     []string // exactly these, for replaying
	Width    int
}

type vc24Answer struct {
	Sessions, Keys, Completions, Ended, Probes, Resizes int
	Wedged                                              []vc24Wedge
	Outputs                                             map[string]int
}

type vc24Wedge struct {
	Case   int
	Width  int
	Keys   []string
	Detail string
}

var vc24Options = []string{"alpha", "alpha beta", "alphabet", "日本", "日本語", "日光", "mu\u0308de", "müde", "bad\xffname", "o/p", "o/q",
	strings.Repeat("long", 30), strings.Repeat("long", 30) + "er", "*?[", `back\slash`, "'quote'", "\"double\""}

var vc24Words = []string{"vput ", "vget ", "v", "help", "help ", "vput a", "vput al", "vput alpha", "vput 日", "vput 日本", "vput o/", "vput lo",
	"vput mu", "clear", "vput alpha\\ ", `\`, `"`, "日本", "a", " ", "e\u0301", "\xff", "\xe6\x97", "vput \xf0\x9f\x8e\xb5", "x y z", "exi",
	"ls ", "ls s", "ls k/", "ls \u212a", "ls \u017f", "ls \u0130", "ls \u1e9e/", "\u212a", "\u023a", "vput \u212a", "ls \xff", "ls é\\\\",
	strings.Repeat("w", 25), strings.Repeat("界", 30), strings.Repeat("0123456789", 30)}

var vc24Keys = []string{"\t", "\t\t", "\t\t\t", "\r", "\n", "\x01", "\x02", "\x05", "\x06", "\x07", "\x08", "\x0b", "\x0c", "\x0e", "\x10", "\x12", "\x13",
	"\x14", "\x15", "\x17", "\x19", "\x7f", "\x00", "\x03", "\x1b", "\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1b[H", "\x1b[F", "\x1b[3~", "\x1bb", "\x1bf",
	"\x1bd", "\x1b\x7f", "\x1b\x14", "\x1bOH", "\x1bOF", "\x1b[1;5R", "\x1b[", "\x1bO", "\x1b[99999999999999999999R", "\x0f", "\x11", "\x16", "\x18", "\x1c",
	"\x1d", "\x1e", "\x1f", "\x12a", "\x13al", "\x04"}

// vc24Case is what the admin types in a case.
func vc24Case(seed int64, i int) (width int, keys []string) {
	rnd := rand.New(rand.NewSource(seed*1000003 + int64(i)))
	widths := []int{0, 1, 2, 3, 4, 6, 11, 12, 13, 14, 19, 20, 21, 24, 30, 40, 79, 80, 81, 120, 200, 1 << 16, 1<<31 - 1, 1<<32 - 1}
	width = widths[rnd.Intn(len(widths))]
	if rnd.Intn(3) == 0 {
		width = rnd.Intn(100)
	}
	n := 1 + rnd.Intn(30)
	// keys which lead to rarely visited states come in favourites
	fav := make([]string, 1+rnd.Intn(5))
	for j := range fav {
		if rnd.Intn(3) == 0 {
			fav[j] = vc24Words[rnd.Intn(len(vc24Words))]
		} else {
			fav[j] = vc24Keys[rnd.Intn(len(vc24Keys))]
		}
	}
	long := 0
	for len(keys) < n {
		var k string
		switch r := rnd.Intn(20); {
		case r < 7:
			k = fav[rnd.Intn(len(fav))]
		case r < 12:
			k = vc24Keys[rnd.Intn(len(vc24Keys))]
		case r < 17:
			k = vc24Words[rnd.Intn(len(vc24Words))]
		case r < 18:
			k = string([]byte{byte(rnd.Intn(256))})
		case r < 19:
			k = string(rune(rnd.Intn(0x1ffff)))
		case r == 19 && rnd.Intn(2) == 0: // options listed or selected, resized, and moved around
			keys = append(keys, "\r", []string{"vput ", "vput a", "v", "vput 日"}[rnd.Intn(4)], "\t\t\t"[:1+rnd.Intn(3)],
				fmt.Sprintf("\x00resize:%d", widths[rnd.Intn(len(widths))]))
			k = []string{"\x01", "\x05", "\x0e", "\x10", "\t", "\x0b", "\x06", "x"}[rnd.Intn(8)]
		default:
			k = fmt.Sprintf("\x00resize:%d", widths[rnd.Intn(len(widths))])
		}
		if strings.Contains(k, "\x1a") {
			continue // would suspend the parent; typed into the real server instead
		}
		if len(k) > 80 {
			// readline takes quadratic time on long lines
			if long++; long > 3 {
				continue
			}
		}
		if strings.Contains(k, "\x04") && rnd.Intn(4) != 0 {
			continue
		}
		keys = append(keys, k)
	}
	if i%4 == 1 && rnd.Intn(2) == 0 { // the connection will be lost while options are listed
		keys = append(keys, "\x07\x07\x07\r", []string{"vput alpha", "vput 日本", "vput o/", "vput a"}[rnd.Intn(4)], "\t", "\t\v"[:1+rnd.Intn(2)])
	}
	return
}

func vc24Register(probed chan string) {
	RegisterCommand(Command{Name: "vput", OptionsFunc: func(prefix string, arg int) []string { return vc24Options },
		ExecFunc: func(args []string) (string, bool) { return fmt.Sprintf("put %d", len(args)), len(args) > 0 }})
	RegisterCommand(Command{Name: "vget", Usage: "x", ExecFunc: func(args []string) (string, bool) { return "got\n", true }})
	RegisterCommand(Command{Name: "vhealthy", ExecFunc: func(args []string) (string, bool) {
		vc24Healthy <- ""
		return "", true
	}})
	RegisterCommand(Command{Name: "vprobe", ExecFunc: func(args []string) (string, bool) {
		probed <- strings.Join(args, "|")
		return "probed " + strings.Join(args, "|"), true
	}})
}

var vc24Healthy = make(chan string, 1)

// vc24Others reports when, after patience, many other sessions came, got their answer, and went.
func vc24Others(probed chan string, ended chan struct{}) chan struct{} {
	c := make(chan struct{})
	go func() {
		select {
		case <-ended:
			return
		case <-time.After(10 * time.Second):
		}
		for i := 0; i < 50; i++ {
			v := newVC24(80, 24)
			end := make(chan struct{})
			go func() {
				defer close(end)
				sessionHandler(v)
			}()
			v.in <- []byte("vhealthy\rexit\r")
			<-vc24Healthy
			<-end
			close(v.winch)
			time.Sleep(20 * time.Millisecond)
		}
		close(c)
	}()
	return c
}

func TestVerifChild_C24(t *testing.T) {
	var a vc24Args
	kit.ChildArgs(t, &a)
	probed := make(chan string, 16)
	vc24Register(probed)
	playback.AudioDir = filepath.Join(filepath.Dir(a.Log), "music")
	for _, d := range []string{"k", "s/ss", "i", "\u2c65", "é\\/k", "e\u0301 ", "日/本", "\xff"} {
		if err := os.MkdirAll(filepath.Join(playback.AudioDir, d), 0755); err != nil {
			panic(err)
		}
	}
	logf, err := os.Create(a.Log)
	if err != nil {
		panic(err)
	}
	ans := vc24Answer{Outputs: map[string]int{}}
	for i := a.From; i < a.To && len(ans.Wedged) < 5; i++ {
		width, keys := vc24Case(a.Seed, i)
		if a.Keys != nil {
			keys, width = a.Keys, a.Width
		}
		logf.WriteAt([]byte(fmt.Sprintf("%-10d", i)), 0)
		v := newVC24(width, 24)
		ended := make(chan struct{})
		go func() {
			defer close(ended)
			sessionHandler(v)
		}()
		ans.Sessions++
		mayEnd := false
		var typed strings.Builder
		for _, k := range keys {
			if strings.HasPrefix(k, "\x00resize:") {
				var w int
				fmt.Sscan(k[8:], &w)
				select {
				case v.winch <- ssh.Window{Width: w, Height: 24}:
					ans.Resizes++
				case <-ended:
				case <-time.After(time.Minute):
				}
				continue
			}
			typed.WriteString(k)
			ans.Keys += len(k)
			if strings.Contains(k, "\x04") || strings.Contains(k, "[3~") || strings.Contains(k, "~") {
				mayEnd = true
			}
			if strings.Contains(k, "\t") {
				ans.Completions++
			}
			v.in <- []byte(k)
			if i%3 == 0 {
				time.Sleep(time.Duration(i%7) * 20 * time.Microsecond)
			}
		}
		if strings.Contains(typed.String(), "exi") || strings.Contains(typed.String(), "\t") {
			mayEnd = true // exit might be completed, or found in the history
		}
		if typed.String() == "" || i%4 == 1 { // the connection is lost here
			close(v.gone)
		} else {
			token := fmt.Sprintf("t%d", i)
			// out of escape sequences, completion and search, then off with the line
			v.in <- []byte("zz\x07\x07\x07zz\x03\x03\x03vprobe " + token + "\r")
			select {
			case got := <-probed:
				ans.Probes++
				if got != token {
					ans.Wedged = append(ans.Wedged, vc24Wedge{Case: i, Width: width, Keys: keys, Detail: fmt.Sprintf("the command typed is 'vprobe %s', executed with '%s'", token, got)})
				}
			case <-ended:
				if !mayEnd {
					ans.Wedged = append(ans.Wedged, vc24Wedge{Case: i, Width: width, Keys: keys, Detail: "the session ended"})
				}
			case <-vc24Others(probed, ended):
				d := "the session does not execute commands any more, while new ones do"
				for _, s := range strings.Split(kit.AllStacks(), "\n\n") {
					if strings.Contains(s, "readline") {
						d += "\n" + s
					}
				}
				ans.Wedged = append(ans.Wedged, vc24Wedge{Case: i, Width: width, Keys: keys, Detail: kit.Short(d, 4000)})
			}
			if i%4 == 0 {
				v.in <- []byte("exit\r")
			} else {
				close(v.gone)
			}
		}
		select {
		case <-ended:
			ans.Ended++
		case <-vc24Others(nil, ended):
			ans.Wedged = append(ans.Wedged, vc24Wedge{Case: i, Width: width, Keys: keys, Detail: "the session does not end when it is closed, while new ones do\n" + kit.Short(kit.AllStacks(), 4000)})
		}
		close(v.winch)
		out := v.output()
		for _, w := range []string{"put ", "got", "Unknown command", "Usage: ", "bck-i-search", "fwd-i-search", "failing", "\033[30;47m"} {
			if strings.Contains(out, w) {
				ans.Outputs[w]++
			}
		}
	drain:
		for {
			select {
			case <-probed:
			default:
				break drain
			}
		}
	}
	kit.ChildDone(ans)
}

func TestVerif_C24_keys(t *testing.T) {
	k := kit.Start(t, "C24", "keys")
	defer k.Finish()
	n, batch := k.N(6000, 120000), 250
	dir, err := ioutil.TempDir("", "c24")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	type job struct{ from, to int }
	jobs := make(chan job)
	var wg sync.WaitGroup
	var mu sync.Mutex
	total := vc24Answer{Outputs: map[string]int{}}
	run := func(from, to int) {
		for from < to {
			logp := filepath.Join(dir, fmt.Sprintf("case-%d", from))
			a := vc24Args{Seed: k.Seed, From: from, To: to, Log: logp}
			res := kit.RunChild("C24", a, 5*time.Minute)
			var ans vc24Answer
			if res.Answer != nil {
				json.Unmarshal(res.Answer, &ans)
			}
			mu.Lock()
			total.Sessions += ans.Sessions
			total.Keys += ans.Keys
			total.Completions += ans.Completions
			total.Ended += ans.Ended
			total.Probes += ans.Probes
			total.Resizes += ans.Resizes
			for o, c := range ans.Outputs {
				total.Outputs[o] += c
			}
			for _, w := range ans.Wedged {
				k.Violation("session-wedged", fmt.Sprintf("typing %q into a terminal of width %d: %s", w.Keys, w.Width, w.Detail), w)
			}
			mu.Unlock()
			at := -1
			if b, err := ioutil.ReadFile(logp); err == nil {
				fmt.Sscan(string(b), &at)
			}
			last := to
			if res.Answer == nil {
				last = at
			}
			for i := from; i <= last && i < to; i++ {
				width, keys := vc24Case(a.Seed, i)
				k.Eval(fmt.Sprintf("%d %q", width, keys), len(keys) > 2)
				if i < 3 {
					k.Sample(map[string]interface{}{"width": width, "keys": fmt.Sprintf("%q", keys)})
				}
			}
			if res.Answer != nil {
				return
			}
			if i := strings.Index(res.Out, "panic: "); res.Crash == "" && i >= 0 && strings.Contains(res.Out[i:], "github.com/chzyer/readline.") {
				res.Crash = res.Out[i:]
			}
			if res.Crash == "" || at < 0 {
				k.Inconclusive("a child ended without an answer: " + kit.Short(res.Out, 2000))
				return
			}
			width, keys := vc24Case(a.Seed, at)
			mu.Lock()
			k.Violation("server-crash", fmt.Sprintf("typing %q into a terminal of width %d crashes the server: %s", keys, width, kit.Short(res.Crash, 3000)),
				map[string]interface{}{"case": at, "width": width, "keys": keys})
			stop := k.Failed() && os.Getenv("VERIF_C24_ALL") == ""
			mu.Unlock()
			if stop {
				return
			}
			from = at + 1
		}
	}
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				run(j.from, j.to)
			}
		}()
	}
	for from := 0; from < n; from += batch {
		jobs <- job{from, from + batch}
	}
	close(jobs)
	wg.Wait()
	k.Count("sessions", int64(total.Sessions))
	k.Count("bytes typed", int64(total.Keys))
	k.Count("completions", int64(total.Completions))
	k.Count("resizes", int64(total.Resizes))
	k.Count("commands answered after the keys", int64(total.Probes))
	k.Count("sessions ended", int64(total.Ended))
	for o, c := range total.Outputs {
		k.Count(fmt.Sprintf("sessions showing %q", o), int64(c))
	}
	if !k.Failed() {
		k.Require("commands answered after the keys", int64(n/2))
		k.Require("sessions ended", int64(n))
	}
}
