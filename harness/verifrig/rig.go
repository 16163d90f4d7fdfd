// Package verifrig runs the real server program and talks to it: over the
// client protocol (verifwire) and as an admin over ssh.
package verifrig

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"golang.org/x/crypto/ssh"
)

// User of the admin terminal.
type User struct {
	Password string `json:"password,omitempty"`
	PubKey   []byte `json:"pubKey,omitempty"`
}

// Server is a running server program.
type Server struct {
	Addr, SSHAddr string
	Dir, Music    string
	cmd           *exec.Cmd
	pid           int
	out           lockedBuffer
	done          chan struct{}
	err           error
	tty           *os.File
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() > 64<<20 {
		return len(p), nil
	}
	return l.b.Write(p)
}

func (l *lockedBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// FreePort returns a port nobody listens on.
func FreePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// HostKey writes a host key file.
func HostKey(path string) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	der, err := x509.MarshalECPrivateKey(k)
	if err != nil {
		panic(err)
	}
	b := pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: der})
	if err := ioutil.WriteFile(path, b, 0600); err != nil {
		panic(err)
	}
}

// DefaultUsers is admin with the password secret.
var DefaultUsers = map[string]User{"admin": {Password: "secret"}}

// Start runs the server program bin in dir (its music is in dir/music) and waits until it listens.
func Start(bin, dir string, users interface{}, env []string, flags ...string) (*Server, error) {
	s := &Server{Dir: dir, Music: filepath.Join(dir, "music"), done: make(chan struct{})}
	os.MkdirAll(s.Music, 0755)
	if users == nil {
		users = DefaultUsers
	}
	u, ok := users.([]byte)
	if !ok {
		var err error
		if u, err = json.Marshal(users); err != nil {
			return nil, err
		}
	}
	if err := ioutil.WriteFile(filepath.Join(dir, "users.json"), u, 0644); err != nil {
		return nil, err
	}
	if _, err := os.Stat(filepath.Join(dir, "id")); err != nil {
		HostKey(filepath.Join(dir, "id"))
	}
	tty := false
	for _, e := range env {
		tty = tty || e == "VERIF_RIG_TTY=1"
	}
	for try := 0; ; try++ {
		p1, p2 := FreePort(), FreePort()
		s.Addr, s.SSHAddr = fmt.Sprintf("127.0.0.1:%d", p1), fmt.Sprintf("127.0.0.1:%d", p2)
		args := append([]string{"--port", fmt.Sprint(p1), "--ssh-port", fmt.Sprint(p2), "--music-dir", s.Music,
			"--users-file", filepath.Join(dir, "users.json"), "--host-key", filepath.Join(dir, "id")}, flags...)
		// the supervisor is the server's parent: the server may signal its parent
		self, err := os.Executable()
		if err != nil {
			return nil, err
		}
		pr, pw, err := os.Pipe()
		if err != nil {
			return nil, err
		}
		s.cmd = exec.Command(self, append([]string{bin}, args...)...)
		s.cmd.Dir = dir
		s.cmd.Env = append(append(os.Environ(), env...), "VERIF_RIG_SUPERVISE=1")
		s.cmd.Stdout, s.cmd.Stderr = &s.out, &s.out
		s.cmd.ExtraFiles = []*os.File{pw}
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setsid: true}
		var master, slave *os.File
		if tty {
			if master, slave, err = openPty(); err != nil {
				return nil, err
			}
			s.cmd.Stdin, s.cmd.Stdout = slave, slave
			s.tty = master
			go io.Copy(&s.out, master)
		}
		err = s.cmd.Start()
		pw.Close()
		if tty {
			slave.Close()
		}
		if err != nil {
			return nil, err
		}
		fmt.Fscan(pr, &s.pid)
		pr.Close()
		s.done = make(chan struct{})
		go func(done chan struct{}) {
			s.err = s.cmd.Wait()
			close(done)
		}(s.done)
		up := func(addr string) bool {
			for end := time.Now().Add(60 * time.Second); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
				if !s.Alive() {
					return false
				}
				c, err := net.DialTimeout("tcp", addr, time.Second)
				if err == nil {
					c.Close()
					return true
				}
			}
			return false
		}
		if up(s.Addr) && up(s.SSHAddr) {
			return s, nil
		}
		s.Kill()
		if try == 2 {
			return nil, fmt.Errorf("the server does not come up: %s", s.Output())
		}
	}
}

// Pid of the server.
func (s *Server) Pid() int { return s.pid }

// Alive tells whether the server is running.
func (s *Server) Alive() bool {
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}

// Output is everything the server has written.
func (s *Server) Output() string { return s.out.String() }

// Crash describes how the server died ("" if it did not).
func (s *Server) Crash() string {
	if s.Alive() {
		return ""
	}
	o := s.Output()
	for _, k := range []string{"panic: ", "fatal error: ", "runtime: "} {
		if i := strings.Index(o, k); i >= 0 {
			o = o[i:]
			break
		}
	}
	if len(o) > 4000 {
		o = o[:4000]
	}
	return fmt.Sprintf("server ended (%v): %s", s.err, o)
}

func (s *Server) signal(n syscall.Signal) {
	if s.Alive() && s.pid > 0 {
		syscall.Kill(s.pid, n)
	} else if n == syscall.SIGKILL {
		s.cmd.Process.Kill()
	}
}

// Stopped tells whether the server is suspended.
func (s *Server) Stopped() bool {
	b, err := ioutil.ReadFile(fmt.Sprintf("/proc/%d/stat", s.pid))
	if err != nil {
		return false
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	return len(f) > 0 && f[0] == "T"
}

// TTYMode returns the settings of the server's own terminal.
func (s *Server) TTYMode() string {
	if s.tty == nil {
		return ""
	}
	var b [64]byte
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, s.tty.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&b))); e != 0 {
		return ""
	}
	return fmt.Sprintf("%x", b[:17])
}

// Kill ends the server.
func (s *Server) Kill() {
	s.signal(syscall.SIGKILL)
	<-s.done
}

// Interrupt ends the server like a user does.
func (s *Server) Interrupt() {
	s.signal(syscall.SIGINT)
	select {
	case <-s.done:
	case <-time.After(30 * time.Second):
		s.Kill()
	}
}

// Dump ends the server with a dump of its goroutines, which is returned.
func (s *Server) Dump() string {
	before := len(s.Output())
	s.signal(syscall.SIGQUIT)
	select {
	case <-s.done:
	case <-time.After(60 * time.Second):
		s.Kill()
	}
	return s.Output()[before:]
}

// Files returns what the server has open.
func (s *Server) Files() []string {
	d := fmt.Sprintf("/proc/%d/fd", s.Pid())
	l, err := ioutil.ReadDir(d)
	if err != nil {
		return nil
	}
	var r []string
	for _, f := range l {
		if t, err := os.Readlink(filepath.Join(d, f.Name())); err == nil {
			r = append(r, t)
		}
	}
	return r
}

// Login is how to log in.
func Login(user string, auth ...ssh.AuthMethod) *ssh.ClientConfig {
	return &ssh.ClientConfig{User: user, Auth: auth, HostKeyCallback: ssh.InsecureIgnoreHostKey(), Timeout: 60 * time.Second}
}

// Admin is the login of DefaultUsers.
func Admin() *ssh.ClientConfig { return Login("admin", ssh.Password("secret")) }

// Session is an open admin terminal.
type Session struct {
	conn  *ssh.Client
	sess  *ssh.Session
	in    io.WriteCloser
	mu    sync.Mutex
	out   bytes.Buffer
	wake  chan struct{}
	ended chan struct{}
	n     int
}

type outWriter struct{ s *Session }

func (o outWriter) Write(p []byte) (int, error) {
	o.s.mu.Lock()
	if o.s.out.Len() > 32<<20 {
		o.s.out.Reset()
	}
	o.s.out.Write(p)
	o.s.mu.Unlock()
	select {
	case o.s.wake <- struct{}{}:
	default:
	}
	return len(p), nil
}

// Open logs in and opens a terminal of that size.
func Open(addr string, cfg *ssh.ClientConfig, w, h int) (*Session, error) {
	conn, err := ssh.Dial("tcp", addr, cfg)
	if err != nil {
		return nil, err
	}
	s, err := OpenOn(conn, w, h)
	if err != nil {
		conn.Close()
	}
	return s, err
}

// OpenOn opens a terminal on a connection.
func OpenOn(conn *ssh.Client, w, h int) (*Session, error) {
	sess, err := conn.NewSession()
	if err != nil {
		return nil, err
	}
	s := &Session{conn: conn, sess: sess, wake: make(chan struct{}, 1), ended: make(chan struct{})}
	if s.in, err = sess.StdinPipe(); err != nil {
		return nil, err
	}
	sess.Stdout, sess.Stderr = outWriter{s}, outWriter{s}
	if err := sess.RequestPty("xterm", h, w, ssh.TerminalModes{}); err != nil {
		return nil, err
	}
	if err := sess.Shell(); err != nil {
		return nil, err
	}
	go func() {
		sess.Wait()
		close(s.ended)
	}()
	return s, nil
}

// Hasty opens a terminal on a connection and changes its size without waiting for the server to start it.
func Hasty(conn *ssh.Client, sizes [][2]int) (close func(), err error) {
	sess, err := conn.NewSession()
	if err != nil {
		return nil, err
	}
	if err := sess.RequestPty("xterm", 24, 80, ssh.TerminalModes{}); err != nil {
		sess.Close()
		return nil, err
	}
	if _, err := sess.SendRequest("shell", false, nil); err != nil {
		sess.Close()
		return nil, err
	}
	for _, s := range sizes {
		sess.WindowChange(s[1], s[0])
	}
	return func() { sess.Close() }, nil
}

// Resize changes the size of the terminal.
func (s *Session) Resize(w, h int) error { return s.sess.WindowChange(h, w) }

// Type sends bytes as typed.
func (s *Session) Type(b []byte) error {
	_, err := s.in.Write(b)
	return err
}

// Ended tells whether the server has closed the session.
func (s *Session) Ended() bool {
	select {
	case <-s.ended:
		return true
	default:
		return false
	}
}

// Output is everything shown so far.
func (s *Session) Output() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.out.String()
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;?]*[a-zA-Z]|\x1b.|\r|\x07")

// Text is the output without terminal controls.
func Text(s string) string { return ansi.ReplaceAllString(s, "") }

// WaitFor waits until the text shown from offset on contains want.
func (s *Session) WaitFor(from int, want string, patience time.Duration) bool {
	end := time.After(patience)
	for {
		o := s.Output()
		if from <= len(o) && strings.Contains(Text(o[from:]), want) {
			return true
		}
		select {
		case <-s.wake:
		case <-s.ended:
			time.Sleep(50 * time.Millisecond)
			o := s.Output()
			return from <= len(o) && strings.Contains(Text(o[from:]), want)
		case <-end:
			return false
		}
	}
}

// Ping asks for something harmless and waits for the answer.
func (s *Session) Ping(patience time.Duration) bool {
	s.mu.Lock()
	s.n++
	name := fmt.Sprintf("ping-%p-%d", s, s.n)
	from := s.out.Len()
	s.mu.Unlock()
	if s.Type([]byte("help "+name+"\r")) != nil {
		return false
	}
	return s.WaitFor(from, "Command '"+name+"' does not exist.", patience)
}

// Cmd types a line and returns the text shown up to the answer of a question asked after it.
func (s *Session) Cmd(line string, patience time.Duration) (string, bool) {
	from := len(s.Output())
	if s.Type([]byte(line+"\r")) != nil {
		return "", false
	}
	ok := s.Ping(patience)
	return Text(s.Output()[from:]), ok
}

// Close ends the session and its connection.
func (s *Session) Close() {
	s.sess.Close()
	s.conn.Close()
}

// CloseSession closes the terminal, not the connection.
func (s *Session) CloseSession() { s.sess.Close() }
