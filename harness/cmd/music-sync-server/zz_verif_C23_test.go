package main

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifrig"
	"golang.org/x/crypto/ssh"
)

// c23Keys are keys of all kinds.
func c23Keys(k *verifkit.Run, n int) (keys []ssh.Signer) {
	for i := 0; i < n; i++ {
		var raw interface{}
		var err error
		switch i % 4 {
		case 0, 1:
			_, raw, err = ed25519.GenerateKey(crand.Reader)
		case 2:
			raw, err = ecdsa.GenerateKey([]elliptic.Curve{elliptic.P256(), elliptic.P384(), elliptic.P521()}[i/4%3], crand.Reader)
		case 3:
			raw, err = rsa.GenerateKey(crand.Reader, 1024)
		}
		if err != nil {
			k.T.Fatal(err)
		}
		s, err := ssh.NewSignerFromKey(raw)
		if err != nil {
			k.T.Fatal(err)
		}
		keys = append(keys, s)
	}
	return
}

// c23Key is a key of these bytes.
type c23Key struct {
	algo string
	b    []byte
}

func (k c23Key) Type() string                        { return k.algo }
func (k c23Key) Marshal() []byte                     { return k.b }
func (k c23Key) Verify([]byte, *ssh.Signature) error { return nil }

// c23Forger presents another's key, which it does not have the private part of.
type c23Forger struct {
	pub ssh.PublicKey
	own ssh.Signer
}

func (f c23Forger) PublicKey() ssh.PublicKey { return f.pub }
func (f c23Forger) Sign(r io.Reader, data []byte) (*ssh.Signature, error) {
	s, err := f.own.Sign(r, data)
	if err == nil && f.pub.Type() != f.own.PublicKey().Type() {
		s.Format = f.pub.Type()
	}
	return s, err
}

type c23User struct {
	Name, Password string
	key            ssh.Signer // whose public part is configured, nil if none or it is malformed
	pub            []byte     // as configured
}

type c23Attempt struct {
	User    string
	Second  string // the user of the second method, if it differs
	Methods []string
	auth    []ssh.AuthMethod
	Granted bool
	forged  bool // an invalid key or signature ends the connection
	byFirst bool // whether it would be granted to the first user presenting everything
	Note    string
}

var c23Names = []string{"a", "A", "admin", "Admin", "admin ", "adm", "root", "bob", "ünïcödé", "名前", "", "x y", "a\nb", "0", "null", strings.Repeat("n", 300)}

// c23Secret is a password related to others.
func c23Secret(rng *rand.Rand, others []string) string {
	if len(others) > 0 && rng.Intn(2) == 0 {
		o := others[rng.Intn(len(others))]
		switch rng.Intn(7) {
		case 0:
			return o
		case 1:
			return o + " "
		case 2:
			return o + "\x00"
		case 3:
			if len(o) > 0 {
				return o[:len(o)-1]
			}
		case 4:
			return strings.ToUpper(o)
		case 5:
			return " " + o
		case 6:
			return o + o
		}
	}
	pool := []string{"secret", "password", "p", "pässwörd", "パス", "with space", "tab\there", "null", "\"quoted\"", "%s%d", strings.Repeat("long", 100), "0"}
	if rng.Intn(3) == 0 {
		return fmt.Sprintf("pw%x", rng.Int63())
	}
	return pool[rng.Intn(len(pool))]
}

func c23Malformed(rng *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	switch rng.Intn(7) {
	case 0:
		return b[:rng.Intn(len(b)-1)+1]
	case 1:
		return append(b, byte(rng.Intn(256)))
	case 2:
		r := make([]byte, 1+rng.Intn(60))
		rng.Read(r)
		return r
	case 3:
		b[3]++
		return b
	case 4:
		return append([]byte{0, 0, 0, 9}, []byte("ssh-dummy\x00\x00\x00\x00")...)
	case 5:
		return []byte("ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAI comment")
	}
	return append(b, b...)
}

func TestVerif_C23_logins(t *testing.T) {
	k := verifkit.Start(t, "C23", "logins")
	defer k.Finish()
	keys := c23Keys(k, 12)
	rounds := k.N(40, 1000)
	for i := 0; i < rounds && !k.Failed(); i++ {
		c23Round(k, i, keys)
	}
	k.Require("logins granted", int64(rounds*20))
	k.Require("logins refused", int64(rounds*50))
	k.Require("terminals used", int64(rounds*2))
	k.Require("connections skipping the login", int64(rounds*2))
}

func c23Round(k *verifkit.Run, i int, keys []ssh.Signer) {
	rng := k.Rand(i)
	users := map[string]c23User{}
	var passwords []string
	for _, n := range rng.Perm(len(c23Names))[:3+rng.Intn(6)] {
		u := c23User{Name: c23Names[n]}
		if rng.Intn(4) != 0 {
			u.Password = c23Secret(rng, passwords)
			passwords = append(passwords, u.Password)
		}
		switch key := keys[rng.Intn(len(keys)-2)]; rng.Intn(4) { // the last two keys are nobody's
		case 0, 1:
			u.key, u.pub = key, key.PublicKey().Marshal()
		case 2:
			u.pub = c23Malformed(rng, key.PublicKey().Marshal())
		}
		users[u.Name] = u
	}
	users["the admin"] = c23User{Name: "the admin", Password: "the password"}
	var config []string // written by hand: fields in any order and missing
	name := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	var names []string
	for n, u := range users {
		names = append(names, n)
		var f []string
		if u.Password != "" || len(n)%2 == 0 {
			f = append(f, `"password": `+name(u.Password))
		}
		if u.pub != nil {
			b, _ := json.Marshal(u.pub)
			f = append(f, `"pubKey": `+string(b))
		}
		if len(n)%3 == 0 {
			for a, b := 0, len(f)-1; a < b; a, b = a+1, b-1 {
				f[a], f[b] = f[b], f[a]
			}
		}
		config = append(config, name(n)+": {"+strings.Join(f, ", ")+"}")
	}
	w := vStart(k, map[string]int{"a.mp3": 5}, []byte("{"+strings.Join(config, ",\n")+"}"), nil)
	defer w.end()
	sortStrings(names)

	var attempts []*c23Attempt
	for j := 0; j < 150; j++ {
		attempts = append(attempts, c23Draw(rng, users, names, keys, passwords))
	}
	var wg sync.WaitGroup
	next := make(chan *c23Attempt)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for a := range next {
				if !k.Failed() {
					c23Try(k, w, i, config, a, g == 0)
				}
			}
		}(g)
	}
	for _, a := range attempts {
		next <- a
	}
	close(next)
	wg.Wait()
	if k.Failed() || w.broken("logins", config) {
		return
	}
	for j := 0; j < 3; j++ {
		c23Skip(k, w, i, j)
	}
	// nothing that was tried had an effect
	s, err := verifrig.Open(w.srv.SSHAddr, verifrig.Login("the admin", ssh.Password("the password")), 80, 24)
	if w.broken("attempts to get around the login", nil) {
		return
	}
	if err != nil {
		k.Violation("refused", fmt.Sprintf("after %d attempts of others, the admin can not log in: %v", len(attempts), err), config)
		return
	}
	defer s.Close()
	if out, ok := s.Cmd("playlist", vPatience); ok && strings.Contains(out, "a.mp3") {
		k.Violation("command", "a song was queued though nobody allowed to did", config)
	}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// c23Draw draws an attempt and computes whether it must be granted.
func c23Draw(rng *rand.Rand, users map[string]c23User, names []string, keys []ssh.Signer, passwords []string) *c23Attempt {
	a := &c23Attempt{User: names[rng.Intn(len(names))]}
	if rng.Intn(6) == 0 {
		a.User = c23Names[rng.Intn(len(c23Names))]
	}
	user := a.User
	if rng.Intn(12) == 0 {
		if o := names[rng.Intn(len(names))]; o != user && !strings.Contains(user, "\x00") {
			a.Second = o
		}
	}
	passwordMethod := func() {
		var tries []string
		u, known := users[user]
		for n := 1 + rng.Intn(2)*rng.Intn(3); n > 0; n-- {
			p := c23Secret(rng, append(append([]string{}, passwords...), u.Password, ""))
			switch rng.Intn(5) {
			case 0, 1:
				p = u.Password
			case 2:
				p = ""
			}
			tries = append(tries, p)
			f, firstKnown := users[a.User]
			a.byFirst = a.byFirst || firstKnown && f.Password != "" && p == f.Password
			a.Granted = a.Granted || known && u.Password != "" && p == u.Password
		}
		a.Methods = append(a.Methods, fmt.Sprintf("passwords %q", tries))
		next := 0
		a.auth = append(a.auth, ssh.RetryableAuthMethod(ssh.PasswordCallback(func() (string, error) {
			p := tries[next%len(tries)]
			next++
			return p, nil
		}), len(tries)))
	}
	keyMethod := func() {
		u := users[user]
		own := keys[rng.Intn(len(keys))]
		if u.key != nil && rng.Intn(3) != 0 {
			own = u.key
		}
		switch {
		case u.pub != nil && u.key == nil && rng.Intn(2) == 0: // the malformed bytes, as configured
			a.auth = append(a.auth, ssh.PublicKeys(c23Forger{c23Key{"ssh-ed25519", u.pub}, own}))
			a.Methods = append(a.Methods, "the malformed key")
			a.forged = true
		case rng.Intn(4) == 0:
			victim := keys[rng.Intn(len(keys))]
			if u.key != nil {
				victim = u.key
			}
			for own == victim {
				own = keys[rng.Intn(len(keys))]
			}
			a.auth = append(a.auth, ssh.PublicKeys(c23Forger{victim.PublicKey(), own}))
			a.Methods = append(a.Methods, "a forged "+victim.PublicKey().Type()+" key")
			a.forged = true
		default:
			a.auth = append(a.auth, ssh.PublicKeys(own))
			right := u.key != nil && string(own.PublicKey().Marshal()) == string(u.pub)
			a.Methods = append(a.Methods, fmt.Sprintf("a %s key (the configured one: %v)", own.PublicKey().Type(), right))
			f := users[a.User]
			a.byFirst = a.byFirst || f.key != nil && string(own.PublicKey().Marshal()) == string(f.pub)
			a.Granted = a.Granted || right
		}
	}
	switch kind := rng.Intn(8); {
	case a.Second != "" || kind == 0:
		first, second := passwordMethod, keyMethod
		if rng.Intn(2) == 0 {
			first, second = second, first
		}
		first()
		if a.Second != "" {
			// a library naming two users stops when the first is let in
			user = a.Second
		}
		second()
	case kind == 1:
	case kind < 5:
		passwordMethod()
	default:
		keyMethod()
	}
	return a
}

func c23Try(k *verifkit.Run, w *vWorld, round int, config []string, a *c23Attempt, terminal bool) {
	replay := map[string]interface{}{"round": round, "users": config, "attempt": a}
	user := a.User
	if a.Second != "" {
		user += "\x00" + a.Second
	}
	for try := 0; ; try++ {
		conn, err := ssh.Dial("tcp", w.srv.SSHAddr, verifrig.Login(user, a.auth...))
		if err == nil {
			defer conn.Close()
			break
		}
		if !a.Granted || a.forged {
			k.Count("logins refused", 1)
			k.Eval(fmt.Sprint(a.User, a.Methods), true)
			return
		}
		if w.broken(fmt.Sprintf("a login as %q with %s", a.User, a.Methods), replay) {
			return
		}
		if strings.Contains(err.Error(), "unable to authenticate") {
			detail := fmt.Sprintf("user %q (then %q) presenting %s is refused, though the users file grants it: %v", a.User, a.Second, a.Methods, err)
			if a.Second != "" && !a.byFirst {
				k.Recorded("other-user-refused", "(the second user's secret judged by the first user's entry) "+detail, replay)
			} else {
				k.Violation("refused", detail, replay)
			}
			return
		}
		if try == 3 {
			k.Inconclusive(fmt.Sprintf("no connection: %v", err))
			return
		}
		time.Sleep(time.Second)
	}
	if !a.Granted {
		detail := fmt.Sprintf("user %q (then %q) presenting %s gets in, though the users file does not grant it", a.User, a.Second, a.Methods)
		if a.Second != "" && a.byFirst {
			k.Recorded("other-user-granted", "(the second user's secret judged by the first user's entry) "+detail, replay)
		} else {
			k.Violation("granted", detail, replay)
		}
		return
	}
	k.Count("logins granted", 1)
	k.Eval(fmt.Sprint(a.User, a.Methods), true)
	k.Sample(replay)
	if !terminal || a.Second != "" {
		return
	}
	a.auth = nil
	s, err := verifrig.Open(w.srv.SSHAddr, verifrig.Login("the admin", ssh.Password("the password")), 80, 24)
	if err != nil {
		return
	}
	defer s.Close()
	if out, ok := s.Cmd("playlist", vPatience); ok && strings.Contains(out, "Playlist") {
		k.Count("terminals used", 1)
	}
}

// c23Skip connects and asks for a terminal without a login.
func c23Skip(k *verifkit.Run, w *vWorld, round, how int) {
	k.Count("connections skipping the login", 1)
	done := make(chan string, 1)
	c, err := net.DialTimeout("tcp", w.srv.SSHAddr, time.Minute)
	if err != nil {
		return
	}
	defer c.Close()
	if how == 2 { // without any encryption
		packet := func(p ...byte) {
			pad := 8 - (len(p)+5)%8 + 8
			n := 1 + len(p) + pad
			c.Write(append(append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), byte(pad)}, p...), make([]byte, pad)...))
		}
		str := func(s string) []byte { return append([]byte{0, 0, byte(len(s) >> 8), byte(len(s))}, s...) }
		c.Write([]byte("SSH-2.0-OpenSSH_8.0\r\n"))
		packet(52)
		packet(append([]byte{90}, append(str("session"), 0, 0, 0, 0, 0, 16, 0, 0, 0, 1, 0, 0)...)...)
		packet(append([]byte{98, 0, 0, 0, 0}, append(append(str("exec"), 0), str("queue a.mp3")...)...)...)
		packet(append([]byte{94, 0, 0, 0, 0}, str("queue a.mp3\r")...)...)
		c.SetReadDeadline(time.Now().Add(20 * time.Second))
		io.Copy(struct{ io.Writer }{&strings.Builder{}}, c)
		return
	}
	go func() {
		conn, chans, reqs, err := ssh.NewClientConn(c, w.srv.SSHAddr, verifrig.Login("\x00skip"))
		if err != nil {
			done <- ""
			return
		}
		client := ssh.NewClient(conn, chans, reqs)
		if how == 1 {
			client.SendRequest("tcpip-forward", true, nil)
		}
		s, err := client.NewSession()
		if err != nil {
			done <- ""
			return
		}
		s.RequestPty("xterm", 80, 24, ssh.TerminalModes{})
		in, _ := s.StdinPipe()
		s.Shell()
		in.Write([]byte("queue a.mp3\r"))
		done <- "a session was opened without any login"
	}()
	select {
	case m := <-done:
		if m != "" {
			k.Violation("no-login", m, map[string]interface{}{"round": round, "how": how})
		}
	case <-time.After(vPatience):
		// a server which does not answer lets nobody in
	}
}
