package ssh

import (
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"crypto/ed25519"

	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/gliderlabs/ssh"
	gossh "golang.org/x/crypto/ssh"
)

type c23Context struct {
	context.Context
	sync.Mutex
	user string
}

func (c *c23Context) User() string                    { return c.user }
func (c *c23Context) SessionID() string               { return "session" }
func (c *c23Context) ClientVersion() string           { return "client" }
func (c *c23Context) ServerVersion() string           { return "server" }
func (c *c23Context) RemoteAddr() net.Addr            { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (c *c23Context) LocalAddr() net.Addr             { return c.RemoteAddr() }
func (c *c23Context) Permissions() *ssh.Permissions   { return nil }
func (c *c23Context) SetValue(key, value interface{}) {}

func c23Word(rng *rand.Rand) string {
	if rng.Intn(3) == 0 {
		return string([]rune("ab01")[rng.Intn(4)])
	}
	var b strings.Builder
	for n := rng.Intn(4); n > 0; n-- {
		b.WriteString([]string{"a", "b", "A", "é", " ", "\x00", "名", "\"", "\\", "0", "%", "\n", "\r", "\t", "e\u0301", "\u00a0"}[rng.Intn(16)])
	}
	return b.String()
}

// c23Near makes a word which is almost w
func c23Near(rng *rand.Rand, w string) string {
	r := []rune(w)
	switch rng.Intn(7) {
	case 0:
		return strings.TrimSpace(w)
	case 1:
		return w + []string{" ", "\n", "\r\n", "\x00", "a"}[rng.Intn(5)]
	case 2:
		return []string{" ", "\n", "\x00", "a"}[rng.Intn(4)] + w
	case 3:
		return strings.ToUpper(w)
	case 4:
		return strings.ToLower(w)
	case 5:
		if len(r) > 0 {
			return string(r[:len(r)-1])
		}
	case 6:
		if len(r) > 0 {
			return string(r[1:])
		}
	}
	return w + w
}

func TestVerif_C23_handlers(t *testing.T) {
	k := verifkit.Start(t, "C23", "handlers")
	defer k.Finish()
	dir, err := ioutil.TempDir(os.Getenv("VERIF_WORK"), "users")
	if err != nil {
		t.Fatal(err)
	}
	var keys []ssh.PublicKey
	for i := 0; i < 20; i++ {
		pub, _, _ := ed25519.GenerateKey(k.Rand(1000000 + i))
		key, err := gossh.NewPublicKey(pub)
		if err != nil {
			t.Fatal(err)
		}
		keys = append(keys, key)
	}
	n := k.N(2000, 100000)
	for i := 0; i < n && !k.Failed(); i++ {
		rng := k.Rand(i)
		type user struct {
			Password string `json:"password"`
			PubKey   []byte `json:"pubKey"`
			good     ssh.PublicKey
		}
		users := map[string]user{}
		var names []string
		for j := rng.Intn(8); j > 0; j-- {
			u := user{}
			if rng.Intn(4) != 0 {
				u.Password = c23Word(rng)
			}
			if key := keys[rng.Intn(len(keys))]; rng.Intn(2) == 0 {
				u.PubKey, u.good = key.Marshal(), key
				if rng.Intn(3) == 0 {
					u.good = nil
					u.PubKey = u.PubKey[:rng.Intn(len(u.PubKey))]
				} else if rng.Intn(4) == 0 {
					u.good = nil
					u.PubKey = append(append([]byte{}, u.PubKey...), byte(rng.Intn(3)))
				}
			}
			n := c23Word(rng)
			users[n] = u
			names = append(names, n)
		}
		b, _ := json.Marshal(users)
		p := filepath.Join(dir, "users.json")
		ioutil.WriteFile(p, b, 0644)
		read, err := ReadUsersFile(p)
		if err != nil {
			k.Violation("users", fmt.Sprintf("the users file %s can not be read: %v", b, err), string(b))
			return
		}
		srv := &ssh.Server{}
		for _, o := range getSSHOptions(read) {
			if err := o(srv); err != nil {
				k.Violation("options", err.Error(), string(b))
				return
			}
		}
		if srv.PasswordHandler == nil || srv.PublicKeyHandler == nil {
			k.Violation("options", "logins are not checked", nil)
			return
		}
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(rng *rand.Rand) {
				defer wg.Done()
				for j := 0; j < 60; j++ {
					name := c23Word(rng)
					if len(names) > 0 && rng.Intn(4) != 0 {
						name = names[rng.Intn(len(names))]
						if rng.Intn(5) == 0 {
							name = c23Near(rng, name)
						}
					}
					u, known := users[name]
					c := &c23Context{Context: context.Background(), user: name}
					var got, want bool
					var what string
					if rng.Intn(2) == 0 {
						pw := c23Word(rng)
						switch rng.Intn(5) {
						case 0:
							pw = u.Password
						case 2:
							pw = c23Near(rng, u.Password)
						case 1:
							if len(names) > 0 {
								pw = users[names[rng.Intn(len(names))]].Password
							}
						}
						want = known && pw != "" && pw == u.Password
						got = srv.PasswordHandler(c, pw)
						what = fmt.Sprintf("password %q", pw)
					} else {
						key := keys[rng.Intn(len(keys))]
						if u.good != nil && rng.Intn(2) == 0 {
							key = u.good
						}
						want = known && u.good != nil && string(key.Marshal()) == string(u.good.Marshal())
						got = srv.PublicKeyHandler(c, key)
						what = fmt.Sprintf("key %x", key.Marshal())
					}
					k.Count("attempts", 1)
					if want {
						k.Count("attempts to be granted", 1)
					}
					if got != want {
						k.Violation("login", fmt.Sprintf("user %q with %s: granted %v, though the users file says %v", name, what, got, want), map[string]interface{}{"users": string(b), "user": name, "secret": what})
						return
					}
				}
			}(k.Rand(i*10 + g + 5000000))
		}
		wg.Wait()
		k.Eval(string(b), len(users) > 0)
		k.Sample(string(b))
	}
	k.Require("attempts to be granted", int64(n))
}
