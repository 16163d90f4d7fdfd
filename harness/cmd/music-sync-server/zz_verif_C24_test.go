package main

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifrig"
	"golang.org/x/crypto/ssh"
)

var c24Commands = []string{"help", "queue", "playlist", "remove", "jump", "volume", "ls", "play", "pause", "resume", "clear", "nope", "", "HELP", "queue\\", "add"}

var c24Args = []string{"", " ", "-1", "0", "1", "2", "99999999999999999999", "-9223372036854775808", "9223372036854775807", "0x10", "1e3", "NaN", "0.5",
	"1.5", "a.mp3", "b.mp3", "*", "*.mp3", "[", "[a", "\\", "..", "../..", "/", "/etc", ".", "missing", "日本.mp3", "%s%n%d", "\x7f", "'", "\"", "a b", "a\\ b",
	strings.Repeat("x", 300), strings.Repeat("*", 40) + "b", strings.Repeat("../", 50), "\xff\xfe", "💿", "sub", "sub/*", "all"}

var c24Keys = []string{"\x1a", "\x1a\x1a\x1a", "\x00", "\x12", "\x13", "\x12a\x07", "\t", "\t\t", "\t\t\x01", "\t\t\x05", "\t\t\x0b", "\t\t\x0e\r", "q\t\t\t\x10", "\x14", "a\x14\x14\x14b",
	"\x1b[A", "\x1b[B\r", "\x1b", "\x1b[", "\x01\x0b\x19\x19", "queue \t\t\t\x01", "queue 日\t\t", "\x0c", "\x07", "\x03", "\r", "\x1b[3", "\x7f", "\x17", "\x15", "volume 0.2\x03"}

// (some change their length with their case)
var c24Letters = []string{"k", "s", "i", "ss", "\u212a", "\u017f", "\u0130", "\u1e9e", "\u023a", "\u2c65", "I\u0307", "\\", "\\ ", "é", "e\u0301", "日", "/", ".", "\xff", "\"", "*", "["}

// c24Hostile is what one admin does: lines and keys, in pieces.
func c24Hostile(rng *rand.Rand) (pieces []string, mayEnd bool) {
	for n := 1 + rng.Intn(12); n > 0; n-- {
		switch r := rng.Intn(10); {
		case r < 5:
			line := c24Commands[rng.Intn(len(c24Commands))]
			for a := rng.Intn(4); a > 0; a-- {
				line += " " + c24Args[rng.Intn(len(c24Args))]
			}
			pieces = append(pieces, line+"\r")
		case r == 7: // completed
			line := []string{"ls ", "queue ", "help ", "remove ", ""}[rng.Intn(5)]
			for a := 1 + rng.Intn(3); a > 0; a-- {
				line += c24Letters[rng.Intn(len(c24Letters))]
			}
			pieces = append(pieces, line+"\t\t\t"[:1+rng.Intn(3)], "\x15", "\x0b")
		case r < 8:
			pieces = append(pieces, c24Keys[rng.Intn(len(c24Keys))])
		case r < 9:
			b := make([]byte, 1+rng.Intn(60))
			rng.Read(b)
			pieces = append(pieces, strings.Replace(string(b), "\x04", "", -1))
		default:
			pieces = append(pieces, fmt.Sprintf("resize:%d,%d", []int{0, 1, 2, 12, 20, 80, 200, 65535, 1<<31 - 1}[rng.Intn(9)], []int{0, 1, 24, 65535}[rng.Intn(4)]))
		}
	}
	for _, p := range pieces {
		// the delete key at an empty line ends a session like ctrl-d does; exit may be completed or be found
		mayEnd = mayEnd || strings.ContainsAny(p, "\x04~") || strings.Contains(p, "\t") || strings.Contains(p, "e")
	}
	return
}

func TestVerif_C24_server(t *testing.T) {
	k := verifkit.Start(t, "C24", "server")
	defer k.Finish()
	songs := map[string]int{"a.mp3": 30, "b.mp3": 20, "日本.mp3": 10, "日本語.mp3": 10, "sub/c.mp3": 5, "a b.mp3": 3,
		"k/k.mp3": 5, "s/ss/s.mp3": 5, "i/i\u0307.mp3": 5, "\u2c65/x.mp3": 5, "é\\/[.mp3": 5, "e\u0301 /日/\".mp3": 5}
	rounds := k.N(9, 150)
	for tty := 0; tty < 2; tty++ {
		if k.Failed() {
			return
		}
		c24Server(k, tty, songs, rounds)
	}
	k.Require("hostile sessions answering afterwards", 8)
	k.Require("rounds the bystander was answered in", int64(rounds))
	k.Require("chunks received", int64(20*rounds))
}

func c24Server(k *verifkit.Run, tty int, songs map[string]int, rounds int) {
	w := vStart(k, songs, nil, []string{fmt.Sprintf("VERIF_RIG_TTY=%d", tty)}, fastFlags...)
	defer w.end()
	mode := w.srv.TTYMode()
	f, err := w.follow(nil, comm.Channel_AUDIO, comm.Channel_META)
	by := w.admin(80, 24)
	if err != nil || by == nil {
		k.Inconclusive(fmt.Sprintf("no client or admin session: %v", err))
		return
	}
	defer f.c.Close()
	defer by.Close()
	byPing := func() bool { return by.Ping(vPatience) }
	if _, ok := by.Cmd("queue a.mp3", vPatience); !ok {
		k.Inconclusive("the bystander is not answered from the start")
		return
	}
	for i := 0; i < rounds; i++ {
		rng := k.Rand(tty*1000000 + i)
		type script struct {
			Pieces        []string
			Width, Height int
			End           string
			mayEnd        bool
			s             *verifrig.Session
		}
		scripts := make([]*script, 1+rng.Intn(4))
		for j := range scripts {
			sc := &script{Width: []int{0, 1, 5, 12, 13, 20, 40, 80, 80, 200, 70000}[rng.Intn(11)], Height: rng.Intn(60), End: []string{"close", "exit", "stay", "eof"}[rng.Intn(4)]}
			sc.Pieces, sc.mayEnd = c24Hostile(rng)
			scripts[j] = sc
		}
		replay := map[string]interface{}{"tty": tty, "round": i, "sessions": scripts}
		doing := fmt.Sprintf("server with a terminal %v, round %d, admins typing %s", tty == 1, i, c24Show(scripts[0].Pieces))
		var idle *ssh.Client
		if rng.Intn(3) == 0 {
			idle = c24Stalled(w, k)
		}
		open := true
		for _, sc := range scripts {
			if sc.s = w.admin(sc.Width, sc.Height); sc.s == nil {
				open = false
			}
		}
		if w.broken(doing, replay) {
			return
		}
		if !open {
			k.Violation("no-session", doing+": a session cannot be opened any more", replay)
			return
		}
		// typed in turns, so that the sessions run at the same time
		for p := 0; p < 16; p++ {
			for _, sc := range scripts {
				if p < len(sc.Pieces) {
					if strings.HasPrefix(sc.Pieces[p], "resize:") {
						var x, y int
						fmt.Sscanf(sc.Pieces[p], "resize:%d,%d", &x, &y)
						sc.s.Resize(x, y)
						continue
					}
					sc.s.Type([]byte(sc.Pieces[p]))
					k.Count("bytes typed", int64(len(sc.Pieces[p])))
				}
			}
		}
		if tty == 1 && w.srv.TTYMode() != mode {
			k.Violation("terminal-changed", doing+": an admin session changed the settings of the server's own terminal", replay)
			return
		}
		// the bystander is answered, and its commands work
		if !by.Ping(vPatience) {
			if w.broken(doing, replay) {
				return
			}
			k.Violation("bystander", doing+": another session is not answered any more (90 s)", replay)
			return
		}
		k.Count("rounds the bystander was answered in", 1)
		for _, sc := range scripts {
			nontrivial := false
			// out of escapes, modes and lines: then it answers
			sc.s.Type([]byte("zz\x07\x07\x07zz\x03\x03\x03"))
			ended := false
			served, ok := vServed(func() bool {
				if sc.s.Ended() {
					ended = true
					return true
				}
				return sc.s.Ping(3 * time.Second)
			}, byPing, 15*time.Second, 20)
			if w.broken(doing, replay) {
				return
			}
			switch {
			case !ok:
				k.Violation("bystander", doing+": another session is not answered any more (90 s)", replay)
				return
			case !served:
				k.Violation("session-wedged", fmt.Sprintf("%s: the session typing %s (width %d) is not answered any more, while another was more than 20 times", doing, c24Show(sc.Pieces), sc.Width), replay)
				return
			case ended && !sc.mayEnd:
				k.Violation("session-ended", fmt.Sprintf("%s: the session typing %s (width %d) ended", doing, c24Show(sc.Pieces), sc.Width), replay)
				return
			case ended:
				k.Count("sessions ended by what was typed", 1)
			default:
				nontrivial = true
				k.Count("hostile sessions answering afterwards", 1)
				if text, ok := sc.s.Cmd("no-such-command 1", vPatience); !ok || !strings.Contains(text, "Unknown command 'no-such-command'") {
					k.Violation("no-answer", fmt.Sprintf("%s: an unknown command is answered by %q", doing, verifkit.Short(text, 300)), replay)
					return
				}
				if rng.Intn(2) == 0 { // what is cancelled is not executed
					if text, ok := sc.s.Cmd("no-such-thing\x03", vPatience); !ok || strings.Contains(text, "'no-such-thing'") {
						k.Violation("cancelled-executed", fmt.Sprintf("%s: a cancelled line is answered by %q", doing, verifkit.Short(text, 300)), replay)
						return
					}
				}
			}
			k.Eval(fmt.Sprintf("%d %d %q", tty, sc.Width, sc.Pieces), nontrivial)
			switch sc.End {
			case "close":
				sc.s.Close()
			case "exit":
				sc.s.Type([]byte("exit\r"))
				if served, ok := vServed(sc.s.Ended, byPing, 15*time.Second, 100); ok && !served {
					k.Violation("session-stays", doing+": a session does not end after exit, while another was answered 100 times", replay)
					return
				}
				sc.s.Close()
			case "eof":
				sc.s.Type([]byte("playlis"))
				sc.s.Close()
			case "stay":
				defer sc.s.Close()
			}
		}
		if idle != nil {
			idle.Close()
		}
		// what plays is undone by what was typed: let it play again, then there has to be new music
		by.Cmd("volume 0.3", vPatience)
		by.Cmd("queue a.mp3 0", vPatience)
		by.Cmd("queue b.mp3", vPatience)
		by.Cmd("jump 0", vPatience)
		from := f.newest()
		served, ok := vServed(func() bool { return f.newest() > from+20 && len(f.missing(from)) == 0 }, byPing, 20*time.Second, 100)
		if w.broken(doing, replay) {
			return
		}
		if ok && !served {
			if l := f.missing(from); len(l) > 0 {
				k.Violation("stream-gap", fmt.Sprintf("%s: a client does not receive chunk %d, but newer ones, while a session was answered 100 times", doing, l[0]), replay)
				return
			}
			k.Violation("stream-stopped", doing+": a client receives no more chunks though there are songs, while a session was answered 100 times", replay)
			return
		}
		if i < 2 {
			k.Sample(replay)
		}
	}
	if tty == 1 {
		k.Count("terminal settings compared", int64(rounds))
		if w.srv.TTYMode() != mode {
			k.Violation("terminal-changed", "admin sessions left the server's own terminal changed", nil)
		}
	}
	k.Count("chunks received", f.count("QueueChunkRequest"))
	k.Count("volumes received", f.count("SetVolumeRequest"))
	k.Count("songs announced", f.count("NewSongInfo"))
}

func c24Show(p []string) string { return verifkit.Short(fmt.Sprintf("%q", p), 600) }

// c24Stalled is an admin whose terminal does not take anything: much is asked, nothing is read.
func c24Stalled(w *vWorld, k *verifkit.Run) *ssh.Client {
	conn, err := ssh.Dial("tcp", w.srv.SSHAddr, verifrig.Admin())
	if err != nil {
		return nil
	}
	s, err := conn.NewSession()
	if err != nil {
		return conn
	}
	in, _ := s.StdinPipe()
	s.StdoutPipe() // never read
	s.RequestPty("xterm", 24, 80, ssh.TerminalModes{})
	if s.Shell() != nil {
		return conn
	}
	go io.WriteString(in, strings.Repeat("help\rls\rplaylist\r", 3000))
	k.Count("sessions not reading", 1)
	time.Sleep(300 * time.Millisecond)
	return conn
}

func TestMain(m *testing.M) { os.Exit(m.Run()) }
