package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifrig"
	"github.com/golang/protobuf/proto"
)

var c29Songs = map[string]int{"a.mp3": 6, "b.mp3": 5, "c d.mp3": 6, "日本.mp3": 5, "[x].mp3": 5, "sub/e.mp3": 5, "sub/f g.mp3": 5, "sub/deep/h.mp3": 5, "back\\slash.mp3": 5,
	"sub 2/i'j.mp3": 5, "%d.mp3": 5, "1.mp3": 5}

// c29Answer is what a line is answered: what is shown between its echo and the next prompt
func c29Answer(s *verifrig.Session, line string) (string, bool) {
	out, ok := s.Cmd(line, vPatience)
	if !ok {
		return out, false
	}
	ls := strings.Split(out, "\n")
	var answer []string
	for _, l := range ls[1:] {
		if strings.Contains(l, "help ping-") {
			break
		}
		answer = append(answer, l)
	}
	return strings.Join(answer, "\n"), true
}

func c29Escape(w string) string { return strings.NewReplacer("\\", "\\\\", " ", "\\ ").Replace(w) }

var c29Entry = regexp.MustCompile(`^ *\[ *(\d+) *\] (.*)$`)

// c29Listing takes an answer to playlist apart
func c29Listing(answer string) (songs []string, playing bool, current string, err string) {
	for n, l := range strings.Split(answer, "\n") {
		if m := c29Entry.FindStringSubmatch(l); m != nil && n > 0 {
			if i, _ := strconv.Atoi(m[1]); i != len(songs) {
				return nil, false, "", fmt.Sprintf("position %s instead of %d", m[1], len(songs))
			}
			songs = append(songs, m[2])
		} else if n == 0 {
			p, q := strings.Contains(strings.ToLower(l), "playing"), strings.Contains(strings.ToLower(l), "paused")
			if p == q {
				return nil, false, "", "neither playing nor paused"
			}
			playing = p
		} else if strings.HasPrefix(l, "Current Song: ") {
			current = strings.TrimPrefix(l, "Current Song: ")
		}
	}
	return
}

func c29Number(answer string, want float64) bool {
	for _, f := range regexp.MustCompile(`-?[0-9]+(\.[0-9]+)?`).FindAllString(answer, -1) {
		if v, err := strconv.ParseFloat(f, 64); err == nil && v-want < 0.0006 && want-v < 0.0006 {
			return true
		}
	}
	return false
}

var c29Help = map[string]string{"queue": "filename", "remove": "position", "jump": "position", "volume": "volume", "ls": "", "help": "", "playlist": "", "pause": "", "resume": "", "clear": "", "exit": ""}

// every answer to sessions of an admin is compared with the state the commands before it lead to
func TestVerif_C29_terminal(t *testing.T) {
	k := verifkit.Start(t, "C29", "terminal")
	defer k.Finish()
	for round := 0; round < k.N(4, 40) && !k.Failed(); round++ {
		c29Terminal(k, round)
	}
	for _, c := range []string{"queue", "remove", "jump", "volume", "pause", "resume", "playlist", "ls", "help", "misused", "current song"} {
		k.Require(c, 3)
	}
}

func c29Terminal(k *verifkit.Run, round int) {
	rng := k.Rand(round)
	w := vStart(k, c29Songs, nil, nil, fastFlags...)
	defer w.end()
	var mu sync.Mutex
	newest := ""
	var at uint64
	f, err := w.follow(func(m proto.Message) {
		if s, ok := m.(*comm.NewSongInfo); ok {
			mu.Lock()
			if newest == "" || s.FirstSampleOfSongIndex > at {
				newest, at = s.SongFileName, s.FirstSampleOfSongIndex
			}
			mu.Unlock()
		}
	}, comm.Channel_META)
	if err != nil {
		k.Inconclusive(err.Error())
		return
	}
	defer f.c.Close()
	var sessions []*verifrig.Session
	for n := 1 + rng.Intn(3); n > 0; n-- {
		s := w.admin(400, 50)
		if s == nil {
			k.Inconclusive("no admin session")
			return
		}
		defer s.Close()
		sessions = append(sessions, s)
	}
	var names []string
	for n := range c29Songs {
		names = append(names, n)
	}
	sort.Strings(names)
	var list []string
	playing := false
	var history []string
	bad := func(kind, line, answer, why string) {
		k.Violation(kind, fmt.Sprintf("%q is answered %q: %s (playlist %q, playing: %v)", line, verifkit.Short(answer, 600), why, list, playing), history)
	}
	insert := func(l []string, pos int) {
		if pos < 0 {
			pos = 0
		}
		if pos > len(list) {
			pos = len(list)
		}
		list = append(append(append([]string{}, list[:pos]...), l...), list[pos:]...)
	}
	position := func() int {
		switch rng.Intn(6) {
		case 0:
			return -1 - rng.Intn(4)
		case 1:
			return len(list) + rng.Intn(4)
		case 2:
			return []int{1 << 40, -1 << 50, 1<<63 - 1, -1 << 63}[rng.Intn(4)]
		}
		return rng.Intn(len(list) + 1)
	}
	for step := 0; step < 90 && !k.Failed(); step++ {
		s := sessions[rng.Intn(len(sessions))]
		ask := func(line string) (string, bool) {
			history = append(history, line)
			a, ok := c29Answer(s, line)
			if !ok {
				if !w.broken(line, history) {
					k.Violation("not-answered", fmt.Sprintf("%q is not answered: %q", line, a), history)
				}
			}
			return a, ok
		}
		kind := ""
		switch r := rng.Intn(12); {
		case r < 3:
			kind = "queue"
			name := names[rng.Intn(len(names))]
			songs, pattern := []string{name}, name
			if rng.Intn(5) == 0 {
				pattern, songs = "sub/*.mp3", []string{"sub/e.mp3", "sub/f g.mp3"}
			} else if rng.Intn(8) == 0 {
				pattern, songs = "missing*", nil
			}
			line, pos := "queue "+c29Escape(pattern), len(list)
			if rng.Intn(2) == 0 {
				pos = position()
				line += fmt.Sprintf(" %d", pos)
			}
			a, ok := ask(line)
			if !ok {
				return
			}
			for _, n := range songs {
				if !strings.Contains(a, n) {
					bad("untrue", line, a, "it does not name "+n)
					return
				}
			}
			for _, n := range names {
				in := false
				for _, m := range songs {
					in = in || strings.Contains(m, n)
				}
				if !in && strings.Contains(a, " "+n) && n != "1.mp3" {
					bad("untrue", line, a, "it names "+n)
					return
				}
			}
			insert(songs, pos)
		case r == 3:
			kind = "remove"
			pos := position()
			line := fmt.Sprintf("remove %d", pos)
			a, ok := ask(line)
			if !ok {
				return
			}
			if len(list) > 0 {
				if pos < 0 {
					pos = 0
				} else if pos >= len(list) {
					pos = len(list) - 1
				}
				if !strings.Contains(a, list[pos]) {
					bad("untrue", line, a, "it does not name the song "+list[pos])
					return
				}
				list = append(append([]string{}, list[:pos]...), list[pos+1:]...)
			}
		case r == 4:
			kind = "jump"
			pos := position()
			line := fmt.Sprintf("jump %d", pos)
			a, ok := ask(line)
			if !ok {
				return
			}
			if !strings.Contains(a, fmt.Sprint(pos)) {
				bad("untrue", line, a, "it does not say where to")
				return
			}
		case r == 5:
			kind = "volume"
			v := float64(rng.Intn(1001)) / 1000
			line := fmt.Sprint("volume ", v)
			a, ok := ask(line)
			if !ok {
				return
			}
			if !c29Number(a, v) {
				bad("untrue", line, a, "it does not say which volume was set")
				return
			}
		case r == 6:
			playing = rng.Intn(3) > 0
			kind = map[bool]string{true: "resume", false: "pause"}[playing]
			a, ok := ask(kind)
			if !ok {
				return
			}
			if !strings.Contains(strings.ToLower(a), kind) {
				bad("untrue", kind, a, "it does not say so")
				return
			}
		case r == 7:
			kind = "ls"
			dir := []string{"", "sub", "sub/", "sub/deep", "sub 2", "nowhere"}[rng.Intn(6)]
			line := strings.TrimSpace("ls " + c29Escape(dir))
			a, ok := ask(line)
			if !ok {
				return
			}
			want := []string{}
			for _, n := range names {
				if d := strings.TrimSuffix(dir, "/"); d == "" || strings.HasPrefix(n, d+"/") {
					want = append(want, n)
				}
			}
			got := []string{}
			for _, l := range strings.Split(a, "\n") {
				if l != "" {
					got = append(got, l)
				}
			}
			sort.Strings(got)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				bad("untrue", line, a, fmt.Sprintf("there are %q", want))
				return
			}
		case r == 8:
			kind = "help"
			var all []string
			for c := range c29Help {
				all = append(all, c)
			}
			sort.Strings(all)
			if rng.Intn(2) == 0 {
				a, ok := ask("help")
				if !ok {
					return
				}
				for _, c := range all {
					if !regexp.MustCompile(`(?m)^` + c + `\b`).MatchString(a) {
						bad("untrue", "help", a, "it does not tell of "+c)
						return
					}
				}
			} else {
				c := all[rng.Intn(len(all))]
				a, ok := ask("help " + c)
				if !ok {
					return
				}
				if !strings.Contains(a, c) || !strings.Contains(a, c29Help[c]) || strings.Contains(a, "not exist") {
					bad("untrue", "help "+c, a, "it does not help with it")
					return
				}
			}
		case r == 9:
			kind = "misused"
			if rng.Intn(4) == 0 {
				line := []string{"nothing", "QUEUE a.mp3", "queu", "rm 0", "Playlist"}[rng.Intn(5)]
				a, ok := ask(line)
				if !ok {
					return
				}
				if !strings.Contains(a, strings.Fields(line)[0]) || !strings.Contains(strings.ToLower(a), "unknown") {
					bad("untrue", line, a, "there is no such command")
					return
				}
				break
			}
			line := []string{"remove", "remove x", "remove 1x", "jump", "jump first", "jump 1.5", "volume", "volume loud", "volume 0,5", "queue", "remove 99999999999999999999", "volume 0.5x"}[rng.Intn(12)]
			a, ok := ask(line)
			if !ok {
				return
			}
			if !strings.Contains(a, strings.Fields(line)[0]+" "+c29Help[strings.Fields(line)[0]]) {
				bad("untrue", line, a, "it does not say how to use it")
				return
			}
		default:
			kind = "playlist"
		}
		// what the playlist is now
		via := sessions[rng.Intn(len(sessions))]
		a, ok := c29Answer(via, "playlist")
		if !ok {
			if !w.broken("playlist", history) {
				k.Violation("not-answered", fmt.Sprintf("%q is not answered: %q", "playlist", a), history)
			}
			return
		}
		songs, on, _, why := c29Listing(a)
		if why == "" && (on != playing || fmt.Sprint(songs) != fmt.Sprint(list)) {
			why = "that is not so"
		}
		if why != "" {
			bad("untrue-playlist", "playlist", a, why)
			return
		}
		if kind == "resume" || kind == "jump" && playing {
			// the current song is the one announced last
			said := ""
			if !verifkit.Eventually(30*time.Second, func() bool {
				mu.Lock()
				before := newest
				mu.Unlock()
				a, ok := c29Answer(via, "playlist")
				if !ok {
					return true // the next command tells
				}
				_, _, current, _ := c29Listing(a)
				mu.Lock()
				defer mu.Unlock()
				said = fmt.Sprintf("%q, announced are %q and %q", current, before, newest)
				return current == newest || current == before || newest == "" && current == "None"
			}) {
				bad("untrue-current-song", "playlist", said, "the current song is another one")
				return
			}
			k.Count("current song", 1)
		}
		k.Count(kind, 1)
		k.Eval(fmt.Sprint(round, step, kind, list), len(list) > 0)
	}
}

// several sessions at once: what they say was added and removed is what the playlist becomes
func TestVerif_C29_sessions(t *testing.T) {
	k := verifkit.Start(t, "C29", "sessions")
	defer k.Finish()
	songs := map[string]int{}
	for i := 0; i < 60; i++ {
		songs[fmt.Sprintf("s%03d.mp3", i)] = 3
	}
	name := regexp.MustCompile(`s\d\d\d\.mp3`)
	for round := 0; round < k.N(2, 20) && !k.Failed(); round++ {
		w := vStart(k, songs, nil, nil, fastFlags...)
		var wg sync.WaitGroup
		var mu sync.Mutex
		count := map[string]int{}
		failed := ""
		seed := k.Rand(round).Int63()
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				rng := rand.New(rand.NewSource(seed + int64(g)))
				s := w.admin(300, 40)
				if s == nil {
					mu.Lock()
					failed = "no session"
					mu.Unlock()
					return
				}
				defer s.Close()
				for i := 0; i < 40; i++ {
					line := fmt.Sprintf("queue s%03d.mp3 %d", rng.Intn(60), rng.Intn(5)-1)
					switch rng.Intn(5) {
					case 0, 1:
						line = fmt.Sprintf("remove %d", rng.Intn(5)-1)
					case 2:
						line = fmt.Sprintf("queue s%02d*.mp3", rng.Intn(6))
					}
					a, ok := c29Answer(s, line)
					mu.Lock()
					if !ok {
						failed = fmt.Sprintf("%q is not answered: %q", line, a)
						mu.Unlock()
						return
					}
					for _, n := range name.FindAllString(a, -1) {
						if strings.HasPrefix(line, "remove") {
							count[n]--
						} else {
							count[n]++
						}
					}
					mu.Unlock()
				}
			}(g)
		}
		wg.Wait()
		if w.broken("four sessions edit the playlist", nil) {
			w.end()
			return
		}
		if failed != "" {
			k.Violation("not-answered", failed, nil)
			w.end()
			return
		}
		s := w.admin(300, 40)
		a, ok := "", false
		if s != nil {
			a, ok = c29Answer(s, "playlist")
		}
		if !ok {
			k.Inconclusive("the playlist is not answered")
			w.end()
			return
		}
		list, _, _, why := c29Listing(a)
		total := 0
		for _, n := range list {
			count[n]--
		}
		for n, c := range count {
			if c != 0 && why == "" {
				why = fmt.Sprintf("the answers to queueing and removing %s leave %d more of it", n, c)
			}
			total++
		}
		if why != "" {
			k.Violation("untrue", fmt.Sprintf("after four sessions edited at once, the playlist is %q: %s", list, why), nil)
		}
		k.Count("songs left", int64(len(list)))
		k.Eval(fmt.Sprint(round, len(list)), total > 10)
		s.Close()
		w.end()
	}
}
