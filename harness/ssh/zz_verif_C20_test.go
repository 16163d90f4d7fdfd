package ssh

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode"

	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/ssh/parser"
	"github.com/LogicalOverflow/music-sync/verifkit"
)

// c20Split splits what stands before the cursor: its complete words and the one at the cursor.
func c20Split(line string) (words []string, last string) {
	rs := []rune(line)
	cur, any := []rune{}, false
	for i := 0; i < len(rs); i++ {
		switch {
		case rs[i] == ' ':
			if any {
				words = append(words, string(cur))
			}
			cur, any = nil, false
		case rs[i] == '\\' && i+1 < len(rs) && (rs[i+1] == ' ' || rs[i+1] == '\\'):
			i++
			cur, any = append(cur, rs[i]), true
		default:
			cur, any = append(cur, rs[i]), true
		}
	}
	return words, string(cur)
}

var c20Pieces = []string{"a", "b", "ab", " ", "  ", "\\", "é", "世", "song", ".mp3", "-", "'", "\"", "[1]", "/", "*", "x y", "ü", "k", "s", "i", "ss",
	"\u212a" /* Kelvin */, "\u017f" /* long s */, "\u0130" /* dotted I */, "\u1e9e" /* sharp S */, "\u023a", "K", "I", "i\u0307"}

func c20Name(rng *rand.Rand, command bool) string {
	s := ""
	for k := 1 + rng.Intn(5); k > 0; k-- {
		s += c20Pieces[rng.Intn(len(c20Pieces))]
	}
	if command {
		s = strings.TrimSpace(s)
	}
	if s == "" {
		s = "a"
	}
	return s
}

var c20Options = struct {
	sync.Mutex
	m map[string][][]string // of each argument of each command
}{m: map[string][][]string{}}

// (the valid options for a place)
func c20Valid(names []string, words []string) []string {
	if len(words) == 0 {
		return names
	}
	c20Options.Lock()
	defer c20Options.Unlock()
	o := c20Options.m[words[0]]
	if len(words)-1 < len(o) {
		return o[len(words)-1]
	}
	return nil
}

func c20Escape(w string) string {
	return strings.NewReplacer("\\", "\\\\", " ", "\\ ").Replace(w)
}

func TestVerif_C20_completions(t *testing.T) {
	r := verifkit.Start(t, "C20", "completions")
	defer r.Finish()
	rng := r.Rand(-1)
	names := []string{"clear", "exit", "help", "ls"}
	for k := 0; k < 40; k++ {
		name := c20Name(rng, true)
		if k < 8 {
			name = []string{"queue", "que", "quéue", "a b", "a\\", "a\\b", "x", "世 界"}[k]
		}
		dup := false
		for _, n := range names {
			dup = dup || n == name
		}
		if dup {
			continue
		}
		names = append(names, name)
		var args [][]string
		for a := rng.Intn(4); a >= 0; a-- {
			var opts []string
			many := rng.Intn(12)
			if len(names) == 5 { // "queue"
				many = 1500
			}
			for o := many; o >= 0; o-- {
				n := c20Name(rng, false)
				if rng.Intn(3) == 0 && len(opts) > 0 {
					n = opts[rng.Intn(len(opts))] + n // shares a prefix
				}
				opts = append(opts, n)
			}
			args = append(args, opts)
		}
		c20Options.m[name] = args
		full := rng.Intn(2) == 0
		RegisterCommand(Command{Name: name, ExecFunc: func([]string) (string, bool) { return "", true },
			OptionsFunc: func(prefix string, arg int) []string {
				if arg < 0 || arg >= len(args) {
					return []string{}
				}
				if full {
					return append([]string{}, args[arg]...)
				}
				var f []string
				for _, o := range args[arg] {
					if strings.HasPrefix(o, prefix) {
						f = append(f, o)
					}
				}
				return f
			}})
	}
	sac := &sshAutoCompleter{}
	check := func(line []rune, pos int) bool {
		before := string(line[:pos])
		var cand [][]rune
		var p string
		if p = verifkit.Catch(func() { cand, _ = sac.Do(append([]rune{}, line...), pos) }); p != "" {
			r.Violation("crash", fmt.Sprintf("completing %q at %d: %s", string(line), pos, p), string(line))
			return false
		}
		if strings.HasPrefix(before, " ") {
			r.Eval(before, false)
			return true // (a line starting with a space has no command)
		}
		words, last := c20Split(before)
		valid := map[string]bool{}
		if len(words) == 0 || words[0] != "help" && words[0] != "ls" {
			for _, o := range c20Valid(names, words) {
				if strings.HasPrefix(o, last) {
					valid[o] = true
				}
			}
		} else if words[0] == "help" && len(words) == 1 {
			for _, n := range names {
				if strings.HasPrefix(n, last) {
					valid[n] = true
				}
			}
		} else if words[0] == "ls" {
			return true // judged by another monitor
		}
		offered := map[string]bool{}
		for _, c := range cand {
			line := before + string(c)
			pc := parser.ParseCommand(line)
			got := append([]string{}, pc.Parameters...)
			if pc.Command != "" {
				got = append([]string{pc.Command}, got...)
			}
			ok := len(got) == len(words)+1
			for k := range words {
				ok = ok && got[k] == words[k]
			}
			if !ok || !valid[got[len(got)-1]] {
				r.Violation("wrong-completion", fmt.Sprintf("completing %q by %q is parsed to %q; the valid words there are %q", before, string(c), got, c20Keys(valid)), before)
				return false
			}
			offered[got[len(got)-1]] = true
		}
		for o := range valid {
			if !offered[o] {
				r.Violation("not-offered", fmt.Sprintf("completing %q, %q is not offered (offered: %q)", before, o, c20Keys(offered)), before)
				return false
			}
		}
		r.Count("completions", int64(len(cand)))
		r.Eval(before, len(cand) > 0)
		return true
	}
	for i := 0; i < r.N(4000, 120000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		var ws []string
		name := names[rng.Intn(len(names))]
		ws = append(ws, name)
		o := c20Options.m[name]
		for a := 0; a < len(o) && rng.Intn(3) > 0; a++ {
			ws = append(ws, o[a][rng.Intn(len(o[a]))])
		}
		line := ""
		for k, w := range ws {
			if k > 0 {
				line += strings.Repeat(" ", 1+rng.Intn(2))
			}
			if k > 0 && rng.Intn(8) == 0 {
				w = c20Fold(rng, w)
			}
			if rng.Intn(8) == 0 && !strings.Contains(w, " ") {
				line += w // backslashes as typed
			} else {
				line += c20Escape(w)
			}
		}
		switch rng.Intn(4) {
		case 0:
			line += " "
		case 1:
			line += c20Pieces[rng.Intn(len(c20Pieces))]
		}
		rs := []rune(line)
		pos := len(rs)
		if rng.Intn(2) == 0 {
			pos = rng.Intn(len(rs) + 1) // the cursor is anywhere
		}
		if !check(rs, pos) {
			return
		}
	}
	// every line of few characters
	depth := 5
	if r.Thorough() {
		depth = 7
	}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		if r.Failed() || !check([]rune(s), len([]rune(s))) || n == 0 {
			return
		}
		for _, c := range []string{"a", " ", "\\", "b"} {
			rec(s+c, n-1)
		}
	}
	rec("", depth)
	r.Require("completions", 1000)
}

func c20Keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	if len(r) > 12 {
		r = append(r[:12], "...")
	}
	return r
}

// c20Fold spells w in another case
func c20Fold(rng *rand.Rand, w string) string {
	rs := []rune(w)
	for i, c := range rs {
		switch rng.Intn(4) {
		case 0:
			rs[i] = unicode.ToUpper(c)
		case 1:
			rs[i] = unicode.ToLower(c)
		case 2:
			rs[i] = unicode.SimpleFold(c)
		}
	}
	return string(rs)
}

// sub directories for ls
func TestVerif_C20_directories(t *testing.T) {
	r := verifkit.Start(t, "C20", "directories")
	defer r.Finish()
	sac := &sshAutoCompleter{}
	for i := 0; i < r.N(40, 600) && !r.Failed(); i++ {
		rng := r.Rand(i)
		root, err := ioutil.TempDir("", "c20")
		if err != nil {
			t.Fatal(err)
		}
		dir := filepath.Join(root, []string{"music", "m [x]", "mü", "a b"}[rng.Intn(4)])
		if err := os.Mkdir(dir, 0755); err != nil {
			t.Fatal(err)
		}
		dirs := []string{""}
		many := rng.Intn(15)
		if i%10 == 9 {
			many = 150 + rng.Intn(400)
		}
		for k := many; k >= 0; k-- {
			n := strings.Replace(c20Name(rng, false), "/", "_", -1)
			d := filepath.Join(dirs[rng.Intn(len(dirs))], n)
			if os.Mkdir(filepath.Join(dir, d), 0755) == nil {
				dirs = append(dirs, d)
			}
		}
		for k := 0; k < 5; k++ {
			ioutil.WriteFile(filepath.Join(dir, dirs[rng.Intn(len(dirs))], fmt.Sprint("ab", k, ".mp3")), nil, 0644)
		}
		playback.AudioDir = dir
		if rng.Intn(3) == 0 {
			playback.AudioDir = dir + "/"
		}
		for k := 0; k < 12 && !r.Failed(); k++ {
			d := dirs[rng.Intn(len(dirs))]
			if rng.Intn(2) == 0 && d != "" {
				d += "/"
			}
			rs := []rune(d)
			prefix := string(rs[:rng.Intn(len(rs)+1)])
			if rng.Intn(4) == 0 { // no prefix, or by chance
				prefix = c20Fold(rng, prefix)
			}
			line := "ls " + c20Escape(prefix)
			want := map[string]bool{}
			for _, d := range dirs[1:] {
				if strings.HasPrefix(d, prefix) && !strings.Contains(d[len(prefix):], "/") {
					want[d+"/"] = true
				}
			}
			var cand [][]rune
			if p := verifkit.Catch(func() { cand, _ = sac.Do([]rune(line), len([]rune(line))) }); p != "" {
				r.Violation("crash", fmt.Sprintf("completing %q with the directories %q: %s", line, dirs, p), line)
				return
			}
			got := map[string]bool{}
			for _, c := range cand {
				pc := parser.ParseCommand(line + string(c))
				if pc.Command != "ls" || len(pc.Parameters) != 1 {
					r.Violation("wrong-completion", fmt.Sprintf("completing %q by %q is parsed to %q %q", line, string(c), pc.Command, pc.Parameters), line)
					return
				}
				p := pc.Parameters[0]
				if !strings.HasPrefix(p, prefix) {
					r.Violation("wrong-completion", fmt.Sprintf("completing %q leads to %q", line, p), line)
					return
				}
				if fi, err := os.Stat(filepath.Join(dir, p)); err != nil || !fi.IsDir() {
					r.Violation("wrong-completion", fmt.Sprintf("completing %q leads to %q, which is no sub directory", line, p), line)
					return
				}
				got[p] = true
			}
			for w := range want {
				if !got[w] && !got[strings.TrimSuffix(w, "/")] {
					r.Violation("not-offered", fmt.Sprintf("completing %q, the directory %q is not offered (offered: %q)", line, w, c20Keys(got)), line)
					return
				}
			}
			r.Count("completions", int64(len(cand)))
			r.Eval(line, len(cand) > 0)
		}
		os.RemoveAll(root)
	}
}

// anything at all, in time
func TestVerif_C20_hostile(t *testing.T) {
	r := verifkit.Start(t, "C20", "hostile")
	defer r.Finish()
	sac := &sshAutoCompleter{}
	playback.AudioDir = filepath.Join(os.TempDir(), "does-not-exist")
	for i := 0; i < r.N(1500, 40000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		var rs []rune
		n := rng.Intn(40)
		if rng.Intn(100) == 0 {
			n = 300
		}
		for k := 0; k < n; k++ {
			switch rng.Intn(4) {
			case 0:
				rs = append(rs, []rune("ls help \\\\ abé")[rng.Intn(14)])
			case 1:
				rs = append(rs, []rune{0, -1, 0xd800, 0x10ffff, 0x110000, 0x7fffffff, 0xfffd, '\n', '\x1b', '\t'}[rng.Intn(10)])
			case 2:
				rs = append(rs, rune(rng.Intn(128)))
			default:
				rs = append(rs, rune(rng.Intn(0x20000)))
			}
		}
		pos := rng.Intn(len(rs) + 1)
		var p string
		v, rep := verifkit.Bounded(60*time.Second, func() { p = verifkit.Catch(func() { sac.Do(rs, pos) }) })
		if v == verifkit.Stuck {
			r.Violation("hangs", fmt.Sprintf("completing %q", string(rs)), rep)
			return
		} else if v != verifkit.Completed {
			r.Inconclusive("completing did not finish")
			return
		}
		if p != "" {
			r.Violation("crash", fmt.Sprintf("completing %q at %d: %s", string(rs), pos, p), string(rs))
			return
		}
		r.Eval(string(rs)+fmt.Sprint(pos), len(rs) > 0)
	}
}
