package schedule

import (
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/util"
	"github.com/LogicalOverflow/music-sync/verifkit"
)

// c21Match matches name by name of the path
func c21Match(pattern, path string) (bool, error) {
	ps, ns := strings.Split(pattern, "/"), strings.Split(path, "/")
	all := len(ps) == len(ns)
	for k, p := range ps {
		n := ""
		if k < len(ns) {
			n = ns[k]
		}
		ok, err := filepath.Match(p, n)
		if err != nil {
			return false, err
		}
		all = all && ok
	}
	return all, nil
}

// c21Matching returns the songs a pattern means, and whether the pattern is invalid.
func c21Matching(tr *verifkit.Tree, pattern string) (songs []string, invalid bool) {
	pattern = filepath.Clean(pattern)
	exact := false
	for _, s := range tr.Songs {
		ok, err := c21Match(pattern, s)
		invalid = invalid || err != nil
		if ok {
			songs = append(songs, s)
		}
		exact = exact || s == pattern
	}
	if exact {
		if ok, err := c21Match(pattern, pattern); err != nil || !ok {
			return []string{pattern}, false
		}
	}
	if _, err := c21Match(pattern, "x"); err != nil {
		invalid = true
	}
	return
}

func c21Pattern(rng *rand.Rand, tr *verifkit.Tree) string {
	name := ""
	if len(tr.Songs) > 0 {
		name = tr.Songs[rng.Intn(len(tr.Songs))]
	}
	switch rng.Intn(12) {
	case 0, 1, 2:
		if name != "" {
			return name // exactly a song
		}
		return "none.mp3"
	case 3:
		return "*"
	case 4:
		return "*.mp3"
	case 5:
		if len(tr.Dirs) > 0 {
			d := tr.Dirs[rng.Intn(len(tr.Dirs))]
			return d + []string{"/*", "/*.mp3", "/?*", ""}[rng.Intn(4)]
		}
		return "*/*"
	case 6:
		return []string{"*/*", "*/*/*", "[a-z]*", "?*.mp3", "*[0-9].mp3", "[^a]*", "*/*.txt", "*.txt", "./*.mp3", "*//*"}[rng.Intn(10)]
	case 7:
		return []string{"[", "a[", "[]a]", "[-]", "a\\", "[a", "[a-", "no such song", "", "*/[", "x["}[rng.Intn(11)]
	case 8:
		if len(tr.Others) > 0 {
			return tr.Others[rng.Intn(len(tr.Others))]
		}
	case 9:
		return "./" + name
	}
	// a song's name with a part replaced
	rs := []rune(name)
	if len(rs) == 0 {
		return "x*"
	}
	a := rng.Intn(len(rs))
	b := a + 1 + rng.Intn(len(rs)-a)
	if strings.Contains(string(rs[a:b]), "/") {
		b = a
	}
	w := "*"
	if b == a+1 {
		w = []string{"?", "[" + string(rs[a:b]) + "]", "*"}[rng.Intn(3)]
	}
	return string(rs[:a]) + w + string(rs[b:])
}

func c21Sorted(l []string) bool {
	key := func(s string) []string { return strings.Split(s, "/") }
	return sort.SliceIsSorted(l, func(i, j int) bool {
		a, b := key(l[i]), key(l[j])
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
}

var c21Positions = []string{"0", "1", "2", "3", "5", "-1", "-7", "100", "+2", "007", strconv.Itoa(math.MaxInt64), strconv.Itoa(math.MinInt64), "2147483648", "abc", "1.5", "", " 1", "0x1", "1e1"}

func TestVerif_C21_queue(t *testing.T) {
	r := verifkit.Start(t, "C21", "queue")
	defer r.Finish()
	cwd, _ := os.Getwd()
	defer os.Chdir(cwd)
	for i := 0; i < r.N(400, 10000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		tr := verifkit.NewTree(rng, rng.Intn(3) == 0, nil)
		os.Chdir(tr.Root)
		os.Symlink(tr.Dir, filepath.Join(tr.Root, "a link"))
		base := filepath.Base(tr.Dir)
		playback.AudioDir = []string{tr.Dir, tr.Dir, tr.Dir + "/", base, "./" + base, base + "/", tr.Root + "/../" + filepath.Base(tr.Root) + "/" + base, "a link"}[rng.Intn(8)]
		var start []string
		for k := rng.Intn(5); k > 0; k-- {
			start = append(start, fmt.Sprint("old", k))
		}
		ss := vState(start)
		model := append([]string{}, start...)
		cmd := ss.queueCommand()
		for k := 0; k < 8; k++ {
			pattern := c21Pattern(rng, tr)
			args := []string{pattern}
			at := len(model)
			if rng.Intn(2) == 0 {
				p := c21Positions[rng.Intn(len(c21Positions))]
				args = append(args, p)
				if n, err := strconv.Atoi(p); err == nil {
					at = n
					if at < 0 {
						at = 0
					}
					if at > len(model) {
						at = len(model)
					}
				}
			}
			var answer string
			var ok bool
			what := fmt.Sprintf("queue %q in %q (%d songs there) to a playlist of %d", args, playback.AudioDir, len(tr.Songs), len(model))
			if p := verifkit.Catch(func() { answer, ok = cmd.Exec(args) }); p != "" {
				r.Violation("crash", what+": "+p, args)
				break
			}
			got := ss.playlist.Songs()
			want, invalid := c21Matching(tr, pattern)
			if len(want) == 0 || invalid {
				if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", model) {
					r.Violation("changed", fmt.Sprintf("%s, which matches nothing, changes the playlist to %q", what, got), args)
					break
				}
				if ok && strings.TrimSpace(answer) == "" {
					r.Violation("unanswered", what+", which matches nothing, is answered by nothing", args)
					break
				}
				r.Count("matching_nothing", 1)
				r.Eval(fmt.Sprint(i, args), false)
				continue
			}
			if len(got) != len(model)+len(want) {
				r.Violation("wrong-songs", fmt.Sprintf("%s adds %d songs, %q match", what, len(got)-len(model), want), args)
				break
			}
			block := got[at : at+len(want)]
			rest := append(append([]string{}, got[:at]...), got[at+len(want):]...)
			if fmt.Sprintf("%q", rest) != fmt.Sprintf("%q", model) {
				r.Violation("wrong-position", fmt.Sprintf("%s: without the %d new songs at %d the playlist is %q, it was %q", what, len(want), at, rest, model), args)
				break
			}
			if d := verifkit.DiffLists(block, want); d != "" {
				r.Violation("wrong-songs", fmt.Sprintf("%s adds %q: %s", what, block, d), args)
				break
			}
			if !c21Sorted(block) {
				r.Violation("wrong-order", fmt.Sprintf("%s adds %q, which is not in listing order", what, block), args)
				break
			}
			for _, s := range block {
				if !util.IsFile(filepath.Join(playback.AudioDir, s)) {
					r.Violation("unplayable", fmt.Sprintf("%s adds %q, which is no file in the music directory", what, s), args)
				}
				if !strings.Contains(answer, s) {
					r.Violation("unanswered", fmt.Sprintf("%s adds %q, the answer is %q", what, s, answer), args)
				}
			}
			if !ok {
				r.Violation("unanswered", what+" adds songs and prints the usage", args)
			}
			model = got
			r.Count("songs_added", int64(len(block)))
			r.Eval(fmt.Sprint(i, args), len(block) > 1)
		}
		// without a pattern nothing happens
		before := ss.playlist.Songs()
		if p := verifkit.Catch(func() { cmd.Exec(nil) }); p != "" {
			r.Violation("crash", "queue without arguments: "+p, nil)
		} else if fmt.Sprint(before) != fmt.Sprint(ss.playlist.Songs()) {
			r.Violation("changed", "queue without arguments changes the playlist", nil)
		}
		// everything listed or completed can be queued as it is
		for _, s := range append(util.FilterSongs(util.ListAllFiles(playback.AudioDir, "")), cmd.Options("", 0)...) {
			n := len(ss.playlist.Songs())
			cmd.Exec([]string{s})
			got := ss.playlist.Songs()
			found := false
			for _, g := range got[n:] {
				found = found || g == s
			}
			if !found {
				r.Violation("listed-not-queueable", fmt.Sprintf("%q is listed in %q, queueing it adds %q", s, playback.AudioDir, got[n:]), nil)
				break
			}
			r.Count("listed_songs_queued", 1)
		}
		if d := verifkit.DiffLists(cmd.Options("", 0), tr.Songs); d != "" {
			r.Violation("wrong-options", fmt.Sprintf("completing the name of a song in %q: %s", playback.AudioDir, d), nil)
		}
		os.Chdir(cwd)
		tr.Remove()
	}
	r.Require("songs_added", 200)
}

// sessions queue at the same time: every block stays one
func TestVerif_C21_sessions(t *testing.T) {
	r := verifkit.Start(t, "C21", "sessions")
	defer r.Finish()
	root, err := ioutil.TempDir("", "c21")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(root)
	const dirs, per = 6, 7
	for d := 0; d < dirs; d++ {
		os.Mkdir(filepath.Join(root, fmt.Sprint("d", d)), 0755)
		for k := 0; k < per; k++ {
			ioutil.WriteFile(filepath.Join(root, fmt.Sprint("d", d), fmt.Sprint(k, ".mp3")), nil, 0644)
		}
	}
	playback.AudioDir = root
	for i := 0; i < r.N(150, 3000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		ss := vState([]string{"x", "y"})
		var wg sync.WaitGroup
		end := rng.Intn(2) == 0
		for d := 0; d < dirs; d++ {
			args := []string{fmt.Sprintf("d%d/*", d)}
			if !end {
				args = append(args, []string{"0", "1", "2", "1000"}[rng.Intn(4)])
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				ss.queueCommand().Exec(args)
			}()
		}
		if v, rep := verifkit.Bounded(60*time.Second, wg.Wait); v == verifkit.Stuck {
			r.Violation("hangs", "queueing from several sessions never ends", rep)
			return
		} else if v != verifkit.Completed {
			r.Inconclusive("queueing did not finish")
			return
		}
		got := ss.playlist.Songs()
		if len(got) != dirs*per+2 {
			r.Violation("wrong-songs", fmt.Sprintf("%d sessions queue %d songs each, %d were added", dirs, per, len(got)-2), got)
			return
		}
		if end { // at the end: block after block
			for k, s := range got[2:] {
				if s[2:] != fmt.Sprintf("/%d.mp3", k%per) || s[:2] != got[2+k/per*per][:2] {
					r.Violation("torn", fmt.Sprintf("songs queued to the end by several sessions are mixed: %q", got), got)
					return
				}
			}
			r.Count("appended", 1)
		} else { // in order, whatever was inserted between
			next := map[string]int{}
			for _, s := range got {
				if s == "x" || s == "y" {
					continue
				}
				if s[2:] != fmt.Sprintf("/%d.mp3", next[s[:2]]) {
					r.Violation("torn", fmt.Sprintf("songs queued at positions by several sessions are out of order: %q", got), got)
					return
				}
				next[s[:2]]++
			}
			r.Count("inserted", 1)
		}
		r.Eval(fmt.Sprintf("%q", got), true)
	}
}

// what only looks like a song - dangling links, directories, links to them - can not be played, and is not queued
func TestVerif_C21_notsongs(t *testing.T) {
	r := verifkit.Start(t, "C21", "notsongs")
	defer r.Finish()
	for i := 0; i < r.N(150, 3000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		tr := verifkit.NewTree(rng, false, nil)
		playback.AudioDir = tr.Dir
		dirs := append([]string{""}, tr.Dirs...)
		made := map[string]string{}
		for k := 1 + rng.Intn(4); k > 0; k-- {
			rel := filepath.Join(dirs[rng.Intn(len(dirs))], fmt.Sprintf("%c%d.mp3", 'a'+rng.Intn(26), k))
			path := filepath.Join(tr.Dir, rel)
			var err error
			kind := []string{"dangling link", "directory", "link to a directory", "link to itself"}[rng.Intn(4)]
			switch kind {
			case "dangling link":
				err = os.Symlink(filepath.Join(tr.Root, "gone.mp3"), path)
			case "directory":
				err = os.Mkdir(path, 0755)
			case "link to a directory":
				err = os.Symlink(tr.Root, path)
			default:
				err = os.Symlink(filepath.Base(path), path)
			}
			if err == nil {
				made[rel] = kind
			}
		}
		start := []string{"before.mp3"}
		for rel, kind := range made {
			for _, pattern := range []string{rel, filepath.Join(filepath.Dir(rel), "*"), filepath.Join(filepath.Dir(rel), "*.mp3"), filepath.Join(filepath.Dir(rel), "?"+filepath.Base(rel)[1:])} {
				ss := vState(start)
				answer, _ := ss.queueCommandExec([]string{pattern})
				got := ss.playlist.Songs()
				seen := map[string]bool{}
				for _, s := range got[1:] {
					seen[s] = true
					if fi, err := os.Stat(filepath.Join(tr.Dir, s)); err != nil || fi.IsDir() {
						r.Violation("queued-no-song", fmt.Sprintf("queue %q adds %q (a %s) to the playlist", pattern, s, made[s]), pattern)
						return
					}
				}
				if strings.Contains(answer, rel) && !strings.Contains(answer, "no song") && seen[rel] {
					r.Violation("queued-no-song", fmt.Sprintf("queue %q of a %s answers %q", pattern, kind, answer), pattern)
					return
				}
				songs, invalid := c21Matching(tr, pattern)
				for _, s := range songs {
					if !invalid && !seen[s] {
						r.Violation("not-added", fmt.Sprintf("queue %q beside a %s adds %q, but not %q", pattern, kind, got[1:], s), pattern)
						return
					}
				}
				r.Count("added", int64(len(seen)))
				r.Eval(fmt.Sprint(i, pattern), true)
			}
			r.Count(kind, 1)
		}
		os.RemoveAll(tr.Root)
	}
	r.Require("added", 50)
}
