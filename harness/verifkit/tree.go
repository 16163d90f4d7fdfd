package verifkit

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Tree is a directory tree of songs and other files.
type Tree struct {
	Root   string          // removed by Remove
	Dir    string          // the music directory
	Songs  []string        // relative, sorted
	Others []string        // files which are not songs
	Dirs   []string        // without the root
	Locked map[string]bool // directories without permissions for others
}

var treePieces = []string{"a", "b", "song", "01", " ", "é", "世", "[1]", "*", "?", "\\", "'", "-", "x.y", ".", "~", "{}", "ü ", "A", "^", "$x", ".mp3", "..", "%d", "&", "._", ".MP3"}
var plainPieces = []string{"a", "b", "song", "01", "x", "y", "-", "z"}

// TreeName draws a file name.
func TreeName(rng *rand.Rand, plain bool) string {
	p := treePieces
	if plain {
		p = plainPieces
	}
	for {
		s := ""
		for k := 1 + rng.Intn(3); k > 0; k-- {
			s += p[rng.Intn(len(p))]
		}
		if s != "." && s != ".." && s != "" {
			return s
		}
	}
}

// NewTree makes a tree.
func NewTree(rng *rand.Rand, plain bool, content []byte) *Tree {
	root, err := ioutil.TempDir("", "tree")
	if err != nil {
		panic(err)
	}
	os.Chmod(root, 0755)
	t := &Tree{Root: root, Locked: map[string]bool{}}
	name := TreeName(rng, plain)
	t.Dir = filepath.Join(root, name)
	must(os.Mkdir(t.Dir, 0755))
	dirs := []string{""}
	seen := map[string]bool{}
	deep := rng.Intn(6) == 0
	n := rng.Intn(8)
	if deep {
		n = 16
	}
	for k := n; k > 0; k-- {
		d := filepath.Join(dirs[rng.Intn(len(dirs))], TreeName(rng, plain))
		if deep { // one in the other
			d = filepath.Join(dirs[len(dirs)-1], TreeName(rng, plain))
		}
		if seen[d] {
			continue
		}
		seen[d] = true
		must(os.Mkdir(filepath.Join(t.Dir, d), 0755))
		dirs = append(dirs, d)
		t.Dirs = append(t.Dirs, d)
	}
	last := map[string]string{} // a file in the directory
	for k := rng.Intn(25); k > 0; k-- {
		song := rng.Intn(4) > 0
		n := TreeName(rng, plain)
		if song {
			n += ".mp3"
		} else {
			n += []string{".txt", ".mp3.txt", "mp3", ".mp3 ", ".MP3", ""}[rng.Intn(6)]
		}
		f := filepath.Join(dirs[rng.Intn(len(dirs))], n)
		if seen[f] {
			continue
		}
		seen[f] = true
		if target := last[filepath.Dir(f)]; target != "" && rng.Intn(6) == 0 {
			must(os.Symlink(target, filepath.Join(t.Dir, f)))
		} else {
			must(ioutil.WriteFile(filepath.Join(t.Dir, f), content, 0644))
			last[filepath.Dir(f)] = filepath.Base(f)
		}
		if strings.HasSuffix(f, ".mp3") {
			t.Songs = append(t.Songs, f)
		} else {
			t.Others = append(t.Others, f)
		}
	}
	sort.Strings(t.Songs)
	sort.Strings(t.Dirs)
	return t
}

// Remove removes the tree.
func (t *Tree) Remove() {
	filepath.Walk(t.Root, func(p string, f os.FileInfo, err error) error {
		if err == nil && f.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	os.RemoveAll(t.Root)
}

// Below returns the entries of l in or below dir ("" for all).
func Below(l []string, dir string) []string {
	var r []string
	for _, e := range l {
		if dir == "" || strings.HasPrefix(e, dir+"/") {
			r = append(r, e)
		}
	}
	return r
}

// DiffLists compares lists ignoring order; "" if they are the same.
func DiffLists(got, want []string) string {
	n := map[string]int{}
	for _, w := range want {
		n[w]++
	}
	var more, less []string
	for _, g := range got {
		n[g]--
	}
	for k, c := range n {
		for ; c > 0; c-- {
			less = append(less, k)
		}
		for ; c < 0; c++ {
			more = append(more, k)
		}
	}
	sort.Strings(more)
	sort.Strings(less)
	s := ""
	if len(less) > 0 {
		s += Short(fmt.Sprintf("missing %q ", less), 400)
	}
	if len(more) > 0 {
		s += Short(fmt.Sprintf("too much %q", more), 400)
	}
	return s
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
