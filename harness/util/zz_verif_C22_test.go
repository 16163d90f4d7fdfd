package util

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"testing"

	"github.com/LogicalOverflow/music-sync/verifkit"
)

// spellings of the path of the music directory
func c22Spellings(tr *verifkit.Tree) map[string]string {
	d := tr.Dir
	base := filepath.Base(d)
	link, link2 := filepath.Join(tr.Root, "a link"), filepath.Join(tr.Root, "link[2]")
	os.Symlink(d, link)
	os.Symlink("a link", link2)
	os.Chdir(tr.Root)
	return map[string]string{
		"absolute":            d,
		"trailing separator":  d + "/",
		"several separators":  strings.Replace(d, "/", "//", -1) + "//",
		"trailing dot":        d + "/.",
		"dots":                d + "/../" + base,
		"dots inside":         tr.Root + "/./" + base + "/./",
		"relative":            base,
		"relative with dot":   "./" + base,
		"relative with slash": base + "/",
		"relative with dots":  "../" + filepath.Base(tr.Root) + "/" + base,
		"link":                link,
		"link with slash":     link + "/",
		"link to a link":      link2,
		"relative link":       "a link",
		"relative link, dot":  "./link[2]/.",
	}
}

func TestVerif_C22_listing(t *testing.T) {
	r := verifkit.Start(t, "C22", "listing")
	defer r.Finish()
	cwd, _ := os.Getwd()
	defer os.Chdir(cwd)
	for i := 0; i < r.N(150, 4000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		tr := verifkit.NewTree(rng, rng.Intn(4) == 0, nil)
		judge := func(how, dir string) {
			for k := 0; k < 5; k++ {
				sub, as := "", ""
				if k > 0 && len(tr.Dirs) > 0 {
					sub = tr.Dirs[rng.Intn(len(tr.Dirs))]
					as = []string{sub, sub + "/", "./" + sub, sub + "/.", "/" + sub}[k]
				} else if k > 0 {
					continue
				}
				var got []string
				what := fmt.Sprintf("listing %q (%s), sub directory %q of a tree of %d songs", dir, how, as, len(tr.Songs))
				if p := verifkit.Catch(func() { got = FilterSongs(ListAllFiles(dir, as)) }); p != "" {
					r.Violation("crash", what+": "+p, nil)
					return
				}
				if d := verifkit.DiffLists(got, verifkit.Below(tr.Songs, sub)); d != "" {
					r.Violation("wrong-listing", what+": "+d, nil)
					return
				}
				r.Eval(fmt.Sprint(i, how, as), len(got) > 0)
			}
			var got []string
			if p := verifkit.Catch(func() { got = ListAllSubDirs(dir) }); p != "" {
				r.Violation("crash", fmt.Sprintf("listing the directories of %q: %s", dir, p), nil)
				return
			}
			if d := verifkit.DiffLists(got, tr.Dirs); d != "" {
				r.Violation("wrong-directories", fmt.Sprintf("listing the directories of %q (%s): %s", dir, how, d), nil)
			}
		}
		for how, dir := range c22Spellings(tr) {
			judge(how, dir)
			r.Count(strings.Replace(how, " ", "_", -1), 1)
		}
		os.Chdir(tr.Dir)
		judge("the working directory", ".")
		os.Chdir(cwd)
		if g := ListAllFiles(tr.Dir, "does not exist"); len(g) != 0 {
			r.Violation("wrong-listing", fmt.Sprintf("a sub directory which does not exist contains %q", g), nil)
		}
		tr.Remove()
	}
	if g := ListAllFiles(filepath.Join(cwd, "does not exist"), ""); len(g) != 0 {
		r.Violation("wrong-listing", fmt.Sprintf("a music directory which does not exist contains %q", g), nil)
	}
}

// parts which can not be read are left out (the listing runs with the rights of nobody)
func TestVerif_C22_unreadable(t *testing.T) {
	r := verifkit.Start(t, "C22", "unreadable")
	defer r.Finish()
	for i := 0; i < r.N(80, 1500) && !r.Failed(); i++ {
		rng := r.Rand(i)
		tr := verifkit.NewTree(rng, rng.Intn(2) == 0, nil)
		locked := map[string]bool{}
		for _, d := range tr.Dirs {
			if rng.Intn(3) == 0 {
				locked[d] = true
				os.Chmod(filepath.Join(tr.Dir, d), 0700)
			}
		}
		hidden := func(p string) bool {
			for d := range locked {
				if strings.HasPrefix(p, d+"/") {
					return true
				}
			}
			return false
		}
		var want, wantDirs []string
		for _, s := range tr.Songs {
			if !hidden(s) {
				want = append(want, s)
			}
		}
		for _, d := range tr.Dirs {
			if !hidden(d) {
				wantDirs = append(wantDirs, d)
			}
		}
		type res struct {
			files, dirs []string
			panic       string
			denied      bool
		}
		done := make(chan res)
		go func() {
			runtime.LockOSThread() // (never unlocked: the thread ends with the goroutine)
			var o res
			syscall.RawSyscall(syscall.SYS_SETFSUID, 65534, 0, 0)
			if _, err := os.Open(tr.Dir); err != nil {
				o.denied = true
			} else if len(locked) > 0 {
				for d := range locked {
					if !hidden(d) {
						f, err := os.Open(filepath.Join(tr.Dir, d))
						if err == nil {
							f.Close()
							o.denied = true
						}
					}
				}
			}
			o.panic = verifkit.Catch(func() {
				o.files = FilterSongs(ListAllFiles(tr.Dir, ""))
				o.dirs = ListAllSubDirs(tr.Dir)
			})
			syscall.RawSyscall(syscall.SYS_SETFSUID, 0, 0, 0)
			done <- o
		}()
		o := <-done
		if o.denied {
			r.Count("rights_not_dropped", 1)
			tr.Remove()
			continue
		}
		what := fmt.Sprintf("with %d of %d sub directories not readable", len(locked), len(tr.Dirs))
		if o.panic != "" {
			r.Violation("crash", what+": "+o.panic, nil)
		} else if d := verifkit.DiffLists(o.files, want); d != "" {
			r.Violation("wrong-listing", what+": "+d, nil)
		} else if d := verifkit.DiffLists(verifkit.Below(o.dirs, ""), wantDirs); d != "" {
			// (an unreadable directory itself may be left out)
			var rest []string
			for _, w := range wantDirs {
				if !locked[w] {
					rest = append(rest, w)
				}
			}
			if verifkit.DiffLists(o.dirs, rest) != "" {
				r.Violation("wrong-directories", what+": "+d, nil)
			}
		}
		r.Eval(fmt.Sprint(i, len(locked)), len(locked) > 0)
		tr.Remove()
	}
}
