package verifkit

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

// Usage is what a process holds.
type Usage struct {
	Files      []string // what is open, without the pipes and event queues of the runtime
	Goroutines int
	Objects    int64 // after garbage collection
	Bytes      int64
}

// OpenFiles lists what this process has open.
func OpenFiles() (r []string) {
	l, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, f := range l {
		t, err := os.Readlink(filepath.Join("/proc/self/fd", f.Name()))
		if err == nil && !strings.HasPrefix(t, "anon_inode:") && !strings.HasPrefix(t, "pipe:") && !strings.HasPrefix(t, "/proc/") {
			r = append(r, t)
		}
	}
	sort.Strings(r)
	return
}

// Measure measures this process.
func Measure() Usage {
	u := Usage{Files: OpenFiles(), Goroutines: runtime.NumGoroutine()}
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	u.Objects, u.Bytes = int64(m.HeapObjects), int64(m.HeapAlloc)
	return u
}

// Grown describes how b exceeds a by more than so many of each, "" if it does not.
func (a Usage) Grown(b Usage, files, goroutines int, objects int64) string {
	switch {
	case len(b.Files) > len(a.Files)+files:
		return fmt.Sprintf("%d files and connections are open instead of %d: %s", len(b.Files), len(a.Files), Short(strings.Join(b.Files, " "), 1500))
	case b.Goroutines > a.Goroutines+goroutines:
		return fmt.Sprintf("%d goroutines are left instead of %d: %s", b.Goroutines, a.Goroutines, Short(GoroutineSummary(), 2500))
	case b.Objects > a.Objects+objects:
		return fmt.Sprintf("%d objects (%d bytes) are held instead of %d (%d bytes)", b.Objects, b.Bytes, a.Objects, a.Bytes)
	}
	return ""
}

// GoroutineSummary counts goroutines by where they are.
func GoroutineSummary() string {
	n := map[string]int64{}
	for _, g := range Goroutines() {
		n[GoroutineTop(g)]++
	}
	var s []string
	for _, k := range SortedKeys(n) {
		s = append(s, fmt.Sprintf("%d at %s", n[k], k))
	}
	return strings.Join(s, "; ")
}

// GoroutineTop is the innermost function of a goroutine which is not the runtime's, and what created it.
func GoroutineTop(g string) string {
	top, by := "", ""
	for _, l := range strings.Split(g, "\n")[1:] {
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.HasPrefix(l, "created by ") {
			by = l
			if i := strings.Index(by, " in goroutine"); i > 0 {
				by = by[:i]
			}
			break
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		if top == "" && !strings.HasPrefix(l, "runtime.") && !strings.HasPrefix(l, "sync.") && !strings.HasPrefix(l, "internal/") {
			top = l
		}
	}
	return strings.TrimSpace(top + " " + by)
}
