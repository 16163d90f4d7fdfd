package log

import (
	"bufio"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"strings"
	"sync"
	"testing"

	"github.com/LogicalOverflow/music-sync/verifkit"
)

type c26Writer struct {
	mu     sync.Mutex
	writes []string
}

func (w *c26Writer) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.writes = append(w.writes, string(b))
	return len(b), nil
}

func (w *c26Writer) all() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return strings.Join(w.writes, "")
}

var c26Short = []string{"TRC", "DBG", "INF", "WRN", "ERR", "FTL"}
var c26Full = []string{"TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"}

func c26Message(rng *rand.Rand) string {
	s := ""
	for k := rng.Intn(6); k >= 0; k-- {
		s += []string{"text", " ", "{lvl}", "{level}", "{name}", "{date}", "{message}", "{msg}", "{", "}", "%s", "%d", "%!", "%", "é世", "\t", "\\n", "[INF]", "\x00", "\x1b[0m", "{{name}}", strings.Repeat("long ", 100), "\xff", "$"}[rng.Intn(24)]
	}
	return s
}

func c26Log(l Logger, level Level, f bool, msg string) {
	if f {
		[]func(string, ...interface{}){l.Tracef, l.Debugf, l.Infof, l.Warnf, l.Errorf, l.Fatalf}[level]("%s", msg)
	} else {
		[]func(string){l.Trace, l.Debug, l.Info, l.Warn, l.Error, l.Fatal}[level](msg)
	}
}

func TestVerif_C26_levels(t *testing.T) {
	r := verifkit.Start(t, "C26", "levels")
	defer r.Finish()
	defer func(o, e interface{ Write([]byte) (int, error) }) { OutputWriter, ErrorWriter = o, e }(OutputWriter, ErrorWriter)
	names := []string{"a", "ssh", "comm", "play", "shed", "time", "longname", "x y", "COMM"}
	loggers := map[string]Logger{}
	for _, n := range names {
		loggers[n] = GetLogger(n)
	}
	for i := 0; i < r.N(3000, 60000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		DefaultCutoffLevel = Level(rng.Intn(7))
		CutoffLevels = map[string]Level{}
		for k := rng.Intn(4); k > 0; k-- {
			CutoffLevels[names[rng.Intn(len(names))]] = Level(rng.Intn(7))
		}
		for k := 0; k < 6; k++ {
			name := names[rng.Intn(len(names))]
			l := loggers[name] // (made before its level was configured)
			if rng.Intn(2) == 0 {
				l = GetLogger(name)
			}
			level := Level(rng.Intn(6))
			msg := c26Message(rng)
			cutoff, ok := CutoffLevels[name]
			if !ok {
				cutoff = DefaultCutoffLevel
			}
			out, err := &c26Writer{}, &c26Writer{}
			OutputWriter, ErrorWriter = out, err
			what := fmt.Sprintf("logger %q, level %s, configured %v (default %d), message %q", name, c26Full[level], CutoffLevels, DefaultCutoffLevel, verifkit.Short(msg, 100))
			if p := verifkit.Catch(func() { c26Log(l, level, rng.Intn(2) == 0, msg) }); p != "" {
				r.Violation("crash", what+": "+p, nil)
				break
			}
			got, other := out.all(), err.all()
			if level >= LevelWarn {
				got, other = other, got
			}
			if other != "" {
				r.Violation("wrong-output", what+": written to the other output", other)
				break
			}
			if level < cutoff {
				if got != "" {
					r.Violation("not-suppressed", what+": written", got)
				}
				r.Count("suppressed", 1)
			} else {
				head := strings.TrimSuffix(got, msg+"\n")
				if got == "" {
					r.Violation("not-written", what+": not written", nil)
				} else if head == got || strings.Contains(head, "\n") || strings.Contains(head, msg) && len(msg) > 24 {
					r.Violation("modified", what+fmt.Sprintf(": written as %q", verifkit.Short(got, 300)), got)
				} else if !strings.Contains(head, c26Short[level]) && !strings.Contains(head, c26Full[level]) || !strings.Contains(head, (name + "    ")[:4]) && !strings.Contains(head, name) {
					r.Violation("modified", what+fmt.Sprintf(": written without its level or logger: %q", head), got)
				}
				r.Count("written", 1)
			}
			r.Eval(what, len(CutoffLevels) > 0)
		}
	}
	CutoffLevels = map[string]Level{}
}

// many at once, to real files
func TestVerif_C26_concurrent(t *testing.T) {
	r := verifkit.Start(t, "C26", "concurrent")
	defer r.Finish()
	defer func(o, e interface{ Write([]byte) (int, error) }) { OutputWriter, ErrorWriter = o, e }(OutputWriter, ErrorWriter)
	DefaultCutoffLevel = LevelDebug
	for i := 0; i < r.N(15, 300) && !r.Failed(); i++ {
		var files [2]*os.File
		for k := range files {
			f, err := ioutil.TempFile("", "log")
			if err != nil {
				t.Fatal(err)
			}
			files[k] = f
		}
		OutputWriter, ErrorWriter = files[0], files[1]
		var wg sync.WaitGroup
		want := [2]map[string]int{{}, {}}
		var mu sync.Mutex
		for g := 0; g < 8; g++ {
			rng := r.Rand(i*8 + g)
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				l := GetLogger([]string{"comm", "play"}[g%2])
				for k := 0; k < 100; k++ {
					level := Level(rng.Intn(6))
					msg := fmt.Sprintf("<%d.%d.%d>", i, g, k) + strings.Repeat("x", rng.Intn(200))
					if level >= LevelDebug {
						to := 0
						if level >= LevelWarn {
							to = 1
						}
						mu.Lock()
						want[to][msg]++
						mu.Unlock()
					}
					c26Log(l, level, k%2 == 0, msg)
				}
			}()
		}
		wg.Wait()
		for k, f := range files {
			f.Seek(0, 0)
			sc := bufio.NewScanner(f)
			n := 0
			for sc.Scan() {
				line := sc.Text()
				at := strings.Index(line, "<")
				if at < 0 || want[k][line[at:]] == 0 {
					r.Violation("torn", fmt.Sprintf("messages logged concurrently: the line %q", verifkit.Short(line, 300)), nil)
					break
				}
				want[k][line[at:]]--
				n++
			}
			for m, c := range want[k] {
				if c != 0 && !r.Failed() {
					r.Violation("not-written", fmt.Sprintf("message %q was logged concurrently with others and is missing", verifkit.Short(m, 100)), nil)
				}
			}
			r.Count("lines", int64(n))
			f.Close()
			os.Remove(f.Name())
		}
		r.Eval(fmt.Sprint(i), true)
	}
}
