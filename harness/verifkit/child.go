package verifkit

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"testing"
	"time"
)

// Child re-executes this test binary so that process-wide state is fresh for
// every case. fn (a test named TestVerifChild_<name>) must call ChildArgs and
// ChildDone.
type ChildResult struct {
	Out      string
	ExitCode int
	TimedOut bool
	Crash    string // crash report blamed on the code under test
	Answer   json.RawMessage
}

// RunChild runs TestVerifChild_<name> with args.
func RunChild(name string, args interface{}, timeout time.Duration, env ...string) ChildResult {
	dir, err := ioutil.TempDir("", "child")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(args)
	in, out := filepath.Join(dir, "in.json"), filepath.Join(dir, "out.json")
	if err := ioutil.WriteFile(in, b, 0644); err != nil {
		panic(err)
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestVerifChild_"+name+"$", "-test.count=1", "-test.timeout", "20m")
	c.Env = append(append(os.Environ(), "VERIF_CHILD_IN="+in, "VERIF_CHILD_OUT="+out, "VERIF_CHILD_DIR="+dir), env...)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var buf bytes.Buffer
	c.Stdout, c.Stderr = &buf, &buf
	res := ChildResult{}
	if err := c.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		res.TimedOut = true
		syscall.Kill(-c.Process.Pid, syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(5 * time.Second):
		}
	}
	syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	if res.TimedOut {
		<-time.After(100 * time.Millisecond)
	}
	if c.ProcessState != nil {
		res.ExitCode = c.ProcessState.ExitCode()
	}
	res.Out = buf.String()
	if !res.TimedOut {
		res.Crash = CrashOf(res.Out)
	}
	if b, err := ioutil.ReadFile(out); err == nil {
		res.Answer = b
	}
	return res
}

// ChildArgs decodes the arguments; skips the test when not in a child.
func ChildArgs(t *testing.T, v interface{}) {
	p := os.Getenv("VERIF_CHILD_IN")
	if p == "" {
		t.Skip("not a child")
	}
	b, err := ioutil.ReadFile(p)
	if err == nil {
		err = json.Unmarshal(b, v)
	}
	if err != nil {
		t.Fatal(err)
	}
}

// ChildDone writes the answer and ends the process.
func ChildDone(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	p := os.Getenv("VERIF_CHILD_OUT")
	if err := ioutil.WriteFile(p+".tmp", b, 0644); err != nil {
		panic(err)
	}
	os.Rename(p+".tmp", p)
	os.Exit(0)
}

var frameRe = regexp.MustCompile(`(?m)^\t(/\S+\.go):\d+`)

// CrashOf extracts a go crash report from a log if the crashing goroutine
// passes through the code under test.
func CrashOf(out string) string {
	i := -1
	for _, m := range []string{"panic: ", "fatal error: "} {
		for off := 0; ; {
			j := strings.Index(out[off:], m)
			if j < 0 {
				break
			}
			j += off
			off = j + 1
			if j > 0 && out[j-1] != '\n' {
				continue
			}
			if strings.HasPrefix(out[j:], "panic: test timed out") {
				continue
			}
			if i < 0 || j < i {
				i = j
			}
			break
		}
	}
	if i < 0 {
		return ""
	}
	tail := out[i:]
	g := strings.Index(tail, "\ngoroutine ")
	if g < 0 {
		return ""
	}
	first := tail[g+1:]
	if e := strings.Index(first, "\n\n"); e >= 0 {
		first = first[:e]
	}
	if strings.HasPrefix(tail, "fatal error: all goroutines") {
		first = tail
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	for _, f := range frameRe.FindAllStringSubmatch(first, -1) {
		if strings.HasPrefix(f[1], repo+"/") && !strings.HasPrefix(filepath.Base(f[1]), "zz_verif") && !strings.Contains(f[1], "/verifkit/") && !strings.Contains(f[1], "/verifwire/") {
			return Short(tail, 8000)
		}
	}
	return ""
}

// Judge records the ends of a child which are not an answer; true if there is an answer.
func (r *Run) Judge(res ChildResult, args interface{}, v interface{}) bool {
	if res.Crash != "" {
		r.Violation("crash", "the code under test crashed: "+strings.SplitN(res.Crash, "\n", 2)[0], map[string]interface{}{"case": args, "crash": res.Crash})
		return false
	}
	if res.TimedOut {
		r.Inconclusive(fmt.Sprintf("child timed out; case %v; log %s", args, Short(tailOf(res.Out, 3000), 3000)))
		return false
	}
	if res.Answer == nil {
		r.Inconclusive(fmt.Sprintf("child gave no answer (exit %d): %s", res.ExitCode, tailOf(res.Out, 3000)))
		return false
	}
	if err := json.Unmarshal(res.Answer, v); err != nil {
		r.Inconclusive("child answer unreadable: " + err.Error())
		return false
	}
	return true
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
