package cmd

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"testing"

	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/urfave/cli"
)

var c26Names = []string{"comm", "play", "shed", "ssh", "time"}
var c26Levels = map[string]log.Level{"trace": 0, "debug": 1, "info": 2, "warn": 3, "error": 4, "fatal": 5, "off": 6}

func c26Case(rng *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if rng.Intn(2) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

func c26Options(rng *rand.Rand) (args []string, levels map[string]log.Level, def log.Level) {
	levels = map[string]log.Level{}
	def = log.LevelInfo
	pick := func() (string, log.Level) {
		for n, l := range c26Levels { // (any)
			if rng.Intn(4) == 0 {
				return c26Case(rng, n), l
			}
		}
		return "debug", log.LevelDebug
	}
	for _, n := range c26Names {
		if rng.Intn(3) == 0 {
			t, l := pick()
			levels[n] = l
			if rng.Intn(2) == 0 {
				args = append(args, "--"+n+"-logging="+t)
			} else {
				args = append(args, "--"+n+"-logging", t)
			}
		}
	}
	if rng.Intn(2) == 0 {
		t, l := pick()
		def = l
		args = append(args, "--logging", t)
	}
	return
}

func TestVerif_C26_options(t *testing.T) {
	r := verifkit.Start(t, "C26", "options")
	defer r.Finish()
	defer func(o, e interface{ Write([]byte) (int, error) }) { log.OutputWriter, log.ErrorWriter = o, e }(log.OutputWriter, log.ErrorWriter)
	for i := 0; i < r.N(1500, 30000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		args, levels, def := c26Options(rng)
		log.CutoffLevels = map[string]log.Level{}
		log.DefaultCutoffLevel = log.LevelInfo
		app := NewApp("")
		app.Flags = AddLoggingFlags([]cli.Flag{})
		app.Writer = &bytes.Buffer{}
		app.ErrWriter = app.Writer
		ran := false
		app.Action = func(c *cli.Context) error { HandleLoggingFlags(c); ran = true; return nil }
		if err := app.Run(append([]string{"x"}, args...)); err != nil || !ran {
			r.Violation("option-refused", fmt.Sprintf("options %q: %v", args, err), args)
			return
		}
		for _, name := range append([]string{"else"}, c26Names...) {
			want, ok := levels[name]
			if !ok {
				want = def
			}
			for l := log.LevelTrace; l < log.LevelOff; l++ {
				var out bytes.Buffer
				log.OutputWriter, log.ErrorWriter = &out, &out
				log.GetLogger(name)("message", l)
				if (out.Len() > 0) != (l >= want) {
					r.Violation("wrong-level", fmt.Sprintf("with the options %q a message of level %s of logger %s is written: %v", args, l.FullName(), name, out.Len() > 0), args)
					return
				}
			}
		}
		r.Eval(fmt.Sprint(args), len(args) > 1)
	}
	log.CutoffLevels = map[string]log.Level{}
	log.DefaultCutoffLevel = log.LevelInfo
}

// the programs know the options of all their loggers, and these have an effect (a player which can not connect, a
// server without its music directory)
func TestVerif_C26_programs(t *testing.T) {
	r := verifkit.Start(t, "C26", "programs")
	defer r.Finish()
	for _, prog := range []string{"player", "server"} {
		bin := os.Getenv("VERIF_BIN_" + strings.ToUpper(prog))
		for i := 0; i < r.N(10, 60); i++ {
			rng := r.Rand(i)
			args, _, _ := c26Options(rng)
			full := append([]string{}, args...)
			if prog == "player" {
				full = append(full, "--address", "127.0.0.1", "--port", "1")
			} else {
				full = append(full, "--music-dir", "/does/not/exist")
			}
			out, _ := exec.Command(bin, full...).CombinedOutput()
			if bytes.Contains(out, []byte("flag provided but not defined")) || bytes.Contains(out, []byte("Incorrect Usage")) {
				r.Violation("option-refused", fmt.Sprintf("the %s refuses %q: %s", prog, args, verifkit.Short(string(out), 200)), args)
				return
			}
			r.Eval(fmt.Sprint(prog, args), len(args) > 1)
		}
	}
}
