package parser

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/LogicalOverflow/music-sync/verifkit"
)

// c19Model splits a line as documented.
func c19Model(line string) []string {
	rs := []rune(line)
	words, cur, any := []string{}, []rune{}, false
	flush := func() {
		if any {
			words = append(words, string(cur))
		}
		cur, any = nil, false
	}
	for i := 0; i < len(rs); i++ {
		switch {
		case rs[i] == ' ':
			flush()
		case rs[i] == '\\' && i+1 < len(rs) && (rs[i+1] == ' ' || rs[i+1] == '\\'):
			i++
			cur, any = append(cur, rs[i]), true
		default:
			cur, any = append(cur, rs[i]), true
		}
	}
	flush()
	return words
}

var c19Runes = []rune{'a', 'b', ' ', ' ', ' ', '\\', '\\', '\\', '"', '\'', '/', '*', '[', '-', '1', 'é', '世', '𝄞', '\u0301', '.', '~', '$', '\t', '\x00', '\x1b', '\n', '\r', 0x7f, 0xfeff, 0xfffd, 0x10ffff, 'Z', '_', ',', '|', '<'}

func c19Text(rng *rand.Rand, n int, first bool) string {
	var b strings.Builder
	style := rng.Intn(4)
	for k := 0; k < n; k++ {
		c := c19Runes[rng.Intn(len(c19Runes))]
		switch style {
		case 0:
			c = []rune{'a', ' ', '\\'}[rng.Intn(3)]
		case 1:
			c = rune(rng.Intn(0x11000))
			if rng.Intn(2) == 0 {
				c = rune(rng.Intn(128))
			}
			if c >= 0xd800 && c < 0xe000 {
				c = 'x'
			}
		}
		b.WriteRune(c)
	}
	return b.String()
}

func c19Words(c ParsedCommand) []string {
	w := []string{}
	if c.Command != "" {
		w = append(w, c.Command)
	}
	return append(w, c.Parameters...)
}

func c19Same(got ParsedCommand, want []string) bool {
	if len(want) == 0 {
		return got.Command == "" && len(got.Parameters) == 0
	}
	if got.Command != want[0] || len(got.Parameters) != len(want)-1 {
		return false
	}
	for k, p := range got.Parameters {
		if p != want[k+1] {
			return false
		}
	}
	return true
}

func TestVerif_C19_lines(t *testing.T) {
	r := verifkit.Start(t, "C19", "lines")
	defer r.Finish()
	for i := 0; i < r.N(8000, 300000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		n := rng.Intn(30)
		if rng.Intn(50) == 0 {
			n = rng.Intn(600)
		}
		line := c19Text(rng, n, true)
		var got ParsedCommand
		v := verifkit.Catch(func() { got = ParseCommand(line) })
		if v != "" {
			r.Violation("crash", fmt.Sprintf("parsing %q: %s", line, v), line)
			return
		}
		want := c19Model(line)
		if !strings.HasPrefix(line, " ") { // (a line starting with a space has no command)
			if !c19Same(got, want) {
				r.Violation("misparsed", fmt.Sprintf("%q is parsed to %q, not to %q", line, c19Words(got), want), line)
			}
		} else if got.Command == "" && !c19Same(ParsedCommand{Command: "x", Parameters: got.Parameters}, append([]string{"x"}, want...)) {
			r.Violation("misparsed", fmt.Sprintf("%q is parsed to the parameters %q, not to %q", line, got.Parameters, want), line)
		}
		if !utf8.ValidString(line) {
			r.Inconclusive("the generator made invalid text")
		}
		r.Eval(line, len(want) > 1 && strings.Contains(line, "\\"))
	}
}

func TestVerif_C19_roundtrip(t *testing.T) {
	r := verifkit.Start(t, "C19", "roundtrip")
	defer r.Finish()
	for i := 0; i < r.N(5000, 200000) && !r.Failed(); i++ {
		rng := r.Rand(i)
		c := ParsedCommand{}
		for k := rng.Intn(6); k >= 0; k-- {
			w := c19Text(rng, 1+rng.Intn(12), false)
			if k == 0 {
				c.Command = w
			} else {
				c.Parameters = append(c.Parameters, w)
			}
		}
		line := ""
		if p := verifkit.Catch(func() {
			line = c.Unparse()
			if rng.Intn(2) == 0 { // by hand
				line = Escape(c.Command)
				for _, p := range c.Parameters {
					line += strings.Repeat(" ", 1+rng.Intn(2)) + Escape(p)
				}
			}
		}); p != "" {
			r.Violation("crash", fmt.Sprintf("escaping %q: %s", c, p), c)
			return
		}
		got := ParseCommand(line)
		want := append([]string{c.Command}, c.Parameters...)
		if fmt.Sprintf("%q", c19Words(got)) != fmt.Sprintf("%q", want) {
			r.Violation("not-round-trip", fmt.Sprintf("the words %q are escaped as %q, which is parsed to %q", want, line, c19Words(got)), want)
			return
		}
		r.Eval(line, len(want) > 1)
	}
}

// every short line over the characters that matter
func TestVerif_C19_short(t *testing.T) {
	r := verifkit.Start(t, "C19", "short")
	defer r.Finish()
	depth := 6
	if r.Thorough() {
		depth = 9
	}
	al := []string{"a", " ", "\\", "é"}
	var rec func(line string, n int)
	rec = func(line string, n int) {
		if r.Failed() {
			return
		}
		if !strings.HasPrefix(line, " ") {
			got, want := ParseCommand(line), c19Model(line)
			if !c19Same(got, want) {
				r.Violation("misparsed", fmt.Sprintf("%q is parsed to %q, not to %q", line, c19Words(got), want), line)
			}
			r.Eval(line, strings.Contains(line, "\\"))
		}
		if n == 0 {
			return
		}
		for _, a := range al {
			rec(line+a, n-1)
		}
	}
	rec("", depth)
}

// sessions parse at the same time
func TestVerif_C19_sessions(t *testing.T) {
	r := verifkit.Start(t, "C19", "sessions")
	defer r.Finish()
	for i := 0; i < r.N(60, 1500) && !r.Failed(); i++ {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			rng := r.Rand(i*8 + g)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 20; k++ {
					line := "a" + c19Text(rng, rng.Intn(40), true)
					want := c19Model(line)
					var got ParsedCommand
					if p := verifkit.Catch(func() { got = ParseCommand(line) }); p != "" {
						r.Violation("crash", fmt.Sprintf("parsing %q while other sessions do: %s", line, p), line)
						return
					}
					if !c19Same(got, want) {
						r.Violation("misparsed", fmt.Sprintf("while other sessions parse, %q is parsed to %q, not to %q", line, c19Words(got), want), line)
						return
					}
					r.Eval(line, true)
				}
			}()
		}
		v, rep := verifkit.Bounded(60*time.Second, wg.Wait)
		if v == verifkit.Stuck {
			r.Violation("hangs", "sessions parsing at the same time wait for each other forever", rep)
		} else if v != verifkit.Completed {
			r.Inconclusive("parsing did not finish")
			return
		}
	}
}
