package util

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/verifkit"
)

func c31Text(alike bool, r, a, e int) string {
	if alike {
		return fmt.Sprintf("<%d %%d>", e%2)
	}
	return fmt.Sprintf("<%d.%d.%d %%d>", r, a, e)
}

// every error which was added before is in what Err returns, once, and what it returned stays as it is
func TestVerif_C31_collector(t *testing.T) {
	k := verifkit.Start(t, "C31", "collector")
	defer k.Finish()
	for i := 0; i < k.N(400, 20000) && !k.Failed(); i++ {
		rng := k.Rand(i)
		var ec ErrorCollector
		adders, each := rng.Intn(9), 1+rng.Intn(8)
		rounds, alike := 1+rng.Intn(3), i%3 == 0
		base := []string{"failed", "failed to send to 5 clients", "100% %d %s", ""}[rng.Intn(4)]
		type answer struct {
			err  error
			text string
		}
		var answers []answer
		var all []string
		bad := ""
		for r := 0; r < rounds && bad == ""; r++ {
			var wg sync.WaitGroup
			for a := 0; a < adders; a++ {
				for e := 0; e < each; e++ {
					all = append(all, c31Text(alike, r, a, e))
				}
				wg.Add(1)
				go func(r, a int) {
					defer wg.Done()
					for e := 0; e < each; e++ {
						ec.Add(errors.New(c31Text(alike, r, a, e)))
					}
				}(r, a)
			}
			var err error
			v, rep := verifkit.Bounded(60*time.Second, func() { wg.Wait(); err = ec.Err(base) })
			if v == verifkit.Stuck {
				k.Violation("hangs", "Err never returns", rep)
				return
			} else if v != verifkit.Completed {
				k.Inconclusive("Err did not return")
				return
			}
			if len(all) == 0 {
				if err != nil {
					bad = fmt.Sprintf("nothing was added, but Err returns %v", err)
				}
				continue
			}
			if err == nil {
				bad = fmt.Sprintf("%d errors were added, but Err returns nil", len(all))
				break
			}
			text := err.Error()
			if strings.Count(text, "<") != len(all) || !strings.Contains(text, base) {
				bad = fmt.Sprintf("%d errors were added with the message %q, Err returns %q", len(all), base, text)
			}
			times := make(map[string]int)
			for _, w := range all {
				times[w]++
			}
			for w, n := range times {
				if strings.Count(text, w) != n {
					bad = fmt.Sprintf("%s was added %d times, Err returns it %d times", w, n, strings.Count(text, w))
				}
			}
			answers = append(answers, answer{err, text})
		}
		for _, a := range answers {
			if a.err.Error() != a.text && bad == "" {
				bad = fmt.Sprintf("the error %q has become %q", a.text, a.err.Error())
			}
		}
		if bad != "" {
			k.Violation("collector", bad, nil)
			return
		}
		k.Count("errors", int64(len(all)))
		k.Eval(fmt.Sprint(i), len(all) > 1)
	}
	k.Require("errors", 2000)
}
