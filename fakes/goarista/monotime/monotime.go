// Package monotime stands in for goarista's monotime: a clock the monitors
// can set (in process) or skew (VERIF_CLOCK_SKEW nanoseconds, for binaries).
package monotime

import (
	"os"
	"strconv"
	"sync/atomic"
	"time"
)

var start = time.Now()
var base = envInt("VERIF_CLOCK_BASE", 3600e9) + envInt("VERIF_CLOCK_SKEW", 0)

// source, if set, is the clock.
var source atomic.Value

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

// SetSource replaces the clock.
func SetSource(f func() uint64) { source.Store(f) }

// Now returns the time.
func Now() uint64 {
	if f, ok := source.Load().(func() uint64); ok && f != nil {
		return f()
	}
	return uint64(base + int64(time.Since(start)))
}

// Since returns the time passed.
func Since(t uint64) time.Duration { return time.Duration(Now() - t) }
