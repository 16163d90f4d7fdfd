package main

import (
	"testing"

	"github.com/LogicalOverflow/music-sync/verifkit"
)

// What a client of the real server receives.
func TestVerif_C03_server(t *testing.T) {
	k := verifkit.Start(t, "C03", "server")
	defer k.Finish()
	stRuns(k, "C03", k.N(4, 60))
	k.Require("", 1)
}
