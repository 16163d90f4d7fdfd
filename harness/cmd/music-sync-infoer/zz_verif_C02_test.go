package main

import (
	"testing"

	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifsync"
)

func TestVerifChild_C02infoer(t *testing.T) {
	var c verifsync.Case
	verifkit.ChildArgs(t, &c)
	log.DefaultCutoffLevel = log.LevelOff
	verifkit.ChildDone(verifsync.Run(c, newInfoerPackageHandler(), schedule.Infoer))
}

// a whole infoer syncs with a scripted server
func TestVerif_C02_infoer(t *testing.T) {
	k := verifkit.Start(t, "C02", "infoer")
	defer k.Finish()
	verifsync.Judge(k, "C02infoer", k.N(7, 70))
	k.Require("syncs", 20)
}
