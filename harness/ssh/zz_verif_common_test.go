package ssh

import (
	"os"
	"testing"

	"github.com/LogicalOverflow/music-sync/logging"
)

func TestMain(m *testing.M) {
	log.DefaultCutoffLevel = log.LevelOff
	os.Exit(m.Run())
}
