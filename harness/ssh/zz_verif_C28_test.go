package ssh

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime/debug"
	"testing"

	"github.com/LogicalOverflow/music-sync/verifkit"
)

func TestVerif_C28_users(t *testing.T) {
	k := verifkit.Start(t, "C28", "users")
	defer k.Finish()
	dir, err := ioutil.TempDir(os.Getenv("VERIF_WORK"), "users")
	if err != nil {
		t.Fatal(err)
	}
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // collecting a forgotten file would close it
	contents := []string{`{}`, `{"a":{"password":"b"}}`, `{"a":`, ``, `[]`, `null`, `{"a":{"pubKey":"%%"}}`, `{"a":5}`, `{} trailing`}
	for i := 0; i < k.N(10, 100); i++ {
		for _, c := range contents {
			p := filepath.Join(dir, "users.json")
			ioutil.WriteFile(p, []byte(c), 0644)
			before := verifkit.OpenFiles()
			_, err := ReadUsersFile(p)
			ReadUsersFile(filepath.Join(dir, "missing"))
			ReadUsersFile(dir)
			if after := verifkit.OpenFiles(); len(after) > len(before) {
				k.Violation("leak", "reading the users file leaves it open", c)
				return
			}
			if err != nil {
				k.Count("rejected files", 1)
			}
			k.Eval(c, true)
		}
	}
}
