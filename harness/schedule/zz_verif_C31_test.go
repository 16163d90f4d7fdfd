package schedule

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/golang/protobuf/proto"
)

type c31Sender struct {
	mu   sync.Mutex
	next []error
	sent []proto.Message
	told []error
}

func (s *c31Sender) SendMessage(m proto.Message) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.sent = append(s.sent, m)
	var err error
	if len(s.next) > 0 {
		err, s.next = s.next[0], s.next[1:]
	}
	s.told = append(s.told, err)
	return err
}

// the answer to volume tells whether all clients were told the volume
func TestVerif_C31_volume(t *testing.T) {
	k := verifkit.Start(t, "C31", "volume")
	defer k.Finish()
	for i := 0; i < k.N(500, 10000) && !k.Failed(); i++ {
		rng := k.Rand(i)
		ss := vState(nil)
		s := &c31Sender{}
		ss.sender = s
		cmd := ss.volumeCommand()
		for j := 1 + rng.Intn(4); j > 0; j-- {
			v := float64(rng.Intn(2000)) / 1000
			var fails error
			if rng.Intn(2) == 0 {
				fails = errors.New([]string{"failed to send to 2 clients: 0: x; 1: y", "broken %d pipe", "100%", "%!s(x)"}[rng.Intn(4)])
			}
			s.next, s.sent, s.told = []error{fails}, nil, nil
			answer, ok := cmd.Exec([]string{fmt.Sprint(v)})
			if !ok || len(s.sent) != 1 {
				k.Violation("answer", fmt.Sprintf("volume %v answers %q (%v), sent %v", v, answer, ok, s.sent), nil)
				return
			}
			if m, ok := s.sent[0].(*comm.SetVolumeRequest); !ok || m.Volume != v {
				k.Violation("answer", fmt.Sprintf("volume %v sends %v", v, s.sent), nil)
				return
			}
			if fails != nil && !strings.Contains(answer, fails.Error()) || fails == nil && strings.Contains(strings.ToLower(answer), "fail") {
				k.Violation("answer", fmt.Sprintf("volume %v, sending of which ends with %v, answers %q", v, fails, answer), nil)
				return
			}
			if !strings.Contains(answer, fmt.Sprintf("%.3f", v)) {
				k.Violation("answer", fmt.Sprintf("volume %v answers %q", v, answer), nil)
				return
			}
			k.Eval(fmt.Sprint(v, fails), fails != nil)
		}
	}
}
