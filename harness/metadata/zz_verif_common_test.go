package metadata

import (
	"encoding/binary"
	"math/rand"
	"os"
	"testing"
	"unicode/utf16"

	"github.com/LogicalOverflow/music-sync/logging"
)

func TestMain(m *testing.M) {
	log.DefaultCutoffLevel = log.LevelOff
	os.Exit(m.Run())
}

// mdFrame is an id3 frame of the given version
func mdFrame(ver int, name string, size int, flags [2]byte, data []byte) []byte {
	var b []byte
	if ver == 2 {
		b = append(b, name[:3]...)
		b = append(b, byte(size>>16), byte(size>>8), byte(size))
		return append(b, data...)
	}
	b = append(b, (name + "\x00")[:4]...)
	var s [4]byte
	if ver == 4 {
		s = [4]byte{byte(size>>21) & 127, byte(size>>14) & 127, byte(size>>7) & 127, byte(size) & 127}
	} else {
		binary.BigEndian.PutUint32(s[:], uint32(size))
	}
	b = append(b, s[:]...)
	b = append(b, flags[:]...)
	return append(b, data...)
}

func mdHeader(ver int, flags byte, n int) []byte {
	return []byte{'I', 'D', '3', byte(ver), 0, flags, byte(n>>21) & 127, byte(n>>14) & 127, byte(n>>7) & 127, byte(n) & 127}
}

// mdText encodes s as id3 text
func mdText(rng *rand.Rand, ver int, s string) []byte {
	latin := true
	for _, r := range s {
		latin = latin && r < 256
	}
	switch k := rng.Intn(3); {
	case k == 0 && latin:
		b := []byte{0}
		for _, r := range s {
			b = append(b, byte(r))
		}
		return b
	case k == 1 && ver == 4:
		return append([]byte{3}, s...)
	}
	b := []byte{1, 0xff, 0xfe}
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u), byte(u>>8))
	}
	return b
}
