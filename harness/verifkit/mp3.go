package verifkit

import (
	"io/ioutil"
	"os"
	"path/filepath"

	"github.com/faiface/beep/mp3"
)

// BaseMP3 returns the bytes of the music the songs are cut from.
func BaseMP3() []byte {
	b, err := ioutil.ReadFile(filepath.Join(os.Getenv("VERIF_DIR"), "data", "base.mp3"))
	if err != nil {
		panic(err)
	}
	return b
}

var baseFrames [][]byte

// Frames splits the base music into its mpeg frames (info frame left out).
func Frames() [][]byte {
	if baseFrames != nil {
		return baseFrames
	}
	b := BaseMP3()
	i := 0
	if string(b[:3]) == "ID3" {
		i = 10 + (int(b[6])<<21 | int(b[7])<<14 | int(b[8])<<7 | int(b[9]))
	}
	var fr [][]byte
	for i+4 < len(b) {
		h := uint32(b[i])<<24 | uint32(b[i+1])<<16 | uint32(b[i+2])<<8 | uint32(b[i+3])
		if h>>21 != 0x7ff {
			break
		}
		br := []int{0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 0}[(h>>12)&15]
		sr := []int{44100, 48000, 32000, 1}[(h>>10)&3]
		l := 144*br*1000/sr + int(h>>9)&1
		if l < 8 || i+l > len(b) {
			break
		}
		fr = append(fr, b[i:i+l])
		i += l
	}
	baseFrames = fr[1:]
	return baseFrames
}

// SongBytes cuts n frames starting at frame from; the music of different cuts differs.
func SongBytes(from, n int) []byte {
	fr := Frames()
	var out []byte
	for i := 0; i < n; i++ {
		out = append(out, fr[(from+i)%len(fr)]...)
	}
	return out
}

// WriteSong writes a song and returns its reference samples (decoded here,
// from the same bytes, not by the code under test).
func WriteSong(path string, from, n int, prefix, suffix []byte) [][2]float64 {
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		panic(err)
	}
	b := append(append(append([]byte{}, prefix...), SongBytes(from, n)...), suffix...)
	if err := ioutil.WriteFile(path, b, 0644); err != nil {
		panic(err)
	}
	s, err := DecodeFile(path)
	if err != nil {
		panic(err)
	}
	return s
}

// DecodeFile decodes a whole file.
func DecodeFile(path string) ([][2]float64, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	s, _, err := mp3.Decode(f)
	if err != nil {
		return nil, err
	}
	var out [][2]float64
	buf := make([][2]float64, 512)
	for {
		n, ok := s.Stream(buf)
		out = append(out, buf[:n]...)
		if !ok || n < len(buf) {
			return out, nil
		}
	}
}

// DecodedLen is the length the decoder announces for a file.
func DecodedLen(path string) int64 {
	f, err := os.Open(path)
	if err != nil {
		return -1
	}
	defer f.Close()
	s, _, err := mp3.Decode(f)
	if err != nil {
		return -1
	}
	return int64(s.Len())
}
