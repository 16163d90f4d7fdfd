package playback

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"testing"

	"github.com/LogicalOverflow/music-sync/verifkit"
)

func c14Convert(l, h []float64) (ol, oh []int) {
	s := make([][2]float64, len(l))
	for i := range l {
		s[i] = [2]float64{l[i], h[i]}
	}
	buf := make([]byte, 4*len(s))
	samplesToAudioBuf(s, buf)
	for i := range s {
		ol = append(ol, int(int16(uint16(buf[4*i])|uint16(buf[4*i+1])<<8)))
		oh = append(oh, int(int16(uint16(buf[4*i+2])|uint16(buf[4*i+3])<<8)))
	}
	return
}

func c14Samples(rng *rand.Rand, n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		k := float64(rng.Intn(65537) - 32768)
		switch rng.Intn(12) {
		case 0:
			v[i] = k / 32768
		case 1:
			v[i] = k / 32767
		case 2:
			v[i] = math.Nextafter(k/32768, 2)
		case 3:
			v[i] = math.Nextafter(k/32768, -2)
		case 4:
			v[i] = (k + .5) / 32768
		case 5:
			v[i] = []float64{0, math.Copysign(0, -1), 1, -1, math.Nextafter(1, 2), math.Nextafter(-1, -2), math.Nextafter(1, 0), math.Nextafter(-1, 0), math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 1e-300}[rng.Intn(11)]
		case 6:
			v[i] = []float64{1.5, -1.5, 2, -2, 3.3, -7, 65536, -65536, 1e18, -1e18, 1e300, -1e300, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1)}[rng.Intn(16)]
		case 7:
			v[i] = rng.NormFloat64()
		default:
			v[i] = 2*rng.Float64() - 1
		}
	}
	return v
}

// every value through the conversion at a set volume
func TestVerif_C14_convert(t *testing.T) {
	r := verifkit.Start(t, "C14", "pcm-conversion")
	defer r.Finish()
	const n = 2048
	volumes := []float64{1, 0.1, 0.5, 0, 0.999969482421875, 1.0000001, 2, 10, 0.25, 1e-3, 1e-9}
	for i := 0; i < r.N(1200, 40000); i++ {
		rng := r.Rand(i)
		vol := volumes[i%len(volumes)]
		if i%3 == 0 {
			vol = rng.Float64() * 1.2
		}
		SetVolume(vol)
		l, h := c14Samples(rng, n), c14Samples(rng, n)
		if i < 33 { // every 16 bit value exactly
			for k := range l {
				l[k] = float64(i*n+k-32768) / 32768
				h[k] = -l[k]
			}
		}
		if vol == 0 { // 0 * inf is not a number
			for k := range l {
				if math.IsInf(l[k], 0) {
					l[k] = 1
				}
				if math.IsInf(h[k], 0) {
					h[k] = 1
				}
			}
		}
		var ol, oh []int
		if p := verifkit.Catch(func() { ol, oh = c14Convert(l, h) }); p != "" {
			r.Violation("crash", p, nil)
			return
		}
		judge := func(ch string, x float64, q int) bool {
			want := math.Max(-1, math.Min(1, x*vol)) * 32768
			if math.Abs(float64(q)-want) > 1 || x*vol >= 1 && q != 32767 || x*vol <= -1 && q > -32767 || x == 0 && q != 0 {
				r.Violation("sample-distorted", fmt.Sprintf("%s sample %v at volume %v becomes %d, %.3f steps expected", ch, x, vol, q, want), map[string]interface{}{"sample": fmt.Sprint(x), "volume": vol, "value": q})
				return false
			}
			return true
		}
		for k := range l {
			if !judge("left", l[k], ol[k]) || !judge("right", h[k], oh[k]) {
				return
			}
		}
		// monotonic, both channels alike
		type pt struct {
			x float64
			q int
		}
		var pts []pt
		for k := range l {
			pts = append(pts, pt{l[k], ol[k]}, pt{h[k], oh[k]})
		}
		sort.Slice(pts, func(a, b int) bool { return pts[a].x < pts[b].x })
		for k := 1; k < len(pts); k++ {
			if pts[k-1].q > pts[k].q || pts[k-1].x == pts[k].x && pts[k-1].q != pts[k].q {
				r.Violation("not-monotonic", fmt.Sprintf("at volume %v, %v becomes %d but %v becomes %d", vol, pts[k-1].x, pts[k-1].q, pts[k].x, pts[k].q), nil)
				return
			}
		}
		// symmetric
		neg := make([]float64, n)
		for k := range l {
			neg[k] = -l[k]
		}
		nl, _ := c14Convert(neg, neg)
		for k := range l {
			if d := nl[k] + ol[k]; d < -1 || d > 1 {
				r.Violation("not-symmetric", fmt.Sprintf("at volume %v, %v becomes %d but %v becomes %d", vol, l[k], ol[k], neg[k], nl[k]), nil)
				return
			}
		}
		r.Count("samples", 3*n)
		sat := 0
		for k := range ol {
			if ol[k] == 32767 || ol[k] <= -32767 {
				sat++
			}
		}
		r.Count("saturated", int64(sat))
		r.Eval(fmt.Sprintf("%v %v", vol, l[:8]), vol != 0)
		r.Sample(map[string]interface{}{"volume": vol, "left": fmt.Sprint(l[:4]), "becomes": ol[:4]})
	}
	r.Require("saturated", 1)
	r.Require("samples", 1)
}

// what leaves for the device is converted with the volume set, channels in place, whatever the buffer's length
func TestVerif_C14_buffers(t *testing.T) {
	r := verifkit.Start(t, "C14", "buffers")
	defer r.Finish()
	for i := 0; i < r.N(400, 8000); i++ {
		rng := r.Rand(i)
		n := []int{0, 1, 2, 3, 7, 100, 4410}[rng.Intn(7)]
		vol := []float64{1, .5, .1, .75}[rng.Intn(4)]
		SetVolume(vol)
		l, h := make([]float64, n), make([]float64, n)
		for k := range l { // left positive, right negative, each its own ramp
			l[k] = float64(k+1) / 8192
			h[k] = -float64(n-k) / 8192
		}
		ol, oh := c14Convert(l, h)
		for k := range l {
			if math.Abs(float64(ol[k])-l[k]*vol*32768) > 1 || math.Abs(float64(oh[k])-h[k]*vol*32768) > 1 {
				r.Violation("channels", fmt.Sprintf("sample %d of %d (%v, %v) at volume %v becomes (%d, %d)", k, n, l[k], h[k], vol, ol[k], oh[k]), nil)
				return
			}
		}
		r.Count("samples", int64(n))
		r.Eval(fmt.Sprint(n, vol), n > 0)
	}
}
