package schedule

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/verifkit"
	"github.com/LogicalOverflow/music-sync/verifwire"
	"github.com/golang/protobuf/proto"
)

// Clients connect and subscribe from the moment the server listens, while the rest of it is still being started.
func TestVerif_C27_startup(t *testing.T) {
	k := verifkit.Start(t, "C27", "startup")
	defer k.Finish()
	dir := t.TempDir()
	playback.AudioDir = dir
	SampleRate, NanBreakSize = 44100, 100
	StreamStartDelay, StreamDelay, StreamChunkSize, StreamChunkTime = 0, time.Second, 441, 10*time.Millisecond
	for round := 0; round < k.N(6, 40); round++ {
		rng := k.Rand(round)
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			k.Inconclusive(err.Error())
			return
		}
		addr := l.Addr().String()
		l.Close()
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var joined, received int64
		for g := 0; g < 6; g++ {
			wg.Add(1)
			seed := rng.Int63()
			go func(g int) {
				defer wg.Done()
				for i := 0; ; i++ {
					select {
					case <-stop:
						return
					default:
					}
					c, err := verifwire.Follow(addr, func(proto.Message) { atomic.AddInt64(&received, 1) })
					if err != nil {
						time.Sleep(200 * time.Microsecond)
						continue
					}
					atomic.AddInt64(&joined, 1)
					for j := 0; j < 3; j++ {
						c.Send(&comm.SubscribeChannelRequest{Channel: []comm.Channel{comm.Channel_AUDIO, comm.Channel_META}[(int(seed&1)+j)%2]})
						c.Send(&comm.TimeSyncRequest{ClientSend: 1})
						time.Sleep(time.Duration(g) * time.Millisecond)
					}
					c.Close()
				}
			}(g)
		}
		sender, err := comm.StartServer(addr)
		if err != nil {
			close(stop)
			wg.Wait()
			continue
		}
		time.Sleep(time.Duration(rng.Intn(8)) * time.Millisecond)
		Server(sender)
		time.Sleep(100 * time.Millisecond)
		close(stop)
		wg.Wait()
		k.Count("clients", joined)
		k.Count("messages", received)
		k.Eval(fmt.Sprint(round), joined > 5 && received > 0)
	}
}

// Songs begin, pauses and volumes change and clients are told the state, each from goroutines which do nothing else.
func TestVerif_C27_state(t *testing.T) {
	k := verifkit.Start(t, "C27", "state")
	defer k.Finish()
	for round := 0; round < k.N(4, 30); round++ {
		ss := vState(nil)
		hub := &vHub{delay: func() {}}
		ss.sender = hub
		song, pause, client, volume := ss.createNewSongHandler(), ss.createPauseToggleHandler(), ss.createClientHandler(), ss.volumeCommand()
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var calls int64
		each := func(f func(i int)) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 1; ; i++ {
					select {
					case <-stop:
						return
					case <-time.After(time.Millisecond):
					}
					f(i)
					atomic.AddInt64(&calls, 1)
				}
			}()
		}
		quiet := vSink{}
		each(func(i int) { song(uint64(i*1000), "a.mp3", 10) })
		each(func(i int) { pause(i%2 == 0, uint64(i*400)) })
		each(func(i int) { volume.Exec([]string{fmt.Sprintf("0.%d", i%10)}) })
		each(func(i int) { ss.sendVolume(quiet) })
		each(func(i int) { ss.sendNewestSong(quiet) })
		each(func(i int) { ss.sendPauses(quiet) })
		each(func(i int) { client(comm.Channel_META, quiet) })
		each(func(i int) { ss.removablePauses() })
		each(func(i int) { ss.removeOldPauses() })
		time.Sleep(400 * time.Millisecond)
		close(stop)
		wg.Wait()
		k.Count("calls", calls)
		k.Eval(fmt.Sprint(round), calls > 100)
	}
}

type vSink struct{}

func (vSink) SendMessage(proto.Message) error { return nil }
