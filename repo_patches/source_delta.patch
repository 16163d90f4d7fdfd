From 610a86c94939d1dd2ca190ec1ac03f59eee84820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 01/57] fix: clip the index when removing one past the end of
 the playlist

RemoveSong clipped only indices greater than the length, so removing at
exactly the length panicked and took the server down.
---
 playback/playlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 97d81ef..06010a7 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -198,7 +198,7 @@ func (pl *Playlist) RemoveSong(index int) string {
 		index = 0
 	}
 	var removed string
-	if len(pl.songs) < index {
+	if len(pl.songs) <= index {
 		removed = pl.songs[len(pl.songs)-1]
 		pl.songs = pl.songs[:len(pl.songs)-1]
 	} else {
-- 
2.43.0


From de123cbf896f52f934820ec21878242c31f14256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 02/57] fix: wrap negative playlist positions

Jumping to a negative position made the position modulo the playlist
length negative, and the next song lookup panicked.
---
 playback/playlist.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 06010a7..bb773ef 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -66,11 +66,16 @@ func (pl *Playlist) nextSong() (song string) {
 	if len(pl.songs) == 0 {
 		return ""
 	}
-	pos := pl.position % len(pl.songs)
+	pos := wrapPosition(pl.position, len(pl.songs))
 	pl.position = pos
 	return pl.songs[pos]
 }
 
+// wrapPosition wraps pos into [0, length), for negative positions as well
+func wrapPosition(pos, length int) int {
+	return (pos%length + length) % length
+}
+
 func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 	buf := make([][2]float64, streamerBufferSize)
 	if pl.newSongHandler != nil {
@@ -149,7 +154,7 @@ func (pl *Playlist) Pos() int {
 	if len(pl.songs) == 0 {
 		return 0
 	}
-	return pl.position % len(pl.songs)
+	return wrapPosition(pl.position, len(pl.songs))
 }
 
 // Songs returns all songs in the playlist.
-- 
2.43.0


From 1af2239415990c98249826efa5bbd9aeb704a73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 03/57] fix: never block on, lose or repeat a jump

SetPos blocked for good once two jumps were pending (nothing consumes them
while no song can be played), a jump racing with the end of a song could be
overwritten by the advance to the next one, and a jump which was picked up
by the regular song change cut the target song off again after one block.
---
 playback/playlist.go | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index bb773ef..6b22b51 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -51,7 +51,7 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		s, err := getStreamer(filename)
 		if err != nil {
 			logger.Warnf("skipping song %s in playlist: failed to get streamer: %v", filename, err)
-			pl.position++
+			pl.advance()
 			continue
 		}
 
@@ -61,11 +61,13 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 }
 
 func (pl *Playlist) nextSong() (song string) {
-	pl.songsMutex.RLock()
-	defer pl.songsMutex.RUnlock()
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
 	if len(pl.songs) == 0 {
 		return ""
 	}
+	// the song at the current position is picked right now, so a pending jump to it is done
+	pl.takeForceNext()
 	pos := wrapPosition(pl.position, len(pl.songs))
 	pl.position = pos
 	return pl.songs[pos]
@@ -99,7 +101,9 @@ func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 }
 
 func (pl *Playlist) shouldBreakStreamerPushLoop(n int, ok bool, bufSize int) bool {
-	if 0 < len(pl.forceNext) && <-pl.forceNext {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	if pl.takeForceNext() {
 		return true
 	}
 
@@ -110,6 +114,24 @@ func (pl *Playlist) shouldBreakStreamerPushLoop(n int, ok bool, bufSize int) boo
 	return false
 }
 
+// advance moves to the next position, unless there is a pending jump to another one
+func (pl *Playlist) advance() {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	if len(pl.forceNext) == 0 {
+		pl.position++
+	}
+}
+
+// takeForceNext returns whether there is a pending jump and clears it. songsMutex must be held.
+func (pl *Playlist) takeForceNext() bool {
+	forced := false
+	for 0 < len(pl.forceNext) {
+		forced = <-pl.forceNext || forced
+	}
+	return forced
+}
+
 func (pl *Playlist) pushNanSamples(count int) {
 	for i := 0; i < count; i++ {
 		pl.pushSample(math.NaN(), math.NaN())
@@ -143,8 +165,13 @@ func (pl *Playlist) callPauseToggleHandler() {
 
 // SetPos jumps to the song at pos.
 func (pl *Playlist) SetPos(pos int) {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
 	pl.position = pos
-	pl.forceNext <- true
+	select {
+	case pl.forceNext <- true:
+	default: // a jump is already pending and will pick up the new position
+	}
 }
 
 // Pos returns the position of the song currently being played.
-- 
2.43.0


From 922a7f79cf3f886f3cf0f69ac933abe9d59c8499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 04/57] fix: push exactly the pause which was announced

pushStreamer looked at the playing flag once to announce a pause and again
to decide what to push, so a toggle in between was announced one block off.
---
 playback/playlist.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 6b22b51..5e5022b 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -86,8 +86,7 @@ func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 
 	for {
 		n, ok := streamerBufferSize, true
-		pl.callPauseToggleHandler()
-		if pl.playing {
+		if pl.callPauseToggleHandler() {
 			n, ok = s.Stream(buf)
 			pl.pushBuffer(buf[:n])
 		} else {
@@ -156,11 +155,15 @@ func (pl *Playlist) pushSample(low, high float64) {
 	pl.sampleIndexWrite++
 }
 
-func (pl *Playlist) callPauseToggleHandler() {
-	if pl.playing != pl.playingLast && pl.pauseToggleHandler != nil {
-		pl.playingLast = pl.playing
-		go pl.pauseToggleHandler(pl.playing, pl.sampleIndexWrite)
+// callPauseToggleHandler calls the pause toggle handler if playback was paused/resumed since the last call and
+// returns whether the playlist is playing, so that what was announced is also what is pushed.
+func (pl *Playlist) callPauseToggleHandler() bool {
+	playing := pl.Playing()
+	if playing != pl.playingLast && pl.pauseToggleHandler != nil {
+		pl.playingLast = playing
+		go pl.pauseToggleHandler(playing, pl.sampleIndexWrite)
 	}
+	return playing
 }
 
 // SetPos jumps to the song at pos.
-- 
2.43.0


From 1859ef99cadc476a2566f9e1b3a8bce0e6f35f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 05/57] fix: synchronize the playing flag and the current song
 of playlists

Both are written and read by the stream loop and the ssh sessions.
---
 playback/playlist.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/playback/playlist.go b/playback/playlist.go
index 5e5022b..5f0c1eb 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -24,6 +24,7 @@ type Playlist struct {
 
 	playing     bool
 	currentSong string
+	stateMutex  sync.RWMutex
 
 	sampleIndexRead  uint64
 	sampleIndexWrite uint64
@@ -46,7 +47,9 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 			continue
 		}
 
+		pl.stateMutex.Lock()
 		pl.currentSong = filename
+		pl.stateMutex.Unlock()
 
 		s, err := getStreamer(filename)
 		if err != nil {
@@ -260,16 +263,22 @@ func (pl *Playlist) Fill(low []float64, high []float64) uint64 {
 
 // Playing returns true if the playlist is currently playing audio.
 func (pl *Playlist) Playing() bool {
+	pl.stateMutex.RLock()
+	defer pl.stateMutex.RUnlock()
 	return pl.playing
 }
 
 // SetPlaying can set whether or not the playlist should be playing audio.
 func (pl *Playlist) SetPlaying(p bool) {
+	pl.stateMutex.Lock()
+	defer pl.stateMutex.Unlock()
 	pl.playing = p
 }
 
 // CurrentSong returns the song currently being played
 func (pl *Playlist) CurrentSong() string {
+	pl.stateMutex.RLock()
+	defer pl.stateMutex.RUnlock()
 	return pl.currentSong
 }
 
-- 
2.43.0


From 76c936d50e88c6c575e366b65e423136d126d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 06/57] fix: keep streaming silence when songs can not be
 opened

With no playable song in the playlist the stream loop spun without ever
pushing a sample: the stream stalled, and as chunk timestamps do not move on
while it does, every chunk after that was too late to be played.
---
 playback/playlist.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/playback/playlist.go b/playback/playlist.go
index 5f0c1eb..741c082 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -55,6 +55,7 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		if err != nil {
 			logger.Warnf("skipping song %s in playlist: failed to get streamer: %v", filename, err)
 			pl.advance()
+			pl.pushNanSamples(noSongNanSampleCount)
 			continue
 		}
 
-- 
2.43.0


From 25aed82ec7074e5ccf18ea72778784a652b70cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 07/57] fix: close song, lyrics, metadata and users files

They were only closed whenever the garbage collector got to them.
---
 metadata/lyrics_provider.go   | 1 +
 metadata/metadata_provider.go | 1 +
 playback/playback.go          | 1 +
 playback/playlist.go          | 1 +
 ssh/ssh.go                    | 1 +
 5 files changed, 5 insertions(+)

diff --git a/metadata/lyrics_provider.go b/metadata/lyrics_provider.go
index 6662714..f7bfee5 100644
--- a/metadata/lyrics_provider.go
+++ b/metadata/lyrics_provider.go
@@ -38,6 +38,7 @@ func (basicLyricsProvider) CollectLyrics(song string) []LyricsLine {
 	if err != nil {
 		return []LyricsLine{}
 	}
+	defer f.Close()
 	result := make([]LyricsLine, 0)
 
 	if err := json.NewDecoder(f).Decode(&result); err != nil {
diff --git a/metadata/metadata_provider.go b/metadata/metadata_provider.go
index 7742357..2edab97 100644
--- a/metadata/metadata_provider.go
+++ b/metadata/metadata_provider.go
@@ -36,6 +36,7 @@ func (basicProvider) CollectMetadata(song string) SongMetadata {
 	if err != nil {
 		return SongMetadata{}
 	}
+	defer f.Close()
 	md, err := tag.ReadFrom(f)
 	if err != nil {
 		return SongMetadata{}
diff --git a/playback/playback.go b/playback/playback.go
index 4012462..12c3817 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -40,6 +40,7 @@ func getStreamer(filename string) (beep.StreamSeekCloser, error) {
 
 	s, _, err := mp3.Decode(f)
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("failed to decode file %s: %v", filename, err)
 	}
 
diff --git a/playback/playlist.go b/playback/playlist.go
index 741c082..0c5ff19 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -60,6 +60,7 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		}
 
 		pl.pushStreamer(s)
+		s.Close()
 		pl.pushNanBreak()
 	}
 }
diff --git a/ssh/ssh.go b/ssh/ssh.go
index b53538b..e78a8f9 100644
--- a/ssh/ssh.go
+++ b/ssh/ssh.go
@@ -27,6 +27,7 @@ func ReadUsersFile(filename string) (map[string]UserAuth, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to open users file (%s): %v", filename, err)
 	}
+	defer f.Close()
 	users := make(map[string]UserAuth)
 	if err := json.NewDecoder(f).Decode(&users); err != nil {
 		return nil, fmt.Errorf("failed to decode users file (%s): %v", filename, err)
-- 
2.43.0


From 17518b0878c42871d8645acb5c9a7741d4c845e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 08/57] fix: saturate full scale samples instead of wrapping
 them around

Samples at (or clipped to) +1 were converted to the most negative value.
---
 playback/playback.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/playback/playback.go b/playback/playback.go
index 12c3817..d73cd50 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"fmt"
 	"github.com/LogicalOverflow/music-sync/util"
+	"math"
 	"os"
 	"path"
 	"time"
@@ -146,7 +147,11 @@ func convertSampleToBytes(val float64) (low, high byte) {
 	if val > +1 {
 		val = +1
 	}
-	valInt16 := int16(val * (1 << 15))
+	val *= 1 << 15
+	if math.MaxInt16 < val {
+		val = math.MaxInt16 // full scale does not fit and would wrap around to the negative extreme
+	}
+	valInt16 := int16(val)
 	low = byte(valInt16)
 	high = byte(valInt16 >> 8)
 	return
-- 
2.43.0


From cc8a7fec93f81a3e9f56b94a0e0d762e6a907adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 09/57] fix: guard the sample queue's state with the
 condition's lock

The positions were changed under other locks than the one waiters check them
with, so a waiter could miss its wakeup, and Len() could deadlock with a
blocked Add and Remove.
---
 playback/timed_sample_queue.go | 37 ++++++++++++----------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/playback/timed_sample_queue.go b/playback/timed_sample_queue.go
index 4f85177..366bd2b 100644
--- a/playback/timed_sample_queue.go
+++ b/playback/timed_sample_queue.go
@@ -2,21 +2,22 @@ package playback
 
 import "sync"
 
+// timedSampleQueue is a bounded blocking queue. head and tail are guarded by cond.L.
 type timedSampleQueue struct {
 	buffer []timedSample
 	head   int
 	tail   int
 
-	cond      *sync.Cond
-	headMutex sync.RWMutex
-	tailMutex sync.RWMutex
+	cond *sync.Cond
 }
 
 func (q *timedSampleQueue) Add(sample [2]float64, time int64) {
-	q.headMutex.Lock()
-	defer q.headMutex.Unlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 
-	q.waitNotFull()
+	for q.full() {
+		q.cond.Wait()
+	}
 
 	q.buffer[q.head%len(q.buffer)] = timedSample{sample: sample, time: time}
 	q.head = q.inc(q.head)
@@ -25,8 +26,8 @@ func (q *timedSampleQueue) Add(sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Remove() (sample [2]float64, time int64) {
-	q.tailMutex.Lock()
-	defer q.tailMutex.Unlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 
 	q.waitNotEmpty()
 
@@ -38,8 +39,8 @@ func (q *timedSampleQueue) Remove() (sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Peek() (sample [2]float64, time int64) {
-	q.tailMutex.RLock()
-	defer q.tailMutex.RUnlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 
 	q.waitNotEmpty()
 
@@ -48,10 +49,8 @@ func (q *timedSampleQueue) Peek() (sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Len() int {
-	q.tailMutex.RLock()
-	defer q.tailMutex.RUnlock()
-	q.headMutex.RLock()
-	defer q.headMutex.RUnlock()
+	q.cond.L.Lock()
+	defer q.cond.L.Unlock()
 	if q.tail <= q.head {
 		return q.head - q.tail
 	}
@@ -74,20 +73,10 @@ func (q *timedSampleQueue) empty() bool {
 	return q.head == q.tail
 }
 
-func (q *timedSampleQueue) waitNotFull() {
-	q.cond.L.Lock()
-	for q.full() {
-		q.cond.Wait()
-	}
-	q.cond.L.Unlock()
-}
-
 func (q *timedSampleQueue) waitNotEmpty() {
-	q.cond.L.Lock()
 	for q.empty() {
 		q.cond.Wait()
 	}
-	q.cond.L.Unlock()
 }
 
 func newTimedSampleQueue(size int) *timedSampleQueue {
-- 
2.43.0


From 103c9e2157276fc64e6696b77b4b229c55c189b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 10/57] fix: do not race with or block the queueing of chunks

ReadChunks looked at the chunk list without its lock, and then held the lock
until the whole chunk fitted into the sample queue, which is for as long as
the player is paused.
---
 playback/streamer.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/playback/streamer.go b/playback/streamer.go
index 65337e3..bb3a2fb 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -80,13 +80,10 @@ func (tms *timedMultiStreamer) streamSync(samples [][2]float64, now int64) (n in
 
 func (tms *timedMultiStreamer) ReadChunks(ctx context.Context) {
 	for !util.IsCanceled(ctx) {
-		if 0 < len(tms.chunks) {
-			tms.chunksMutex.RLock()
-			st := tms.chunks[0].startTime
-			for i, s := range tms.chunks[0].samples {
-				tms.samples.Add(s, st+tms.samplesDuration(i))
+		if chunk := tms.firstChunk(); chunk != nil {
+			for i, s := range chunk.samples {
+				tms.samples.Add(s, chunk.startTime+tms.samplesDuration(i))
 			}
-			tms.chunksMutex.RUnlock()
 			tms.chunksMutex.Lock()
 			tms.chunks = tms.chunks[1:]
 			tms.chunksMutex.Unlock()
@@ -96,6 +93,16 @@ func (tms *timedMultiStreamer) ReadChunks(ctx context.Context) {
 	}
 }
 
+// firstChunk returns the first queued chunk (nil if there is none)
+func (tms *timedMultiStreamer) firstChunk() *queuedChunk {
+	tms.chunksMutex.RLock()
+	defer tms.chunksMutex.RUnlock()
+	if len(tms.chunks) == 0 {
+		return nil
+	}
+	return tms.chunks[0]
+}
+
 func (tms *timedMultiStreamer) samplesDuration(n int) int64 {
 	return int64(tms.format.SampleRate.D(n) / time.Nanosecond)
 }
-- 
2.43.0


From 7cf60b214106b7833085f9ae613c6d33d1daca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 11/57] fix: start playing at the first sample of a song

When aligning, the player kept playing silence until it was at least a whole
buffer late and then dropped everything it was late for, instead of padding
up to the time of the first sample.
---
 playback/streamer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/playback/streamer.go b/playback/streamer.go
index bb3a2fb..a6c03f9 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -62,7 +62,7 @@ func (tms *timedMultiStreamer) streamSync(samples [][2]float64, now int64) (n in
 		tms.samples.Remove()
 		s, t = tms.samples.Peek()
 	}
-	if now < t+tms.samplesDuration(len(samples)) {
+	if now+tms.samplesDuration(len(samples)) <= t {
 		tms.background.Stream(samples)
 		return len(samples), false
 	} else if now < t {
-- 
2.43.0


From dc7dba0f98c7f652249ed082a2d78d382d89b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 12/57] fix: synchronize the player's volume and streamer

Both are written while the connection's handlers and the play loop use them.
Init also reset a volume which the server may already have set.
---
 playback/playback.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/playback/playback.go b/playback/playback.go
index d73cd50..e3f8b6a 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -10,6 +10,7 @@ import (
 	"math"
 	"os"
 	"path"
+	"sync"
 	"time"
 
 	"github.com/LogicalOverflow/music-sync/logging"
@@ -24,7 +25,10 @@ var (
 	format     beep.Format
 	streamer   *timedMultiStreamer
 	bufferSize int
-	volume     float64
+	volume     = .1
+
+	streamerMutex sync.RWMutex
+	volumeMutex   sync.RWMutex
 )
 
 var logger = log.GetLogger("play")
@@ -50,6 +54,9 @@ func getStreamer(filename string) (beep.StreamSeekCloser, error) {
 
 // QueueChunk queue a chunk for playback
 func QueueChunk(startTime int64, chunkID int64, samples [][2]float64) {
+	streamerMutex.RLock()
+	streamer := streamer
+	streamerMutex.RUnlock()
 	if streamer == nil {
 		logger.Infof("not queuing chunk %d: streamer not ready", chunkID)
 		return
@@ -82,7 +89,6 @@ func Init(sampleRate int) error {
 	logger.Infof("initializing playback")
 	var err error
 
-	volume = .1
 	format = beep.Format{SampleRate: beep.SampleRate(sampleRate), NumChannels: 2, Precision: 2}
 
 	bufferSize = format.SampleRate.N(time.Second / 10)
@@ -104,6 +110,8 @@ func Init(sampleRate int) error {
 }
 
 func initStreamer() {
+	streamerMutex.Lock()
+	defer streamerMutex.Unlock()
 	streamer = &timedMultiStreamer{
 		format:     format,
 		chunks:     make([]*queuedChunk, 0),
@@ -116,7 +124,9 @@ func initStreamer() {
 
 // SetVolume sets the playback volume of the player
 func SetVolume(v float64) {
+	volumeMutex.Lock()
 	volume = v
+	volumeMutex.Unlock()
 	logger.Infof("volume set to %.3f", v)
 }
 
@@ -133,6 +143,9 @@ func playLoop(ctx context.Context) {
 }
 
 func samplesToAudioBuf(samples [][2]float64, buf []byte) {
+	volumeMutex.RLock()
+	volume := volume
+	volumeMutex.RUnlock()
 	for i := range samples {
 		for c := range samples[i] {
 			buf[i*4+c*2+0], buf[i*4+c*2+1] = convertSampleToBytes(samples[i][c] * volume)
-- 
2.43.0


From 4c39f5bf59ec0b7de845f57197fcb055b1a4cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 13/57] fix: recover from a clock which is synced after audio
 was queued

A player whose raw clock is ahead of the server's compared the first samples
to the time from before it was synced, and went on to drop everything until
the stream had caught up with that.
---
 playback/streamer.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/playback/streamer.go b/playback/streamer.go
index a6c03f9..c74c9dc 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -29,6 +29,7 @@ func (tms *timedMultiStreamer) Stream(samples [][2]float64) {
 	var n int
 	var drained bool
 	now := timing.GetSyncedTime()
+	streamed := int64(0)
 	for 0 < len(samples) {
 		if tms.syncing {
 			n, drained = tms.streamSync(samples, now)
@@ -36,6 +37,11 @@ func (tms *timedMultiStreamer) Stream(samples [][2]float64) {
 			n, drained = tms.streamDirect(samples)
 		}
 		now += tms.samplesDuration(n)
+		streamed += tms.samplesDuration(n)
+		if n == 0 && !drained {
+			// skipping late samples may have taken a while, and time may have been synced meanwhile
+			now = timing.GetSyncedTime() + streamed
+		}
 		samples = samples[n:]
 		if drained {
 			tms.syncing = !tms.syncing
@@ -69,13 +75,11 @@ func (tms *timedMultiStreamer) streamSync(samples [][2]float64, now int64) (n in
 		silence := tms.samplesCount(t - now)
 		tms.background.Stream(samples[:silence])
 		return silence, true
-	} else {
-		for t < now {
-			tms.samples.Remove()
-			_, t = tms.samples.Peek()
-		}
-		return 0, true
+	} else if t < now {
+		tms.samples.Remove()
+		return 0, false
 	}
+	return 0, true
 }
 
 func (tms *timedMultiStreamer) ReadChunks(ctx context.Context) {
-- 
2.43.0


From 5612257f328491f3aa80ffad28e8c5e0e5e62bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 14/57] fix: fail on malformed packages instead of panicking

The size, the end of the data and the compression of a package are checked, so
any bytes sent by a peer can at most end its own connection.
---
 comm/package_util.go | 56 ++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/comm/package_util.go b/comm/package_util.go
index ee2b73d..3600621 100644
--- a/comm/package_util.go
+++ b/comm/package_util.go
@@ -14,6 +14,9 @@ import (
 
 const zlibLevel = 5
 
+// maxPackageSize is the maximum size of a package (before and after decompressing it) in bytes
+const maxPackageSize = 1 << 28
+
 func channelOf(m proto.Message) ([]Channel, bool) {
 	switch m.(type) {
 	case *QueueChunkRequest:
@@ -60,8 +63,14 @@ func readWire(conn net.Conn) (proto.Message, error) {
 	if err != nil {
 		return nil, err
 	}
-	size := int64(binary.LittleEndian.Uint64(sizeBuf))
-	env, err := readBytes(conn, size)
+	size := binary.LittleEndian.Uint64(sizeBuf)
+	if maxPackageSize < size {
+		return nil, fmt.Errorf("package is too large: %d bytes", size)
+	}
+	env, err := readBytes(conn, int64(size))
+	if err != nil {
+		return nil, err
+	}
 
 	envelope := &Envelope{}
 	if err := proto.Unmarshal(env, envelope); err != nil {
@@ -74,17 +83,32 @@ func readWire(conn net.Conn) (proto.Message, error) {
 	}
 	m := reflect.New(mType.Elem()).Interface().(proto.Message)
 
-	r, _ := zlib.NewReader(bytes.NewBuffer(envelope.Data))
-	data, _ := ioutil.ReadAll(r)
-	r.Close()
+	data, err := decompress(envelope.Data)
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
+	}
 
-	e := error(nil)
 	if err := proto.Unmarshal(data, m); err != nil {
-		m = nil
-		e = fmt.Errorf("failed to unmarshal inner protobuf (%s): %v", envelope.Type, err)
+		return nil, fmt.Errorf("failed to unmarshal inner protobuf (%s): %v", envelope.Type, err)
 	}
-	return m, e
+	return m, nil
+}
 
+func decompress(compressed []byte) ([]byte, error) {
+	r, err := zlib.NewReader(bytes.NewReader(compressed))
+	if err != nil {
+		return nil, err
+	}
+	defer r.Close()
+
+	data, err := ioutil.ReadAll(io.LimitReader(r, maxPackageSize+1))
+	if err != nil {
+		return nil, err
+	}
+	if maxPackageSize < len(data) {
+		return nil, fmt.Errorf("data is too large")
+	}
+	return data, nil
 }
 
 func sendWire(m proto.Message, conn net.Conn) error {
@@ -103,15 +127,11 @@ func sendWire(m proto.Message, conn net.Conn) error {
 	return nil
 }
 
+// readBytes reads number bytes from conn, without trusting number to be the size of what is actually sent
 func readBytes(conn net.Conn, number int64) ([]byte, error) {
-	buf := make([]byte, number)
-	read := 0
-	for read < len(buf) {
-		n, err := conn.Read(buf[read:])
-		if err != nil {
-			return nil, err
-		}
-		read += n
+	buf := new(bytes.Buffer)
+	if _, err := io.CopyN(buf, conn, number); err != nil {
+		return nil, err
 	}
-	return buf, nil
+	return buf.Bytes(), nil
 }
-- 
2.43.0


From 975b71d8deb31d2ae134296f3c4a5eab5499b57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 15/57] fix: do not hold the connection lock while sending

A client which does not read blocks the sending to it. With the lock held, no
client could connect, subscribe or disconnect any more.
---
 comm/message_sender.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index b94e60c..8647f9f 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -23,19 +23,16 @@ type multiMessageSender struct {
 }
 
 func (mms *multiMessageSender) SendMessage(m proto.Message) error {
-	mms.mutex.RLock()
-	defer mms.mutex.RUnlock()
-
-	chs, hasCh := channelOf(m)
+	conns := mms.receivers(m)
 
 	var errCol util.ErrorCollector
 	var wg sync.WaitGroup
-	wg.Add(len(mms.connections))
+	wg.Add(len(conns))
 
-	for _, c := range mms.connections {
+	for _, c := range conns {
 		go func(c net.Conn) {
 			defer wg.Done()
-			if err := mms.sendMessageTo(m, c, hasCh, chs); err != nil {
+			if err := sendWire(m, c); err != nil {
 				errCol.Add(err)
 			}
 		}(c)
@@ -47,11 +44,21 @@ func (mms *multiMessageSender) SendMessage(m proto.Message) error {
 	return errCol.Err("failed to send to %d clients: ")
 }
 
-func (mms *multiMessageSender) sendMessageTo(m proto.Message, c net.Conn, hasCh bool, chs []Channel) error {
-	if !hasCh || mms.isSubscribed(c, chs) {
-		return sendWire(m, c)
+// receivers returns the connections m has to be sent to. Sending must happen without holding the mutex: a client
+// which does not read blocks the sending, which must not keep others from connecting or subscribing.
+func (mms *multiMessageSender) receivers(m proto.Message) []net.Conn {
+	chs, hasCh := channelOf(m)
+
+	mms.mutex.RLock()
+	defer mms.mutex.RUnlock()
+
+	conns := make([]net.Conn, 0, len(mms.connections))
+	for _, c := range mms.connections {
+		if !hasCh || mms.isSubscribed(c, chs) {
+			conns = append(conns, c)
+		}
 	}
-	return nil
+	return conns
 }
 
 func (mms *multiMessageSender) AddConn(c net.Conn) {
-- 
2.43.0


From 43ae6465f4b0297688ee51783d8758608cd26565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 16/57] fix: forget the subscriptions of disconnected clients

and do not add subscriptions again and again or for clients which are gone.
---
 comm/message_sender.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index 8647f9f..89cfd5b 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -81,18 +81,28 @@ func (mms *multiMessageSender) DelConn(c net.Conn) {
 
 	if 0 <= index {
 		mms.connections[index] = mms.connections[len(mms.connections)-1]
+		mms.connections[len(mms.connections)-1] = nil
 		mms.connections = mms.connections[:len(mms.connections)-1]
 	}
+	delete(mms.channels, c)
 }
 
 func (mms *multiMessageSender) Subscribe(c net.Conn, channel Channel) {
 	mms.mutex.Lock()
 	defer mms.mutex.Unlock()
-	if l, ok := mms.channels[c]; ok {
-		mms.channels[c] = append(l, channel)
-	} else {
-		mms.channels[c] = []Channel{channel}
+	if !mms.isConnected(c) || containsChannel(mms.channels[c], channel) {
+		return
+	}
+	mms.channels[c] = append(mms.channels[c], channel)
+}
+
+func (mms *multiMessageSender) isConnected(c net.Conn) bool {
+	for _, conn := range mms.connections {
+		if conn == c {
+			return true
+		}
 	}
+	return false
 }
 
 func (mms *multiMessageSender) isSubscribed(c net.Conn, channels []Channel) bool {
-- 
2.43.0


From 26bf6ce4ccefcf9da9772ca2a46c15754d2e6d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 17/57] fix: do not crash when a client subscribes before the
 server is set up

---
 comm/conn_handler.go    | 24 +++++++++++++++++++++---
 comm/package_handler.go |  2 +-
 schedule/server.go      |  2 +-
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/comm/conn_handler.go b/comm/conn_handler.go
index 58ecd61..6bf9884 100644
--- a/comm/conn_handler.go
+++ b/comm/conn_handler.go
@@ -6,6 +6,7 @@ import (
 	"github.com/golang/protobuf/proto"
 	"net"
 	"os"
+	"sync"
 )
 
 type packageHandler interface {
@@ -26,7 +27,26 @@ func handleConnection(conn net.Conn, h packageHandler) {
 
 // NewClientHandler is called when a new client connects to the server (with channel -1)
 // and when a client subscribes to a channel.
+// Once the server is started, it must only be changed using SetNewClientHandler.
 var NewClientHandler func(channel Channel, conn MessageSender)
+var newClientHandlerMutex sync.RWMutex
+
+// SetNewClientHandler sets the NewClientHandler.
+func SetNewClientHandler(handler func(channel Channel, conn MessageSender)) {
+	newClientHandlerMutex.Lock()
+	defer newClientHandlerMutex.Unlock()
+	NewClientHandler = handler
+}
+
+// callNewClientHandler calls the NewClientHandler, if there is one yet
+func callNewClientHandler(channel Channel, conn MessageSender) {
+	newClientHandlerMutex.RLock()
+	handler := NewClientHandler
+	newClientHandlerMutex.RUnlock()
+	if handler != nil {
+		handler(channel, conn)
+	}
+}
 
 // StartServer starts a music-sync server listening at address and returns a MessageSender to broadcast
 // to clients
@@ -59,9 +79,7 @@ func serverConnectionAcceptor(mms *multiMessageSender, l net.Listener) {
 			handleConnection(conn, h)
 			mms.DelConn(conn)
 		}(conn)
-		if NewClientHandler != nil {
-			go NewClientHandler(-1, &singleMessageSender{conn})
-		}
+		go callNewClientHandler(-1, &singleMessageSender{conn})
 	}
 }
 
diff --git a/comm/package_handler.go b/comm/package_handler.go
index c57a5ac..3e0d892 100644
--- a/comm/package_handler.go
+++ b/comm/package_handler.go
@@ -101,7 +101,7 @@ func (s serverPackageHandler) HandleTimeSyncRequest(tsr *TimeSyncRequest, c net.
 
 func (s serverPackageHandler) HandleSubscribeChannelRequest(scr *SubscribeChannelRequest, c net.Conn) {
 	s.sender.Subscribe(c, scr.Channel)
-	NewClientHandler(scr.Channel, &singleMessageSender{c})
+	callNewClientHandler(scr.Channel, &singleMessageSender{c})
 }
 
 func (s serverPackageHandler) HandlePingMessage(_ *PingMessage, c net.Conn) { PingHandler(c) }
diff --git a/schedule/server.go b/schedule/server.go
index 2506ee2..1f8eabb 100644
--- a/schedule/server.go
+++ b/schedule/server.go
@@ -21,7 +21,7 @@ func Server(sender comm.MessageSender) {
 
 	ss.pauses = make([]*comm.PauseInfo, 0)
 
-	comm.NewClientHandler = ss.createClientHandler()
+	comm.SetNewClientHandler(ss.createClientHandler())
 
 	go ss.playlist.StreamLoop(context.Background())
 
-- 
2.43.0


From 1e849791a00f6e28db38f3f83e0c56bf1465f578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 18/57] fix: never leave clients with an outdated volume

An invalid volume command does not reset the volume which new clients get, and
a volume which is changed while another one is being sent is sent again.
---
 schedule/server_state.go          | 33 +++++++++++++++++++++++++++----
 schedule/server_state_commands.go | 11 +++++------
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 31587e0..b90958d 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -16,16 +16,41 @@ type serverState struct {
 	metadataProvider metadata.Provider
 
 	playlist *playback.Playlist
-	volume   float64
 
-	newestSong *comm.NewSongInfo
+	volume         float64
+	volumeRevision uint64
+	volumeMutex    sync.RWMutex
+
+	newestSong      *comm.NewSongInfo
+	newestSongMutex sync.RWMutex
 
 	pauses      []*comm.PauseInfo
 	pausesMutex sync.RWMutex
 }
 
-func (ss *serverState) sendVolume(s comm.MessageSender) {
-	s.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume})
+// sendVolume sends the current volume. If the volume is changed meanwhile, it is sent again: the old volume could
+// have been received after the new one.
+func (ss *serverState) sendVolume(s comm.MessageSender) error {
+	for {
+		volume, revision := ss.getVolume()
+		err := s.SendMessage(&comm.SetVolumeRequest{Volume: volume})
+		if _, r := ss.getVolume(); r == revision {
+			return err
+		}
+	}
+}
+
+func (ss *serverState) getVolume() (volume float64, revision uint64) {
+	ss.volumeMutex.RLock()
+	defer ss.volumeMutex.RUnlock()
+	return ss.volume, ss.volumeRevision
+}
+
+func (ss *serverState) setVolume(volume float64) {
+	ss.volumeMutex.Lock()
+	defer ss.volumeMutex.Unlock()
+	ss.volume = volume
+	ss.volumeRevision++
 }
 
 func (ss *serverState) sendNewestSong(s comm.MessageSender) {
diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 3b4c302..6eaebb9 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -2,7 +2,6 @@ package schedule
 
 import (
 	"fmt"
-	"github.com/LogicalOverflow/music-sync/comm"
 	"github.com/LogicalOverflow/music-sync/playback"
 	"github.com/LogicalOverflow/music-sync/ssh"
 	"github.com/LogicalOverflow/music-sync/util"
@@ -162,15 +161,15 @@ func (ss *serverState) volumeCommand() ssh.Command {
 		Usage: "volume",
 		Info:  "set the playback volume",
 		ExecFunc: func(args []string) (string, bool) {
-			var ok bool
-			ss.volume, ok = parseFloatParam(args, 0)
+			volume, ok := parseFloatParam(args, 0)
 			if !ok {
 				return "", false
 			}
-			if err := ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume}); err != nil {
-				return fmt.Sprintf("failed to set volume to %.3f: %v", ss.volume, err), true
+			ss.setVolume(volume)
+			if err := ss.sendVolume(ss.sender); err != nil {
+				return fmt.Sprintf("failed to set volume to %.3f: %v", volume, err), true
 			}
-			return fmt.Sprintf("setting volume to %.3f", ss.volume), true
+			return fmt.Sprintf("setting volume to %.3f", volume), true
 		},
 	}
 }
-- 
2.43.0


From 4e93c551ea07d9c092c3f4c3932984adfb8dc805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 19/57] fix: keep the newest song and the pauses consistent for
 new clients

Pauses are recorded in stream order before they are sent, removed in one step,
and sent without holding the lock. An older song never replaces a newer one.
---
 schedule/server_state.go | 82 +++++++++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 23 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index b90958d..9f1c5cd 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -54,17 +54,47 @@ func (ss *serverState) setVolume(volume float64) {
 }
 
 func (ss *serverState) sendNewestSong(s comm.MessageSender) {
-	if ss.newestSong != nil {
-		s.SendMessage(ss.newestSong)
+	if song := ss.getNewestSong(); song != nil {
+		s.SendMessage(song)
+	}
+}
+
+func (ss *serverState) getNewestSong() *comm.NewSongInfo {
+	ss.newestSongMutex.RLock()
+	defer ss.newestSongMutex.RUnlock()
+	return ss.newestSong
+}
+
+// setNewestSong sets the newest song, unless there is already a newer one (the handlers of songs run concurrently)
+func (ss *serverState) setNewestSong(song *comm.NewSongInfo) {
+	ss.newestSongMutex.Lock()
+	defer ss.newestSongMutex.Unlock()
+	if ss.newestSong == nil || ss.newestSong.FirstSampleOfSongIndex <= song.FirstSampleOfSongIndex {
+		ss.newestSong = song
 	}
 }
 
 func (ss *serverState) sendPauses(s comm.MessageSender) {
 	ss.pausesMutex.RLock()
-	for _, p := range ss.pauses {
+	pauses := append([]*comm.PauseInfo{}, ss.pauses...)
+	ss.pausesMutex.RUnlock()
+
+	for _, p := range pauses {
 		s.SendMessage(p)
 	}
-	ss.pausesMutex.RUnlock()
+}
+
+// addPause adds pause, keeping the pauses in the order of the stream (the handlers of pauses run concurrently)
+func (ss *serverState) addPause(pause *comm.PauseInfo) {
+	ss.pausesMutex.Lock()
+	defer ss.pausesMutex.Unlock()
+	i := len(ss.pauses)
+	for 0 < i && pause.ToggleSampleIndex < ss.pauses[i-1].ToggleSampleIndex {
+		i--
+	}
+	ss.pauses = append(ss.pauses, nil)
+	copy(ss.pauses[i+1:], ss.pauses[i:])
+	ss.pauses[i] = pause
 }
 
 func (ss *serverState) createClientHandler() func(comm.Channel, comm.MessageSender) {
@@ -102,7 +132,7 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 
 		md := ss.metadataProvider.CollectMetadata(filename)
 
-		ss.newestSong = &comm.NewSongInfo{
+		song := &comm.NewSongInfo{
 			FirstSampleOfSongIndex: startSampleIndex,
 			SongFileName:           filename,
 			SongLength:             songLength,
@@ -113,7 +143,8 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 				Album:  md.Album,
 			},
 		}
-		ss.sender.SendMessage(ss.newestSong)
+		ss.setNewestSong(song)
+		ss.sender.SendMessage(song)
 	}
 }
 
@@ -123,30 +154,30 @@ func (ss *serverState) createPauseToggleHandler() func(bool, uint64) {
 			Playing:           playing,
 			ToggleSampleIndex: sample,
 		}
-		go func(pause *comm.PauseInfo) {
-			ss.pausesMutex.Lock()
-			defer ss.pausesMutex.Unlock()
-			ss.pauses = append(ss.pauses, pause)
-			go ss.removeOldPauses()
-		}(pause)
+		ss.addPause(pause)
+		ss.removeOldPauses()
 		ss.sender.SendMessage(pause)
 	}
 }
 
 func (ss *serverState) removablePauses() int {
-	if ss.newestSong == nil {
+	newestSong := ss.getNewestSong()
+	if newestSong == nil {
 		return 0
 	}
 
-	ss.pausesMutex.Lock()
-	defer ss.pausesMutex.Unlock()
+	ss.pausesMutex.RLock()
+	defer ss.pausesMutex.RUnlock()
+	return removablePauses(ss.pauses, newestSong)
+}
 
+func removablePauses(pauses []*comm.PauseInfo, newestSong *comm.NewSongInfo) int {
 	passed := 0
-	for i, p := range ss.pauses {
-		inPast := ss.newestSong.FirstSampleOfSongIndex < p.ToggleSampleIndex
-		if !inPast && p.Playing {
+	for i, p := range pauses {
+		afterSongStart := newestSong.FirstSampleOfSongIndex < p.ToggleSampleIndex
+		if !afterSongStart && p.Playing {
 			passed = i
-		} else if inPast {
+		} else if afterSongStart {
 			break
 		}
 	}
@@ -154,11 +185,16 @@ func (ss *serverState) removablePauses() int {
 }
 
 func (ss *serverState) removeOldPauses() {
-	removable := ss.removablePauses()
-	if 0 < removable {
-		ss.pausesMutex.Lock()
-		defer ss.pausesMutex.Unlock()
+	newestSong := ss.getNewestSong()
+	if newestSong == nil {
+		return
+	}
 
+	ss.pausesMutex.Lock()
+	defer ss.pausesMutex.Unlock()
+
+	removable := removablePauses(ss.pauses, newestSong)
+	if 0 < removable {
 		copy(ss.pauses, ss.pauses[removable:])
 		for i := len(ss.pauses) - removable; i < len(ss.pauses); i++ {
 			ss.pauses[i] = nil
-- 
2.43.0


From bff8c438fba834644704fc725aad8d9b38861780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 20/57] fix: set the playlist's handlers before starting to
 stream

---
 schedule/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schedule/server.go b/schedule/server.go
index 1f8eabb..938daf7 100644
--- a/schedule/server.go
+++ b/schedule/server.go
@@ -23,11 +23,11 @@ func Server(sender comm.MessageSender) {
 
 	comm.SetNewClientHandler(ss.createClientHandler())
 
-	go ss.playlist.StreamLoop(context.Background())
-
 	ss.playlist.SetNewSongHandler(ss.createNewSongHandler())
 	ss.playlist.SetPauseToggleHandler(ss.createPauseToggleHandler())
 
+	go ss.playlist.StreamLoop(context.Background())
+
 	go ss.streamMusic()
 
 	ssh.RegisterCommand(ss.queueCommand())
-- 
2.43.0


From ec2b3b945c3c0c6842ac19fcc2f2380178cd18e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 21/57] fix: keep the order of songs queued at a position
 beyond either end

---
 schedule/server_state_commands.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 6eaebb9..10c990b 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -55,6 +55,13 @@ func (ss *serverState) queueCommandExec(args []string) (string, bool) {
 
 	var insert func(string, int)
 	if pos, ok := parseIntParam(args, 1); ok {
+		// clip the position of the first song, so that the others still end up after it
+		if n := len(ss.playlist.Songs()); n < pos {
+			pos = n
+		}
+		if pos < 0 {
+			pos = 0
+		}
 		insert = func(s string, i int) { ss.playlist.InsertSong(s, pos+i) }
 	} else {
 		insert = func(s string, _ int) { ss.playlist.AddSong(s) }
-- 
2.43.0


From f1d4f0fa99bfe6d3d97bdf6e0edd7a0f34792859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 22/57] fix: announce songs with names or tags which are not
 valid UTF-8

---
 schedule/server_state.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 9f1c5cd..8cd4b03 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -5,6 +5,7 @@ import (
 	"github.com/LogicalOverflow/music-sync/metadata"
 	"github.com/LogicalOverflow/music-sync/playback"
 	"github.com/LogicalOverflow/music-sync/timing"
+	"strings"
 	"sync"
 	"time"
 )
@@ -110,6 +111,11 @@ func (ss *serverState) createClientHandler() func(comm.Channel, comm.MessageSend
 	}
 }
 
+// toWireString makes s valid UTF-8, since messages with strings which are not can not be sent
+func toWireString(s string) string {
+	return strings.ToValidUTF8(s, "\uFFFD")
+}
+
 func toWireLyrics(lyrics []metadata.LyricsLine) []*comm.NewSongInfo_SongLyricsLine {
 	wireLyrics := make([]*comm.NewSongInfo_SongLyricsLine, len(lyrics))
 	for i, l := range lyrics {
@@ -117,7 +123,7 @@ func toWireLyrics(lyrics []metadata.LyricsLine) []*comm.NewSongInfo_SongLyricsLi
 		for j, a := range l {
 			wireLine[j] = &comm.NewSongInfo_SongLyricsAtom{
 				Timestamp: a.Timestamp,
-				Caption:   a.Caption,
+				Caption:   toWireString(a.Caption),
 			}
 		}
 		wireLyrics[i] = &comm.NewSongInfo_SongLyricsLine{Atoms: wireLine}
@@ -134,13 +140,13 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 
 		song := &comm.NewSongInfo{
 			FirstSampleOfSongIndex: startSampleIndex,
-			SongFileName:           filename,
+			SongFileName:           toWireString(filename),
 			SongLength:             songLength,
 			Lyrics:                 wireLyrics,
 			Metadata: &comm.NewSongInfo_SongMetadata{
-				Title:  md.Title,
-				Artist: md.Artist,
-				Album:  md.Album,
+				Title:  toWireString(md.Title),
+				Artist: toWireString(md.Artist),
+				Album:  toWireString(md.Album),
 			},
 		}
 		ss.setNewestSong(song)
-- 
2.43.0


From d544b4c34170c1b7b5a38835007740513a86c601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 23/57] fix: synchronize the time offset

---
 timing/timing.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/timing/timing.go b/timing/timing.go
index 6ac7ec1..0bc2c9e 100644
--- a/timing/timing.go
+++ b/timing/timing.go
@@ -12,10 +12,12 @@ var logger = log.GetLogger("time")
 
 var offset int64
 var offsets = make([]int64, 0)
-var offsetsMutex sync.Mutex
+var offsetsMutex sync.RWMutex
 
 // GetSyncedTime returns the current time, sync to the sever, with nanosecond precision
 func GetSyncedTime() int64 {
+	offsetsMutex.RLock()
+	defer offsetsMutex.RUnlock()
 	return int64(monotime.Now()) + offset
 }
 
@@ -37,18 +39,16 @@ func UpdateOffset(clientSend, serverRecv, serverSend, clientRecv int64) {
 
 	calcOffset := ((serverRecv - clientSend) + (serverSend - clientRecv)) / 2
 	offsetsMutex.Lock()
+	defer offsetsMutex.Unlock()
 	offsets = append(offsets, calcOffset)
-	offsetsMutex.Unlock()
 
 	if len(offsets) == cap(offsets) {
-		offsetsMutex.Lock()
 		avg := big.NewInt(0)
 		for _, o := range offsets {
 			avg = new(big.Int).Add(avg, big.NewInt(o))
 		}
 		avg = new(big.Int).Div(avg, big.NewInt(int64(len(offsets))))
 		offset = avg.Int64()
-		offsetsMutex.Unlock()
 		logger.Infof("time synced: offset: %d", offset)
 	}
 }
-- 
2.43.0


From 45a3b495e3e25d7bb597d0553651b6479ec1fc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 24/57] fix: list files relative to the music directory however
 it is written

Paths like ./audio were not removed from the listed files, and the first dot of
hidden files was lost when listing the current directory.
---
 util/file_utils.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index f8b27c7..723baa4 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -34,14 +34,16 @@ func walker(root string, pathTransform func(string) string, pathFilter func(stri
 	return walked
 }
 
+// removeDirPrefix returns path relative to the directory prefix
 func removeDirPrefix(path string, prefix string) string {
-	if strings.HasPrefix(path, prefix) {
-		path = path[len(prefix):]
+	rel, err := filepath.Rel(prefix, path)
+	if err != nil {
+		return path
 	}
-	if strings.HasPrefix(path, "/") || strings.HasPrefix(path, "\\") {
-		path = path[1:]
+	if rel == "." {
+		return ""
 	}
-	return path
+	return rel
 }
 
 // ListAllFiles recursively lists all files in songsDir/subDir
-- 
2.43.0


From 4e78eab1411a5e8bde5d19b79747ee9bde00aa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 25/57] fix: list the music directory if it is a link or partly
 inaccessible

---
 util/file_utils.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index 723baa4..601f1a0 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -21,11 +21,15 @@ func FilterSongs(files []string) []string {
 
 func walker(root string, pathTransform func(string) string, pathFilter func(string, os.FileInfo) bool) []string {
 	walked := make([]string, 0)
-	filepath.Walk(root, func(path string, f os.FileInfo, err error) error {
+	resolved, err := filepath.EvalSymlinks(root) // a root which is a link would not be walked into
+	if err != nil {
+		return walked
+	}
+	filepath.Walk(resolved, func(path string, f os.FileInfo, err error) error {
 		if err != nil {
-			return err
+			return nil // skip what can not be accessed, but list the rest
 		}
-		path = pathTransform(path)
+		path = pathTransform(filepath.Join(root, removeDirPrefix(path, resolved)))
 		if pathFilter(path, f) {
 			walked = append(walked, path)
 		}
-- 
2.43.0


From 7974ff35df735fd6ac8fdba0955591464a37b580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 26/57] fix: do not treat the name of the music directory as a
 glob pattern

---
 util/file_utils.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index 601f1a0..de05166 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -73,9 +73,17 @@ func ListAllSubDirs(dir string) []string {
 	})
 }
 
+// escapeGlob escapes everything in path which has a special meaning in glob patterns
+func escapeGlob(path string) string {
+	if os.PathSeparator == '\\' {
+		return path // there is no escaping if the backslash is the path separator
+	}
+	return strings.NewReplacer("\\", "\\\\", "*", "\\*", "?", "\\?", "[", "\\[").Replace(path)
+}
+
 // ListGlobFiles lists all files in a directory matching the provided glob pattern
 func ListGlobFiles(dir, pattern string) ([]string, error) {
-	matches, err := filepath.Glob(filepath.Join(dir, pattern))
+	matches, err := filepath.Glob(filepath.Join(escapeGlob(dir), pattern))
 	if err != nil {
 		return []string{}, err
 	}
-- 
2.43.0


From 752c00052367a2cf59bf54cf4d5b6eb26bf33433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 27/57] fix: queue songs whose name is not matched by itself as
 a glob pattern

---
 schedule/server_state_commands.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 10c990b..e425396 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -5,6 +5,7 @@ import (
 	"github.com/LogicalOverflow/music-sync/playback"
 	"github.com/LogicalOverflow/music-sync/ssh"
 	"github.com/LogicalOverflow/music-sync/util"
+	"path/filepath"
 	"strconv"
 	"strings"
 )
@@ -38,13 +39,24 @@ func parseIntParam(args []string, index int) (int, bool) {
 	return v, true
 }
 
+// listSongs lists all files matching the pattern. The name of a file which does not match itself as a pattern
+// (like song[1].mp3) means just this file.
+func listSongs(pattern string) ([]string, error) {
+	if match, err := filepath.Match(pattern, pattern); err != nil || !match {
+		if util.IsFile(filepath.Join(playback.AudioDir, pattern)) {
+			return []string{filepath.Clean(pattern)}, nil
+		}
+	}
+	return util.ListGlobFiles(playback.AudioDir, pattern)
+}
+
 func (ss *serverState) queueCommandExec(args []string) (string, bool) {
 	songPattern, ok := parseStringParam(args, 0)
 	if !ok {
 		return "", false
 	}
 
-	songs, err := util.ListGlobFiles(playback.AudioDir, songPattern)
+	songs, err := listSongs(songPattern)
 	if err != nil {
 		return fmt.Sprintf("glob pattern is invalid: %v", err), true
 	}
-- 
2.43.0


From 496a06cbd9a5f61a3aafafa1c3e269fc634c600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 28/57] fix: parse words with characters beyond ASCII,
 backslashes and surrounding spaces

Parsing kept only the last byte of every character and trimmed parameters,
unparsing did not escape backslashes.
---
 ssh/parser/parser.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index 0fe4056..ab1a038 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -24,14 +24,21 @@ type ParsedCommand struct {
 // Unparse converts a parsed command back to a shell command
 func (c ParsedCommand) Unparse() string {
 	if len(c.Parameters) == 0 {
-		return strings.Replace(c.Command, " ", "\\ ", -1) + " "
+		return Escape(c.Command) + " "
 	}
 	unparsedParams := make([]string, len(c.Parameters))
 	for i, p := range c.Parameters {
-		unparsedParams[i] = strings.Replace(p, " ", "\\ ", -1)
+		unparsedParams[i] = Escape(p)
 	}
 
-	return strings.Replace(c.Command, " ", "\\ ", -1) + " " + strings.Join(unparsedParams, " ") + " "
+	return Escape(c.Command) + " " + strings.Join(unparsedParams, " ") + " "
+}
+
+var escaper = strings.NewReplacer("\\", "\\\\", " ", "\\ ")
+
+// Escape escapes s, such that it is parsed as (part of) a single word
+func Escape(s string) string {
+	return escaper.Replace(s)
 }
 
 // ParseCommand parses an ssh command
@@ -62,8 +69,8 @@ func (s *shellListener) EnterCommandString(ctx *shell_parser.CommandStringContex
 }
 
 func (s *shellListener) ExitCharacter(ctx *shell_parser.CharacterContext) {
-	if len(ctx.GetText()) != 0 {
-		s.currentString += string(ctx.GetText()[len(ctx.GetText())-1])
+	if text := []rune(ctx.GetText()); len(text) != 0 {
+		s.currentString += string(text[len(text)-1])
 	}
 }
 
@@ -92,7 +99,4 @@ func (s *shellListener) ExitParameter(ctx *shell_parser.ParameterContext) {
 
 func (s *shellListener) ExitLine(ctx *shell_parser.LineContext) {
 	s.cmd.Command = strings.TrimSpace(s.cmd.Command)
-	for i := range s.cmd.Parameters {
-		s.cmd.Parameters[i] = strings.TrimSpace(s.cmd.Parameters[i])
-	}
 }
-- 
2.43.0


From 9990f39c009471d52c5340e42e442ca36dfd06dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 29/57] fix: do not parse commands concurrently

---
 ssh/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index ab1a038..4ae9f97 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -5,6 +5,7 @@ import (
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 	"reflect"
 	"strings"
+	"sync"
 )
 
 func getParser(line string) *shell_parser.ShellParser {
@@ -41,8 +42,13 @@ func Escape(s string) string {
 	return escaper.Replace(s)
 }
 
+// parseMutex guards the parser, which has caches shared by all of its instances
+var parseMutex sync.Mutex
+
 // ParseCommand parses an ssh command
 func ParseCommand(line string) ParsedCommand {
+	parseMutex.Lock()
+	defer parseMutex.Unlock()
 	p := getParser(line)
 	tree := p.Line()
 	listener := newShellListener()
-- 
2.43.0


From 2a2a3d6718b94df5e931c5917783f5b0fa18b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 30/57] fix: synchronize the registered commands

---
 ssh/auto_completer.go |  2 +-
 ssh/command.go        | 21 ++++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/ssh/auto_completer.go b/ssh/auto_completer.go
index 24519a8..5ff1604 100644
--- a/ssh/auto_completer.go
+++ b/ssh/auto_completer.go
@@ -32,7 +32,7 @@ func (sac *sshAutoCompleter) Do(line []rune, pos int) (newLine [][]rune, length
 
 func (sac *sshAutoCompleter) commandNames() []string {
 	cs := []string{"clear", "exit"}
-	for _, c := range commands {
+	for _, c := range registeredCommands() {
 		cs = append(cs, c.Name)
 	}
 	return cs
diff --git a/ssh/command.go b/ssh/command.go
index 93b1ca3..56c5b55 100644
--- a/ssh/command.go
+++ b/ssh/command.go
@@ -8,9 +8,11 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
+	"sync"
 )
 
 var commands = make([]Command, 0)
+var commandsMutex sync.RWMutex
 
 type commandsByName []Command
 
@@ -20,10 +22,19 @@ func (c commandsByName) Swap(i int, j int)      { c[i], c[j] = c[j], c[i] }
 
 // RegisterCommand registers a command to allow its use from ssh control interface
 func RegisterCommand(c Command) {
+	commandsMutex.Lock()
+	defer commandsMutex.Unlock()
 	commands = append(commands, c)
 	sort.Sort(commandsByName(commands))
 }
 
+// registeredCommands returns all commands registered
+func registeredCommands() []Command {
+	commandsMutex.RLock()
+	defer commandsMutex.RUnlock()
+	return append([]Command{}, commands...)
+}
+
 // Command describes a ssh command
 type Command struct {
 	Name  string // Name is the name of the command, which is used to access it from the terminal
@@ -63,7 +74,7 @@ func (command Command) usage() string {
 }
 
 func commandByName(name string) *Command {
-	for _, c := range commands {
+	for _, c := range registeredCommands() {
 		if c.Name == name {
 			return &c
 		}
@@ -77,8 +88,8 @@ var helpCommand = Command{
 	Info:  "retrieves help for a command",
 	ExecFunc: func(args []string) (string, bool) {
 		if len(args) == 0 {
-			usages := make([]string, 0, len(commands))
-			for _, c := range commands {
+			usages := make([]string, 0)
+			for _, c := range registeredCommands() {
 				usages = append(usages, fmt.Sprintf("%-15s %s", c.Name, c.Info))
 			}
 			usages = append(usages,
@@ -90,7 +101,7 @@ var helpCommand = Command{
 		}
 
 		var target *Command
-		for _, c := range commands {
+		for _, c := range registeredCommands() {
 			if c.Name == args[0] {
 				target = &Command{}
 				*target = c
@@ -113,7 +124,7 @@ var helpCommand = Command{
 			return []string{}
 		}
 		options := []string{"clear", "exit"}
-		for _, c := range commands {
+		for _, c := range registeredCommands() {
 			if strings.HasPrefix(c.Name, prefix) {
 				options = append(options, c.Name)
 			}
-- 
2.43.0


From f5092d7d0e0c9e27c3102ca3329b7726c790c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 31/57] fix: complete the word at the cursor, however the line
 before it is written

Completing lines with additional spaces, escapes or characters beyond ASCII
panicked or returned the wrong part of the options.
---
 ssh/auto_completer.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/ssh/auto_completer.go b/ssh/auto_completer.go
index 5ff1604..bc2ac43 100644
--- a/ssh/auto_completer.go
+++ b/ssh/auto_completer.go
@@ -9,27 +9,45 @@ type sshAutoCompleter struct{}
 
 func (sac *sshAutoCompleter) Do(line []rune, pos int) (newLine [][]rune, length int) {
 	newLine = make([][]rune, 0)
-
-	lastChar := '\x00'
-	if len(line) != 0 {
-		lastChar = line[len(line)-1]
-	}
+	line = line[:pos] // what follows the cursor does not matter
 
 	cmd := parser.ParseCommand(string(line))
-	if lastChar == ' ' {
+	if endsWord(line) {
 		cmd.Parameters = append(cmd.Parameters, "")
 	}
 
-	if len(cmd.Parameters) == 0 && lastChar != ' ' {
+	if len(cmd.Parameters) == 0 {
 		newLine = sac.commandsWithPrefix(cmd, pos, newLine)
 	} else {
 		newLine = sac.commandArgOptionsWithPrefix(cmd, pos, newLine)
 	}
 
+	if trailingEscapes(line)%2 == 1 {
+		// the last backslash must not escape what is added after it
+		for i := range newLine {
+			newLine[i] = append([]rune{'\\'}, newLine[i]...)
+		}
+	}
+
 	length = pos
 	return
 }
 
+// endsWord returns whether line ends with a space, which is not escaped
+func endsWord(line []rune) bool {
+	last := len(line) - 1
+	return 0 <= last && line[last] == ' ' && trailingEscapes(line[:last])%2 == 0
+}
+
+// trailingEscapes returns the number of backslashes line ends with
+func trailingEscapes(line []rune) int {
+	n := 0
+	for n < len(line) && line[len(line)-1-n] == '\\' {
+		n++
+	}
+	return n
+}
+
 func (sac *sshAutoCompleter) commandNames() []string {
 	cs := []string{"clear", "exit"}
 	for _, c := range registeredCommands() {
@@ -41,7 +59,7 @@ func (sac *sshAutoCompleter) commandNames() []string {
 func (sac *sshAutoCompleter) commandsWithPrefix(cmd parser.ParsedCommand, pos int, result [][]rune) [][]rune {
 	for _, c := range sac.commandNames() {
 		if strings.HasPrefix(c, cmd.Command) {
-			result = append(result, []rune((c + " ")[pos:]))
+			result = append(result, []rune(parser.Escape(c[len(cmd.Command):])+" "))
 		}
 	}
 	return result
@@ -53,10 +71,8 @@ func (sac *sshAutoCompleter) commandArgOptionsWithPrefix(cmd parser.ParsedComman
 		argNum := len(cmd.Parameters) - 1
 		arg := cmd.Parameters[argNum]
 		for _, o := range sac.filterByPrefix(c.Options(arg, argNum), arg) {
-			cmd.Parameters[argNum] = o
-			result = append(result, []rune(cmd.Unparse())[pos:])
+			result = append(result, []rune(parser.Escape(o[len(arg):])+" "))
 		}
-		cmd.Parameters[argNum] = arg
 	}
 	return result
 }
-- 
2.43.0


From f2f7f31c7e9966e5b26a41d70f4e2f81df2376d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 32/57] fix: synchronize the size of a session's terminal

---
 ssh/session_handler.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index d6e539c..0ed73b1 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -7,6 +7,7 @@ import (
 	"github.com/gliderlabs/ssh"
 	"io"
 	"strings"
+	"sync"
 )
 
 type session struct {
@@ -15,6 +16,19 @@ type session struct {
 	ex  *readline.Instance
 
 	width, height int
+	sizeMutex     sync.RWMutex
+}
+
+func (s *session) setSize(width, height int) {
+	s.sizeMutex.Lock()
+	defer s.sizeMutex.Unlock()
+	s.width, s.height = width, height
+}
+
+func (s *session) getWidth() int {
+	s.sizeMutex.RLock()
+	defer s.sizeMutex.RUnlock()
+	return s.width
 }
 
 func (s *session) preparePty() bool {
@@ -24,10 +38,10 @@ func (s *session) preparePty() bool {
 		return false
 	}
 
-	s.width, s.height = pty.Window.Width, pty.Window.Height
+	s.setSize(pty.Window.Width, pty.Window.Height)
 	go func() {
 		for w := range resize {
-			s.width, s.height = w.Width, w.Height
+			s.setSize(w.Width, w.Height)
 		}
 	}()
 
@@ -66,7 +80,7 @@ func (s *session) createReadlineConfig() {
 		InterruptPrompt: "^C",
 		EOFPrompt:       "exit",
 
-		FuncGetWidth: func() int { return s.width },
+		FuncGetWidth: s.getWidth,
 
 		Stdin:       s,
 		Stdout:      s,
-- 
2.43.0


From 159462738802eb76c796d68d42efe2949c951399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 33/57] fix: make the logging flags change the level of their
 logger

---
 cmd/flags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/flags.go b/cmd/flags.go
index 81bc75d..e6cda91 100644
--- a/cmd/flags.go
+++ b/cmd/flags.go
@@ -73,7 +73,7 @@ func newLoggingFlag(name string) LoggingFlag {
 	return LoggingFlag{StringFlag: cli.StringFlag{
 		Name:  fmt.Sprintf("%s-logging", name),
 		Usage: fmt.Sprintf("sets %s logging level (values: %s)", name, levels),
-	}}
+	}, logName: name}
 }
 
 // HandleLoggingFlags sets the log levels according to the logging cli flags
@@ -82,7 +82,7 @@ func HandleLoggingFlags(ctx *cli.Context) {
 		levelName := ctx.String(FlagKey(f))
 		if levelName != "" {
 			level := log.LevelByName(levelName)
-			log.CutoffLevels[f.Name] = level
+			log.CutoffLevels[f.logName] = level
 		}
 	}
 	defaultLevelName := ctx.String("logging")
-- 
2.43.0


From 95af74b04aeb2c2b6c34d484314360f4932e21b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 34/57] fix: exit the infoer if it can not connect to the
 server

---
 cmd/music-sync-infoer/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/main.go b/cmd/music-sync-infoer/main.go
index 32f37a4..0047fe7 100644
--- a/cmd/music-sync-infoer/main.go
+++ b/cmd/music-sync-infoer/main.go
@@ -53,7 +53,8 @@ func run(ctx *cli.Context) error {
 	server := fmt.Sprintf("%s:%d", serverAddress, serverPort)
 	sender, err := comm.ConnectToServer(server, newInfoerPackageHandler())
 	if err != nil {
-		cli.NewExitError(err, 1)
+		s.Fini()
+		return cli.NewExitError(err, 1)
 	}
 
 	go schedule.Infoer(sender)
-- 
2.43.0


From a0f3743308df2413c86c6f3655465fda71b727fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 35/57] fix: synchronize the infoer's volume, size and main
 loop

---
 cmd/music-sync-infoer/drawing.go               |  1 -
 .../infoer_package_handler.go                  |  2 ++
 cmd/music-sync-infoer/main.go                  | 18 +++++++++++-------
 cmd/music-sync-infoer/state.go                 | 11 +++++++++--
 4 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index 7dbd956..2eb928f 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -21,7 +21,6 @@ func (d *drawer) eventLoop() {
 			}
 		case *tcell.EventResize:
 			d.Sync()
-			d.w, d.h = d.Size()
 		default:
 			panic(fmt.Sprintf("%T", ev))
 		}
diff --git a/cmd/music-sync-infoer/infoer_package_handler.go b/cmd/music-sync-infoer/infoer_package_handler.go
index 253ee22..6a86009 100644
--- a/cmd/music-sync-infoer/infoer_package_handler.go
+++ b/cmd/music-sync-infoer/infoer_package_handler.go
@@ -68,6 +68,8 @@ func (i *infoerPackageHandler) HandlePauseInfo(pauseInfo *comm.PauseInfo, _ net.
 }
 
 func (i *infoerPackageHandler) HandleSetVolumeRequest(svr *comm.SetVolumeRequest, _ net.Conn) {
+	currentState.VolumeMutex.Lock()
+	defer currentState.VolumeMutex.Unlock()
 	currentState.Volume = svr.Volume
 }
 
diff --git a/cmd/music-sync-infoer/main.go b/cmd/music-sync-infoer/main.go
index 0047fe7..2ee336f 100644
--- a/cmd/music-sync-infoer/main.go
+++ b/cmd/music-sync-infoer/main.go
@@ -91,25 +91,29 @@ func fmtDuration(duration time.Duration) string {
 
 func tcellLoop(screen tcell.Screen) {
 	d := &drawer{Screen: screen}
-	d.w, d.h = d.Size()
 
-	running := true
+	stopped := make(chan struct{})
 	go func() {
+		defer close(stopped)
 		d.eventLoop()
-		running = false
 	}()
 
-	for range time.Tick(200 * time.Millisecond) {
-		if !running {
-			break
+	ticker := time.NewTicker(200 * time.Millisecond)
+	defer ticker.Stop()
+	for running := true; running; {
+		select {
+		case <-stopped:
+			running = false
+		case <-ticker.C:
+			redraw(d)
 		}
-		redraw(d)
 	}
 
 	screen.Fini()
 }
 
 func redraw(d *drawer) {
+	d.w, d.h = d.Size()
 	d.Clear()
 
 	info := currentState.Info(timing.GetSyncedTime())
diff --git a/cmd/music-sync-infoer/state.go b/cmd/music-sync-infoer/state.go
index cba440d..1e26a39 100644
--- a/cmd/music-sync-infoer/state.go
+++ b/cmd/music-sync-infoer/state.go
@@ -17,7 +17,8 @@ type state struct {
 	Pauses      []pauseToggle
 	PausesMutex sync.RWMutex
 
-	Volume float64
+	Volume      float64
+	VolumeMutex sync.RWMutex
 }
 
 type pauseByToggleIndex []pauseToggle
@@ -62,12 +63,18 @@ func (s *state) Info(now int64) *playbackInformation {
 		PausesInCurrentSong: pausesInCurrentSong,
 		Now:                 now,
 		Playing:             playing,
-		Volume:              s.Volume,
+		Volume:              s.volume(),
 		SongLength:          songLength,
 		TimeInSong:          timeInSong,
 		ProgressInSong:      progressInSong}
 }
 
+func (s *state) volume() float64 {
+	s.VolumeMutex.RLock()
+	defer s.VolumeMutex.RUnlock()
+	return s.Volume
+}
+
 type pausesInCurrentSongState struct {
 	playing             bool
 	pausesInCurrentSong int64
-- 
2.43.0


From 149e9f361ae98b71fefe68a85bc883cb21587a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 36/57] fix: ignore pauses after samples before the first chunk

---
 cmd/music-sync-infoer/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/state.go b/cmd/music-sync-infoer/state.go
index 1e26a39..9dedad5 100644
--- a/cmd/music-sync-infoer/state.go
+++ b/cmd/music-sync-infoer/state.go
@@ -82,7 +82,7 @@ type pausesInCurrentSongState struct {
 }
 
 func (picss *pausesInCurrentSongState) handlePause(sample int64, p pauseToggle, startIndex uint64) {
-	if uint64(sample) <= p.toggleIndex || picss.playing == p.playing {
+	if sample <= int64(p.toggleIndex) || picss.playing == p.playing {
 		return
 	}
 
-- 
2.43.0


From 6a3cb60edc5856b7a4db066ecf7451137099b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 37/57] fix: draw strings with characters beyond ASCII without
 gaps

---
 cmd/music-sync-infoer/drawing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index 2eb928f..cd0384c 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -28,7 +28,7 @@ func (d *drawer) eventLoop() {
 }
 
 func (d *drawer) drawString(x, y int, style tcell.Style, str string) {
-	for i, r := range str {
+	for i, r := range []rune(str) {
 		d.SetContent(x+i, y, r, nil, style)
 	}
 }
-- 
2.43.0


From f6e0557c30c925d9d0df76d8604ad3b641db2889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 38/57] fix: reject packages nested too deep instead of
 overflowing the stack

---
 comm/package_util.go | 66 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 64 insertions(+), 2 deletions(-)

diff --git a/comm/package_util.go b/comm/package_util.go
index 3600621..47203a7 100644
--- a/comm/package_util.go
+++ b/comm/package_util.go
@@ -17,6 +17,9 @@ const zlibLevel = 5
 // maxPackageSize is the maximum size of a package (before and after decompressing it) in bytes
 const maxPackageSize = 1 << 28
 
+// maxNesting is the maximum depth of messages inside of messages
+const maxNesting = 100
+
 func channelOf(m proto.Message) ([]Channel, bool) {
 	switch m.(type) {
 	case *QueueChunkRequest:
@@ -73,7 +76,7 @@ func readWire(conn net.Conn) (proto.Message, error) {
 	}
 
 	envelope := &Envelope{}
-	if err := proto.Unmarshal(env, envelope); err != nil {
+	if err := unmarshal(env, envelope); err != nil {
 		return nil, fmt.Errorf("failed to unmarshal envelope protobuf: %v", err)
 	}
 
@@ -88,12 +91,71 @@ func readWire(conn net.Conn) (proto.Message, error) {
 		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
 	}
 
-	if err := proto.Unmarshal(data, m); err != nil {
+	if err := unmarshal(data, m); err != nil {
 		return nil, fmt.Errorf("failed to unmarshal inner protobuf (%s): %v", envelope.Type, err)
 	}
 	return m, nil
 }
 
+// unmarshal unmarshals data, unless it is nested too deep: proto.Unmarshal recurses without any limit
+func unmarshal(data []byte, m proto.Message) error {
+	if err := checkNesting(data, reflect.TypeOf(m).Elem(), 0); err != nil {
+		return err
+	}
+	return proto.Unmarshal(data, m)
+}
+
+// checkNesting returns an error if data, which is a message of type t, contains a group or is nested too deep
+func checkNesting(data []byte, t reflect.Type, depth int) error {
+	if maxNesting < depth {
+		return fmt.Errorf("messages are nested too deep")
+	}
+	buf := proto.NewBuffer(data)
+	for 0 < len(buf.Unread()) {
+		key, err := buf.DecodeVarint()
+		if err != nil {
+			return err
+		}
+		switch key & 7 {
+		case proto.WireVarint:
+			_, err = buf.DecodeVarint()
+		case proto.WireFixed64:
+			_, err = buf.DecodeFixed64()
+		case proto.WireFixed32:
+			_, err = buf.DecodeFixed32()
+		case proto.WireBytes:
+			var inner []byte
+			inner, err = buf.DecodeRawBytes(false)
+			if fieldType := messageField(t, int(key>>3)); err == nil && fieldType != nil {
+				err = checkNesting(inner, fieldType, depth+1)
+			}
+		default:
+			err = fmt.Errorf("unsupported wire type: %d", key&7)
+		}
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// messageField returns the type of the message(s) in the field number of messages of type t (nil if there are none)
+func messageField(t reflect.Type, number int) reflect.Type {
+	for i, p := range proto.GetProperties(t).Prop {
+		if p.Tag != number || p.Wire != "bytes" || t.NumField() <= i {
+			continue
+		}
+		fieldType := t.Field(i).Type
+		if fieldType.Kind() == reflect.Slice {
+			fieldType = fieldType.Elem()
+		}
+		if fieldType.Kind() == reflect.Ptr && fieldType.Elem().Kind() == reflect.Struct {
+			return fieldType.Elem()
+		}
+	}
+	return nil
+}
+
 func decompress(compressed []byte) ([]byte, error) {
 	r, err := zlib.NewReader(bytes.NewReader(compressed))
 	if err != nil {
-- 
2.43.0


From 7650314e39d614b47a57a576178e2728bfc2949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 39/57] fix: do not crash on malformed tags the tag reader
 panics on

---
 metadata/metadata_provider.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata_provider.go b/metadata/metadata_provider.go
index 2edab97..0e7284c 100644
--- a/metadata/metadata_provider.go
+++ b/metadata/metadata_provider.go
@@ -27,7 +27,14 @@ func GetProvider() Provider {
 
 type basicProvider struct{}
 
-func (basicProvider) CollectMetadata(song string) SongMetadata {
+func (basicProvider) CollectMetadata(song string) (metadata SongMetadata) {
+	// there are malformed tags the tag reader panics on
+	defer func() {
+		if r := recover(); r != nil {
+			metadata = SongMetadata{}
+		}
+	}()
+
 	path := filepath.Join(playback.AudioDir, song)
 	if !util.IsFile(path) {
 		return SongMetadata{}
-- 
2.43.0


From 64103b6a685d382d1ce7097ced38fcf04f77754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 40/57] fix: end songs at malformed frames the mp3 decoder
 panics on instead of crashing

---
 playback/playback.go | 24 +++++++++++++++++++++++-
 playback/playlist.go |  2 +-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/playback/playback.go b/playback/playback.go
index e3f8b6a..ecd5e8b 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -43,7 +43,7 @@ func getStreamer(filename string) (beep.StreamSeekCloser, error) {
 		return nil, fmt.Errorf("failed to open file %s: %v", filename, err)
 	}
 
-	s, _, err := mp3.Decode(f)
+	s, err := decodeMp3(f)
 	if err != nil {
 		f.Close()
 		return nil, fmt.Errorf("failed to decode file %s: %v", filename, err)
@@ -52,6 +52,28 @@ func getStreamer(filename string) (beep.StreamSeekCloser, error) {
 	return s, nil
 }
 
+// decodeMp3 decodes f, reporting files the decoder panics on as malformed
+func decodeMp3(f *os.File) (s beep.StreamSeekCloser, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			s, err = nil, fmt.Errorf("malformed file: %v", r)
+		}
+	}()
+	s, _, err = mp3.Decode(f)
+	return
+}
+
+// streamSong streams from s, ending the song at malformed frames the decoder panics on
+func streamSong(s beep.Streamer, samples [][2]float64) (n int, ok bool) {
+	defer func() {
+		if r := recover(); r != nil {
+			logger.Warnf("ending song early: malformed file: %v", r)
+			n, ok = 0, false
+		}
+	}()
+	return s.Stream(samples)
+}
+
 // QueueChunk queue a chunk for playback
 func QueueChunk(startTime int64, chunkID int64, samples [][2]float64) {
 	streamerMutex.RLock()
diff --git a/playback/playlist.go b/playback/playlist.go
index 0c5ff19..dd62f8e 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -92,7 +92,7 @@ func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 	for {
 		n, ok := streamerBufferSize, true
 		if pl.callPauseToggleHandler() {
-			n, ok = s.Stream(buf)
+			n, ok = streamSong(s, buf)
 			pl.pushBuffer(buf[:n])
 		} else {
 			pl.pushNanSamples(streamerBufferSize)
-- 
2.43.0


From f2e28ef5b33468999df3a9b55766bf5a23f8999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:26 +0000
Subject: [PATCH 41/57] fix: keep spaces around escaped command words when
 parsing

---
 ssh/parser/parser.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index 4ae9f97..8b02f71 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -102,7 +102,3 @@ func (s *shellListener) ExitParameter(ctx *shell_parser.ParameterContext) {
 		s.cmd.Parameters = append(s.cmd.Parameters, str)
 	}
 }
-
-func (s *shellListener) ExitLine(ctx *shell_parser.LineContext) {
-	s.cmd.Command = strings.TrimSpace(s.cmd.Command)
-}
-- 
2.43.0


From 1b727d45b1b6e85e664b932149aa4c19c7a525cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 42/57] fix: queue the songs matching a pattern as one block

---
 playback/playlist.go              | 22 +++++++++++++++++-----
 schedule/server_state_commands.go | 16 ++--------------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index dd62f8e..5e1a62b 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -208,21 +208,33 @@ func (pl *Playlist) AddSong(song string) {
 	pl.songs = append(pl.songs, song)
 }
 
+// AddSongs adds songs to the end of the playlist, without any other songs in between.
+func (pl *Playlist) AddSongs(songs []string) {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	pl.songs = append(pl.songs, songs...)
+}
+
 // InsertSong inserts a song into the playlist.
 // The index is clipped to the bounds of the playlist.
 func (pl *Playlist) InsertSong(song string, index int) {
+	pl.InsertSongs([]string{song}, index)
+}
+
+// InsertSongs inserts songs into the playlist in order, without any other songs in between.
+// The index of the first song is clipped to the bounds of the playlist.
+func (pl *Playlist) InsertSongs(songs []string, index int) {
 	pl.songsMutex.Lock()
 	defer pl.songsMutex.Unlock()
 	if index < 0 {
 		index = 0
 	}
 	if len(pl.songs) < index {
-		pl.songs = append(pl.songs, song)
-	} else {
-		pl.songs = append(pl.songs, "")
-		copy(pl.songs[index+1:], pl.songs[index:])
-		pl.songs[index] = song
+		index = len(pl.songs)
 	}
+	pl.songs = append(pl.songs, songs...)
+	copy(pl.songs[index+len(songs):], pl.songs[index:])
+	copy(pl.songs[index:], songs)
 }
 
 // RemoveSong remove the song at index from the playlist and returns the removed song.
diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index e425396..752a1db 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -65,22 +65,10 @@ func (ss *serverState) queueCommandExec(args []string) (string, bool) {
 		return fmt.Sprintf("no song matches the glob pattern %s", songPattern), true
 	}
 
-	var insert func(string, int)
 	if pos, ok := parseIntParam(args, 1); ok {
-		// clip the position of the first song, so that the others still end up after it
-		if n := len(ss.playlist.Songs()); n < pos {
-			pos = n
-		}
-		if pos < 0 {
-			pos = 0
-		}
-		insert = func(s string, i int) { ss.playlist.InsertSong(s, pos+i) }
+		ss.playlist.InsertSongs(songs, pos)
 	} else {
-		insert = func(s string, _ int) { ss.playlist.AddSong(s) }
-	}
-
-	for i, s := range songs {
-		insert(s, i)
+		ss.playlist.AddSongs(songs)
 	}
 	return fmt.Sprintf("%d song(s) added to playlist: %s", len(songs), strings.Join(songs, ", ")), true
 }
-- 
2.43.0


From 17a079112c3f1740bfab2824b11795082d3a0b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 43/57] fix: queue songs in directories whose name is no valid
 pattern

---
 schedule/server_state_commands.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 752a1db..0c31a59 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -42,12 +42,17 @@ func parseIntParam(args []string, index int) (int, bool) {
 // listSongs lists all files matching the pattern. The name of a file which does not match itself as a pattern
 // (like song[1].mp3) means just this file.
 func listSongs(pattern string) ([]string, error) {
-	if match, err := filepath.Match(pattern, pattern); err != nil || !match {
-		if util.IsFile(filepath.Join(playback.AudioDir, pattern)) {
-			return []string{filepath.Clean(pattern)}, nil
+	songs, err := util.ListGlobFiles(playback.AudioDir, pattern)
+	name := filepath.Clean(pattern)
+	for _, song := range songs {
+		if song == name {
+			return songs, err
 		}
 	}
-	return util.ListGlobFiles(playback.AudioDir, pattern)
+	if util.IsFile(filepath.Join(playback.AudioDir, pattern)) {
+		return []string{name}, nil
+	}
+	return songs, err
 }
 
 func (ss *serverState) queueCommandExec(args []string) (string, bool) {
-- 
2.43.0


From 8d5126b8e7d052a4f62cc422f9ad3b316a34e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:24 +0000
Subject: [PATCH 44/57] fix: draw wide characters and combining marks of
 captions and details in the info client

---
 cmd/music-sync-infoer/drawing.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index cd0384c..c770c9c 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/gdamore/tcell"
 	"math"
+	"unicode"
 )
 
 type drawer struct {
@@ -27,9 +28,25 @@ func (d *drawer) eventLoop() {
 	}
 }
 
+// drawString draws str. Wide characters take two cells and combining marks belong to the cell of the character they
+// follow.
 func (d *drawer) drawString(x, y int, style tcell.Style, str string) {
-	for i, r := range []rune(str) {
-		d.SetContent(x+i, y, r, nil, style)
+	last := x
+	for _, r := range str {
+		if last < x && unicode.In(r, unicode.Mn, unicode.Me) {
+			if mainc, combc, _, width := d.GetContent(last, y); 0 < width {
+				d.SetContent(last, y, mainc, append(combc, r), style)
+			}
+			continue
+		}
+
+		d.SetContent(x, y, r, nil, style)
+		last = x
+		if _, _, _, width := d.GetContent(x, y); 1 < width {
+			x += width
+		} else {
+			x++
+		}
 	}
 }
 
-- 
2.43.0


From 5c89ce35b127874d91acccc762c079f163d29b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 45/57] fix: keep ssh sessions from suspending the server and
 changing its own terminal

---
 ssh/session_handler.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index 0ed73b1..8ee9482 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -82,6 +82,14 @@ func (s *session) createReadlineConfig() {
 
 		FuncGetWidth: s.getWidth,
 
+		FuncFilterInputRune: s.filterInput,
+
+		// the session has its own terminal, the one of the server (if any) must stay as it is
+		FuncIsTerminal:     func() bool { return true },
+		FuncMakeRaw:        func() error { return nil },
+		FuncExitRaw:        func() error { return nil },
+		FuncOnWidthChanged: func(func()) {},
+
 		Stdin:       s,
 		Stdout:      s,
 		StdinWriter: s,
@@ -91,6 +99,11 @@ func (s *session) createReadlineConfig() {
 	}
 }
 
+// filterInput keeps keys from readline, which make it suspend the server
+func (s *session) filterInput(r rune) (rune, bool) {
+	return r, r != readline.CharCtrlZ
+}
+
 func (s *session) handleLine(line string) bool {
 	cmd := parser.ParseCommand(line)
 
-- 
2.43.0


From e66298534890eed58ee7fa4c49dbc8f0249bc174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 46/57] fix: drop null bytes typed in ssh sessions, which wedge
 the session

---
 ssh/session_handler.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index 8ee9482..fd454ee 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -1,6 +1,7 @@
 package ssh
 
 import (
+	"bytes"
 	"fmt"
 	"github.com/LogicalOverflow/music-sync/ssh/parser"
 	"github.com/chzyer/readline"
@@ -90,7 +91,7 @@ func (s *session) createReadlineConfig() {
 		FuncExitRaw:        func() error { return nil },
 		FuncOnWidthChanged: func(func()) {},
 
-		Stdin:       s,
+		Stdin:       sessionInput{s},
 		Stdout:      s,
 		StdinWriter: s,
 		Stderr:      s.Stderr(),
@@ -99,6 +100,21 @@ func (s *session) createReadlineConfig() {
 	}
 }
 
+// sessionInput is the input of a session without null bytes, which readline mistakes for the end of the input
+type sessionInput struct {
+	*session
+}
+
+func (si sessionInput) Read(p []byte) (int, error) {
+	for {
+		n, err := si.session.Read(p)
+		n = len(append(p[:0], bytes.Replace(p[:n], []byte{0}, nil, -1)...))
+		if n > 0 || err != nil {
+			return n, err
+		}
+	}
+}
+
 // filterInput keeps keys from readline, which make it suspend the server
 func (s *session) filterInput(r rune) (rune, bool) {
 	return r, r != readline.CharCtrlZ
-- 
2.43.0


From d19e0a7c3323ef305bad7717871cd3b168745384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 47/57] fix: keep keys from crashing the server when searching,
 transposing or completing in ssh sessions

---
 ssh/session_handler.go | 67 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 62 insertions(+), 5 deletions(-)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index fd454ee..61eadb5 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -11,6 +11,8 @@ import (
 	"sync"
 )
 
+const minWidth = 20
+
 type session struct {
 	ssh.Session
 	cfg *readline.Config
@@ -18,6 +20,12 @@ type session struct {
 
 	width, height int
 	sizeMutex     sync.RWMutex
+
+	lineLen    int  // length of the line being edited
+	optionsFit bool // whether the options to complete the line fit into a row each
+
+	editWidth    int    // the width readline uses
+	widthChanged func() // tells readline that editWidth changed
 }
 
 func (s *session) setSize(width, height int) {
@@ -29,6 +37,10 @@ func (s *session) setSize(width, height int) {
 func (s *session) getWidth() int {
 	s.sizeMutex.RLock()
 	defer s.sizeMutex.RUnlock()
+	if s.width < minWidth {
+		// unknown or too narrow for the prompt, which readline can't handle
+		return minWidth
+	}
 	return s.width
 }
 
@@ -71,25 +83,27 @@ func (s *session) createEx() (err error) {
 }
 
 func (s *session) createReadlineConfig() {
+	s.editWidth = s.getWidth()
 	s.cfg = &readline.Config{
 		Prompt: "\033[31mmusic-sync»\033[0m ",
 
-		AutoComplete: &sshAutoCompleter{},
+		AutoComplete: s,
 
 		VimMode: false,
 
 		InterruptPrompt: "^C",
 		EOFPrompt:       "exit",
 
-		FuncGetWidth: s.getWidth,
+		FuncGetWidth: func() int { return s.editWidth },
 
 		FuncFilterInputRune: s.filterInput,
+		Listener:            readline.FuncListener(s.lineChanged),
 
 		// the session has its own terminal, the one of the server (if any) must stay as it is
 		FuncIsTerminal:     func() bool { return true },
 		FuncMakeRaw:        func() error { return nil },
 		FuncExitRaw:        func() error { return nil },
-		FuncOnWidthChanged: func(func()) {},
+		FuncOnWidthChanged: func(f func()) { s.widthChanged = f },
 
 		Stdin:       sessionInput{s},
 		Stdout:      s,
@@ -115,9 +129,51 @@ func (si sessionInput) Read(p []byte) (int, error) {
 	}
 }
 
-// filterInput keeps keys from readline, which make it suspend the server
+// filterInput keeps keys from readline, which make it suspend the server or crash in its current state
 func (s *session) filterInput(r rune) (rune, bool) {
-	return r, r != readline.CharCtrlZ
+	op := s.ex.Operation
+	if w := s.getWidth(); w != s.editWidth {
+		op.ExitCompleteMode(true)
+		s.editWidth = w
+		s.widthChanged()
+	}
+	switch r {
+	case readline.CharCtrlZ:
+		return r, false
+	case readline.CharTranspose:
+		return r, s.lineLen != 1
+	case readline.CharKill:
+		if op.IsInCompleteSelectMode() {
+			op.ExitCompleteMode(true)
+		}
+	case readline.CharLineStart, readline.CharLineEnd, readline.CharPrev, readline.CharNext:
+		if op.IsInCompleteSelectMode() && !s.optionsFit {
+			op.ExitCompleteMode(true)
+		}
+	}
+	return r, true
+}
+
+func (s *session) lineChanged(line []rune, pos int, key rune) ([]rune, int, bool) {
+	s.lineLen = len(line)
+	return nil, 0, false
+}
+
+// Do completes line for readline. Readline prints each option after the part of the line before pos with the returned
+// length, which must not contain wide characters.
+func (s *session) Do(line []rune, pos int) ([][]rune, int) {
+	options, length := (&sshAutoCompleter{}).Do(line, pos)
+	prefixWidth, width := readline.Runes{}.WidthAll(line[pos-length:pos]), 0
+	for _, o := range options {
+		if w := (readline.Runes{}).WidthAll(o); width < w {
+			width = w
+		}
+	}
+	if length < prefixWidth || s.editWidth-1 < length+width+1 {
+		length = 0
+	}
+	s.optionsFit = length+width+1 <= s.editWidth-1
+	return options, length
 }
 
 func (s *session) handleLine(line string) bool {
@@ -180,6 +236,7 @@ func sessionHandler(sshSession ssh.Session) {
 	}
 
 	defer s.ex.Close()
+	s.ex.SaveHistory("") // readline crashes when searching without any history
 	s.ex.Clean()
 	s.readLoop()
 }
-- 
2.43.0


From be7e4009475ea94dad5a23381b9648f13b514fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 48/57] fix: do not execute the line cancelled by ctrl-c in ssh
 sessions

---
 ssh/session_handler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index 61eadb5..ddbab72 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -211,6 +211,7 @@ func (s *session) readLoop() {
 	for {
 		line, err := s.ex.Readline()
 		if err == readline.ErrInterrupt {
+			continue
 		} else if err == io.EOF {
 			logger.Infof("connection %s as %s closed", s.RemoteAddr(), s.User())
 			return
-- 
2.43.0


From 12e5d1f7d634dd6d3c9c71068eaf83ccb6b5dacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:49 +0000
Subject: [PATCH 49/57] fix: keep the length of a line begun while a command
 was executed in ssh sessions

readline calls the listener from the goroutine reading the next line with no line, which raced with the
goroutine handling the keys and made ctrl-t crash the server on a line of one character typed ahead.
---
 ssh/session_handler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index ddbab72..be60c81 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -155,7 +155,9 @@ func (s *session) filterInput(r rune) (rune, bool) {
 }
 
 func (s *session) lineChanged(line []rune, pos int, key rune) ([]rune, int, bool) {
-	s.lineLen = len(line)
+	if line != nil { // nil: reading a line starts, on another goroutine, the line may have been begun before
+		s.lineLen = len(line)
+	}
 	return nil, 0, false
 }
 
-- 
2.43.0


From 23419909a3cc95f5fdbb2f291d52f5397b7e3dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:31 +0000
Subject: [PATCH 50/57] fix: make up for chunks the server was too late for

time.Tick drops ticks while a chunk takes long to be filled or the server is held up, so all later chunks were
sent that much closer to, and eventually after, the time they are to be played at.
---
 schedule/server_state.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 8cd4b03..82f53b8 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -213,7 +213,7 @@ func (ss *serverState) streamMusic() {
 	time.Sleep(StreamStartDelay)
 	start := timing.GetSyncedTime() + int64(StreamDelay/time.Nanosecond)
 	index := int64(0)
-	for range time.Tick(StreamChunkTime) {
+	for range ticks(StreamChunkTime) {
 		low := make([]float64, StreamChunkSize)
 		high := make([]float64, StreamChunkSize)
 
@@ -234,3 +234,18 @@ func (ss *serverState) streamMusic() {
 		index++
 	}
 }
+
+// ticks is like time.Tick, but makes up for the ticks the receiver was too late for
+func ticks(d time.Duration) <-chan struct{} {
+	c := make(chan struct{})
+	go func() {
+		begin := time.Now()
+		n := 0
+		for range time.Tick(d) {
+			for ; time.Duration(n+1)*d <= time.Since(begin); n++ {
+				c <- struct{}{}
+			}
+		}
+	}()
+	return c
+}
-- 
2.43.0


From b4744922c64b2c4375703c50f4271c16b5bd725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:05 +0000
Subject: [PATCH 51/57] fix: do not read the pty of a session while its window
 size may change

---
 ssh/session_handler.go | 28 +++++++++++++++++++++++++++-
 ssh/ssh.go             |  5 ++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index be60c81..8958bc5 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -44,8 +44,34 @@ func (s *session) getWidth() int {
 	return s.width
 }
 
+// requestedPty is what Pty of a session returned when the session was requested
+type requestedPty struct {
+	pty    ssh.Pty
+	resize <-chan ssh.Window
+	ok     bool
+}
+
+var requestedPtys sync.Map // ssh.Session -> requestedPty
+
+// sessionRequested keeps the pty of the session for preparePty: once the session is handled, getting it would race
+// with changes of the window size.
+func sessionRequested(sess ssh.Session, _ string) bool {
+	pty, resize, ok := sess.Pty()
+	requestedPtys.Store(sess, requestedPty{pty, resize, ok})
+	return true
+}
+
+func (s *session) requestedPty() (ssh.Pty, <-chan ssh.Window, bool) {
+	if r, ok := requestedPtys.Load(s.Session); ok {
+		requestedPtys.Delete(s.Session)
+		p := r.(requestedPty)
+		return p.pty, p.resize, p.ok
+	}
+	return s.Pty()
+}
+
 func (s *session) preparePty() bool {
-	pty, resize, ok := s.Pty()
+	pty, resize, ok := s.requestedPty()
 	if !ok {
 		logger.Infof("no pty req from %s as %s", s.RemoteAddr(), s.User())
 		return false
diff --git a/ssh/ssh.go b/ssh/ssh.go
index e78a8f9..4682ae7 100644
--- a/ssh/ssh.go
+++ b/ssh/ssh.go
@@ -40,7 +40,10 @@ func ReadUsersFile(filename string) (map[string]UserAuth, error) {
 func StartSSH(address string, users map[string]UserAuth) {
 	ssh.Handle(sessionHandler)
 
-	options := getSSHOptions(users)
+	options := append(getSSHOptions(users), func(srv *ssh.Server) error {
+		srv.SessionRequestCallback = sessionRequested
+		return nil
+	})
 	logger.Infof("starting ssh server at %s", address)
 	err := ssh.ListenAndServe(address, nil, options...)
 	logger.Errorf("ssh server at %s stopped: %v", address, err)
-- 
2.43.0


From fa922413eba26644bf232ee76b50f20bbadb9966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:29 +0000
Subject: [PATCH 52/57] fix: stop listing options when a line is executed in
 ssh sessions

The answer of the command may be printed before readline noticed that the line is gone, which crashed the server:
reliably enough when the connection is lost while options are listed.
---
 ssh/session_handler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index 8958bc5..17a633f 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -164,6 +164,11 @@ func (s *session) filterInput(r rune) (rune, bool) {
 		s.widthChanged()
 	}
 	switch r {
+	case 0, readline.CharEnter, readline.CharCtrlJ:
+		// what the line executes may print before readline stops listing options for the (by then gone) line
+		if op.IsInCompleteMode() && !op.IsInCompleteSelectMode() {
+			op.ExitCompleteMode(true)
+		}
 	case readline.CharCtrlZ:
 		return r, false
 	case readline.CharTranspose:
-- 
2.43.0


From 4f27df1bcd6a6b54859421a1085a2b9639c66ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:17 +0000
Subject: [PATCH 53/57] fix: name the host key option and the port clients
 connect to by default in the README

---
 README.md | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 07ba498..9d42d75 100644
--- a/README.md
+++ b/README.md
@@ -53,11 +53,11 @@ If you want, you can add lyrics information to your songs. To add lyrics to a so
 Here, timestamps are in milliseconds from the start of the song, each array describes a line of lyrics and each object in those arrays a word/phrase/syllable in the lyrics.
 
 Then you can start a local music-sync-server using
-`music-sync-server`. By default, this server listens on `127.0.0.1:13333` (`--address`, `--port`) for clients and provides a ssh terminal on `127.0.0.1:13334` (`--ssh-address`, `--ssh-port`) to control the server. By default, the server checks in it's working directory for a file called `id_rsa` to use as a host key (`--host-key-file`). If this file is not found a new host key is generated on every startup. For more options check `music-sync-server --help`.
+`music-sync-server`. By default, this server listens on `127.0.0.1:13333` (`--address`, `--port`) for clients and provides a ssh terminal on `127.0.0.1:13334` (`--ssh-address`, `--ssh-port`) to control the server. By default, the server checks in it's working directory for a file called `id_rsa` to use as a host key (`--host-key`). If this file is not found a new host key is generated on every startup. For more options check `music-sync-server --help`.
 
-To start a player use `music-sync-player`. By default this tries to connect to a server at `127.0.0.1:1333` (`--address`, `--port`). For more options check `music-sync-player --help`.
+To start a player use `music-sync-player`. By default this tries to connect to a server at `127.0.0.1:13333` (`--address`, `--port`). For more options check `music-sync-player --help`.
 
-To get information about the current song playing and lyrics (if provided) in a terminal UI, you can use `music-sync-infoer`. By default this tries to connect to a server at  `127.0.0.1:1333` (`--address`, `--port`). For more options check `music-sync-infoer --help`.
+To get information about the current song playing and lyrics (if provided) in a terminal UI, you can use `music-sync-infoer`. By default this tries to connect to a server at  `127.0.0.1:13333` (`--address`, `--port`). For more options check `music-sync-infoer --help`.
 
 The ssh terminal on the server is used to control the server. The usernames and passwords are read from `users.json` (`--users-file`). You can manage the current playlist, pause and resume playback and set the playback volume for all clients. These commands are available:
  * `queue filename [position]` - Adds filename to the playlist at position or the end. You can use glob patterns to add multiple files.
-- 
2.43.0


From 8ac78dec5ef66febb2e4fc75530b2bcef461ff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:31 +0000
Subject: [PATCH 54/57] fix: tell the number of clients a message could not be
 sent to

---
 comm/message_sender.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index 89cfd5b..2e8ea02 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -1,6 +1,7 @@
 package comm
 
 import (
+	"fmt"
 	"net"
 	"sync"
 
@@ -41,7 +42,12 @@ func (mms *multiMessageSender) SendMessage(m proto.Message) error {
 	wg.Wait()
 	errCol.Wait()
 
-	return errCol.Err("failed to send to %d clients: ")
+	err := errCol.Err("failed to send")
+	if multi, ok := err.(util.MultiError); ok {
+		multi.BaseMessage = fmt.Sprintf("failed to send to %d clients", len(multi.Errors))
+		return multi
+	}
+	return err
 }
 
 // receivers returns the connections m has to be sent to. Sending must happen without holding the mutex: a client
-- 
2.43.0


From 96d9d3caa652e6e381b3d712082c92bb561d633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:31 +0000
Subject: [PATCH 55/57] fix: disconnect clients which do not read instead of
 holding ever more messages for them

---
 comm/package_util.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/comm/package_util.go b/comm/package_util.go
index 47203a7..cb4a51c 100644
--- a/comm/package_util.go
+++ b/comm/package_util.go
@@ -10,6 +10,7 @@ import (
 	"io/ioutil"
 	"net"
 	"reflect"
+	"time"
 )
 
 const zlibLevel = 5
@@ -173,11 +174,20 @@ func decompress(compressed []byte) ([]byte, error) {
 	return data, nil
 }
 
+// sendTimeout is the time a peer has to take a message
+const sendTimeout = time.Minute
+
 func sendWire(m proto.Message, conn net.Conn) error {
 	data, err := toWire(m)
 	if err != nil {
 		return err
 	}
+	// the messages waiting for a peer which does not read any more must not become ever more
+	timeout := time.AfterFunc(sendTimeout, func() {
+		logger.Infof("%s did not take a message in time. closing connection", conn.RemoteAddr())
+		conn.Close()
+	})
+	defer timeout.Stop()
 	send := 0
 	for send < len(data) {
 		n, err := conn.Write(data[send:])
-- 
2.43.0


From 14e473d5bc2ad9cdd94dec31587c76a079fd378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:33 +0000
Subject: [PATCH 56/57] fix: keep accepting clients after running out of open
 files

---
 comm/conn_handler.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/comm/conn_handler.go b/comm/conn_handler.go
index 6bf9884..2164bfd 100644
--- a/comm/conn_handler.go
+++ b/comm/conn_handler.go
@@ -7,8 +7,12 @@ import (
 	"net"
 	"os"
 	"sync"
+	"time"
 )
 
+// acceptRetryDelay is waited after a connection could not be accepted for a temporary reason
+const acceptRetryDelay = 100 * time.Millisecond
+
 type packageHandler interface {
 	Handle(message proto.Message, sender net.Conn)
 }
@@ -70,6 +74,12 @@ func serverConnectionAcceptor(mms *multiMessageSender, l net.Listener) {
 	h := newServerPackageHandler(mms)
 	for {
 		conn, err := l.Accept()
+		if ne, ok := err.(net.Error); ok && ne.Temporary() {
+			// such as too many open files: others can connect again once some clients disconnected
+			logger.Errorf("failed to accept connection, retrying: %v", err)
+			time.Sleep(acceptRetryDelay)
+			continue
+		}
 		if err != nil {
 			logger.Fatalf("failed to accept connection: %v", err)
 			break
-- 
2.43.0


From 25de3f1b20bea09687df7baf35ba44a33c34a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:33 +0000
Subject: [PATCH 57/57] fix: restore the terminal before the info client exits
 when the connection is lost

---
 cmd/music-sync-infoer/drawing.go |  2 ++
 cmd/music-sync-infoer/main.go    | 23 ++++++++++++++++-------
 comm/conn_handler.go             |  6 +++++-
 schedule/infoer.go               |  3 +--
 4 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index c770c9c..972318a 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -22,6 +22,8 @@ func (d *drawer) eventLoop() {
 			}
 		case *tcell.EventResize:
 			d.Sync()
+		case nil: // the screen was closed
+			return
 		default:
 			panic(fmt.Sprintf("%T", ev))
 		}
diff --git a/cmd/music-sync-infoer/main.go b/cmd/music-sync-infoer/main.go
index 2ee336f..bde8791 100644
--- a/cmd/music-sync-infoer/main.go
+++ b/cmd/music-sync-infoer/main.go
@@ -11,6 +11,7 @@ import (
 	"github.com/gdamore/tcell"
 	"github.com/urfave/cli"
 	"os"
+	"sync"
 	"time"
 )
 
@@ -50,6 +51,11 @@ func run(ctx *cli.Context) error {
 
 	s := createTcellScreen()
 
+	// the terminal has to be restored before exiting
+	lost := make(chan struct{})
+	var once sync.Once
+	comm.ConnectionLost = func() { once.Do(func() { close(lost) }) }
+
 	server := fmt.Sprintf("%s:%d", serverAddress, serverPort)
 	sender, err := comm.ConnectToServer(server, newInfoerPackageHandler())
 	if err != nil {
@@ -59,8 +65,9 @@ func run(ctx *cli.Context) error {
 
 	go schedule.Infoer(sender)
 
-	tcellLoop(s)
-
+	if !tcellLoop(s, lost) {
+		return cli.NewExitError(fmt.Sprintf("connection to %s closed", server), 1)
+	}
 	return nil
 }
 
@@ -89,7 +96,9 @@ func fmtDuration(duration time.Duration) string {
 	return fmt.Sprintf("%d:%02d:%02d", duration/time.Hour, duration/time.Minute%60, duration/time.Second%60)
 }
 
-func tcellLoop(screen tcell.Screen) {
+// tcellLoop shows the info until the user quits, or until lost, in which case it returns false
+func tcellLoop(screen tcell.Screen, lost <-chan struct{}) bool {
+	defer screen.Fini()
 	d := &drawer{Screen: screen}
 
 	stopped := make(chan struct{})
@@ -100,16 +109,16 @@ func tcellLoop(screen tcell.Screen) {
 
 	ticker := time.NewTicker(200 * time.Millisecond)
 	defer ticker.Stop()
-	for running := true; running; {
+	for {
 		select {
 		case <-stopped:
-			running = false
+			return true
+		case <-lost:
+			return false
 		case <-ticker.C:
 			redraw(d)
 		}
 	}
-
-	screen.Fini()
 }
 
 func redraw(d *drawer) {
diff --git a/comm/conn_handler.go b/comm/conn_handler.go
index 2164bfd..60eac7c 100644
--- a/comm/conn_handler.go
+++ b/comm/conn_handler.go
@@ -93,6 +93,10 @@ func serverConnectionAcceptor(mms *multiMessageSender, l net.Listener) {
 	}
 }
 
+// ConnectionLost is called when the connection to the server is closed or not usable. By default, it exits the process.
+// It must not be changed after connecting.
+var ConnectionLost = func() { os.Exit(1) }
+
 // ConnectToServer connects to the server at server and returns a MessageSender to communicate with the master
 func ConnectToServer(master string, handler TypedPackageHandler) (MessageSender, error) {
 	logger.Infof("connecting to master at %s", master)
@@ -105,7 +109,7 @@ func ConnectToServer(master string, handler TypedPackageHandler) (MessageSender,
 	go func() {
 		handleConnection(conn, handler)
 		logger.Fatalf("connection to master closed")
-		os.Exit(1)
+		ConnectionLost()
 	}()
 	return &singleMessageSender{connection: conn}, nil
 }
diff --git a/schedule/infoer.go b/schedule/infoer.go
index eb4fa0e..aa21050 100644
--- a/schedule/infoer.go
+++ b/schedule/infoer.go
@@ -3,7 +3,6 @@ package schedule
 import (
 	"github.com/LogicalOverflow/music-sync/comm"
 	"github.com/LogicalOverflow/music-sync/timing"
-	"os"
 	"time"
 )
 
@@ -19,7 +18,7 @@ func Infoer(sender comm.MessageSender) {
 	go func() {
 		if err := sender.SendMessage(&comm.SubscribeChannelRequest{Channel: comm.Channel_META}); err != nil {
 			logger.Errorf("failed to subscribe to meta channel")
-			os.Exit(1)
+			comm.ConnectionLost()
 		}
 	}()
 }
-- 
2.43.0

