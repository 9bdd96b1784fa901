From 2e97a6bf5805e7eef9aa3068d6e8859666368a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 01/37] fix: clip a removal just past the end of the playlist

Removing at an index equal to the playlist's length panicked instead of
removing the last song.
---
 playback/playlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 97d81ef..06010a7 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -198,7 +198,7 @@ func (pl *Playlist) RemoveSong(index int) string {
 		index = 0
 	}
 	var removed string
-	if len(pl.songs) < index {
+	if len(pl.songs) <= index {
 		removed = pl.songs[len(pl.songs)-1]
 		pl.songs = pl.songs[:len(pl.songs)-1]
 	} else {
-- 
2.43.0


From 6b6ab159cd5a4357fc89245c10133f5b70fab826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 02/37] fix: clip jumps to negative positions

A negative position made the song lookup index the playlist out of range
and crash the server.
---
 playback/playlist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/playback/playlist.go b/playback/playlist.go
index 06010a7..32fefc4 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -137,7 +137,11 @@ func (pl *Playlist) callPauseToggleHandler() {
 }
 
 // SetPos jumps to the song at pos.
+// A negative pos is clipped to the start of the playlist.
 func (pl *Playlist) SetPos(pos int) {
+	if pos < 0 {
+		pos = 0
+	}
 	pl.position = pos
 	pl.forceNext <- true
 }
-- 
2.43.0


From 01a3b366848afe980edda4c46a0e2a92b5d8f235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 03/37] fix: make jumps non-blocking and apply each exactly
 once

A third jump while no song was playing blocked forever, jumps issued between
songs cut short the song they had selected, and a jump racing with the end of
a song (or a failed open) was advanced by one.
---
 playback/playlist.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 32fefc4..7579d6d 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -51,7 +51,7 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		s, err := getStreamer(filename)
 		if err != nil {
 			logger.Warnf("skipping song %s in playlist: failed to get streamer: %v", filename, err)
-			pl.position++
+			pl.skipSong()
 			continue
 		}
 
@@ -61,8 +61,12 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 }
 
 func (pl *Playlist) nextSong() (song string) {
-	pl.songsMutex.RLock()
-	defer pl.songsMutex.RUnlock()
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	// jumps up to now are served by the song chosen here and must not end it
+	for 0 < len(pl.forceNext) {
+		<-pl.forceNext
+	}
 	if len(pl.songs) == 0 {
 		return ""
 	}
@@ -71,6 +75,15 @@ func (pl *Playlist) nextSong() (song string) {
 	return pl.songs[pos]
 }
 
+// skipSong moves on to the next song, unless a jump already decided where to go
+func (pl *Playlist) skipSong() {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
+	if len(pl.forceNext) == 0 {
+		pl.position++
+	}
+}
+
 func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 	buf := make([][2]float64, streamerBufferSize)
 	if pl.newSongHandler != nil {
@@ -94,6 +107,8 @@ func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 }
 
 func (pl *Playlist) shouldBreakStreamerPushLoop(n int, ok bool, bufSize int) bool {
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
 	if 0 < len(pl.forceNext) && <-pl.forceNext {
 		return true
 	}
@@ -142,8 +157,13 @@ func (pl *Playlist) SetPos(pos int) {
 	if pos < 0 {
 		pos = 0
 	}
+	pl.songsMutex.Lock()
+	defer pl.songsMutex.Unlock()
 	pl.position = pos
-	pl.forceNext <- true
+	select {
+	case pl.forceNext <- true:
+	default: // enough jumps are pending to end the current song
+	}
 }
 
 // Pos returns the position of the song currently being played.
-- 
2.43.0


From 19f80d6c0526804ecd1de088dbe842def12ce0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 04/37] fix: keep streaming silence while no song of the
 playlist can be played

With only unreadable songs the stream loop spun without producing samples, so
the stream stalled and everything after it was scheduled too early.
---
 playback/playlist.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 7579d6d..2921988 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -39,9 +39,11 @@ type Playlist struct {
 // It must be called once before streaming from the playlist and must not be called again before the returning after
 // the context was canceled.
 func (pl *Playlist) StreamLoop(ctx context.Context) {
+	failed := 0
 	for !util.IsCanceled(ctx) {
 		filename := pl.nextSong()
-		if filename == "" {
+		if filename == "" || len(pl.Songs()) <= failed {
+			failed = 0
 			pl.pushNanSamples(noSongNanSampleCount)
 			continue
 		}
@@ -52,8 +54,10 @@ func (pl *Playlist) StreamLoop(ctx context.Context) {
 		if err != nil {
 			logger.Warnf("skipping song %s in playlist: failed to get streamer: %v", filename, err)
 			pl.skipSong()
+			failed++
 			continue
 		}
+		failed = 0
 
 		pl.pushStreamer(s)
 		pl.pushNanBreak()
-- 
2.43.0


From 7893b0f718aa2a5fcd1960c3289e10c7087fd56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 05/37] fix: announce pauses at the sample where they take
 effect

The playing flag was read again after deciding whether to announce a change,
so a pause or resume in between took effect one block before it was announced.
---
 playback/playlist.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/playback/playlist.go b/playback/playlist.go
index 2921988..17b2e0e 100644
--- a/playback/playlist.go
+++ b/playback/playlist.go
@@ -96,8 +96,7 @@ func (pl *Playlist) pushStreamer(s beep.StreamSeekCloser) {
 
 	for {
 		n, ok := streamerBufferSize, true
-		pl.callPauseToggleHandler()
-		if pl.playing {
+		if pl.callPauseToggleHandler() {
 			n, ok = s.Stream(buf)
 			pl.pushBuffer(buf[:n])
 		} else {
@@ -148,11 +147,14 @@ func (pl *Playlist) pushSample(low, high float64) {
 	pl.sampleIndexWrite++
 }
 
-func (pl *Playlist) callPauseToggleHandler() {
-	if pl.playing != pl.playingLast && pl.pauseToggleHandler != nil {
-		pl.playingLast = pl.playing
-		go pl.pauseToggleHandler(pl.playing, pl.sampleIndexWrite)
+// callPauseToggleHandler announces a change between playing and paused and returns whether audio is to be streamed
+func (pl *Playlist) callPauseToggleHandler() bool {
+	playing := pl.playing
+	if playing != pl.playingLast && pl.pauseToggleHandler != nil {
+		pl.playingLast = playing
+		go pl.pauseToggleHandler(playing, pl.sampleIndexWrite)
 	}
+	return playing
 }
 
 // SetPos jumps to the song at pos.
-- 
2.43.0


From e69fd232fd0cf476f829b3bf2b1df9a749b15154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 06/37] fix: keep the order of songs queued at a position
 outside the playlist

Each song's position was clipped separately, which reversed songs queued at a
negative position and moved them to the front for the largest integers.
---
 schedule/server_state_commands.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 3b4c302..40ad5c5 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -56,6 +56,11 @@ func (ss *serverState) queueCommandExec(args []string) (string, bool) {
 
 	var insert func(string, int)
 	if pos, ok := parseIntParam(args, 1); ok {
+		if pos < 0 {
+			pos = 0
+		} else if end := len(ss.playlist.Songs()); end < pos {
+			pos = end
+		}
 		insert = func(s string, i int) { ss.playlist.InsertSong(s, pos+i) }
 	} else {
 		insert = func(s string, _ int) { ss.playlist.AddSong(s) }
-- 
2.43.0


From b1d199cd13502483f77ae9a9acace4d3e5267552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 07/37] fix: refuse oversized and damaged frames instead of
 crashing

---
 comm/package_util.go | 55 +++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/comm/package_util.go b/comm/package_util.go
index ee2b73d..3617531 100644
--- a/comm/package_util.go
+++ b/comm/package_util.go
@@ -14,6 +14,9 @@ import (
 
 const zlibLevel = 5
 
+// maxMessageSize is the maximum size of a message in bytes, both compressed and uncompressed
+const maxMessageSize = 64 << 20
+
 func channelOf(m proto.Message) ([]Channel, bool) {
 	switch m.(type) {
 	case *QueueChunkRequest:
@@ -60,8 +63,14 @@ func readWire(conn net.Conn) (proto.Message, error) {
 	if err != nil {
 		return nil, err
 	}
-	size := int64(binary.LittleEndian.Uint64(sizeBuf))
-	env, err := readBytes(conn, size)
+	size := binary.LittleEndian.Uint64(sizeBuf)
+	if maxMessageSize < size {
+		return nil, fmt.Errorf("message of %d bytes is too large", size)
+	}
+	env, err := readBytes(conn, int64(size))
+	if err != nil {
+		return nil, err
+	}
 
 	envelope := &Envelope{}
 	if err := proto.Unmarshal(env, envelope); err != nil {
@@ -74,17 +83,32 @@ func readWire(conn net.Conn) (proto.Message, error) {
 	}
 	m := reflect.New(mType.Elem()).Interface().(proto.Message)
 
-	r, _ := zlib.NewReader(bytes.NewBuffer(envelope.Data))
-	data, _ := ioutil.ReadAll(r)
-	r.Close()
+	data, err := decompress(envelope.Data)
+	if err != nil {
+		return nil, fmt.Errorf("failed to decompress inner protobuf (%s): %v", envelope.Type, err)
+	}
 
-	e := error(nil)
 	if err := proto.Unmarshal(data, m); err != nil {
-		m = nil
-		e = fmt.Errorf("failed to unmarshal inner protobuf (%s): %v", envelope.Type, err)
+		return nil, fmt.Errorf("failed to unmarshal inner protobuf (%s): %v", envelope.Type, err)
 	}
-	return m, e
+	return m, nil
+}
 
+func decompress(compressed []byte) ([]byte, error) {
+	r, err := zlib.NewReader(bytes.NewReader(compressed))
+	if err != nil {
+		return nil, err
+	}
+	defer r.Close()
+
+	data, err := ioutil.ReadAll(io.LimitReader(r, maxMessageSize+1))
+	if err != nil {
+		return nil, err
+	}
+	if maxMessageSize < len(data) {
+		return nil, fmt.Errorf("more than %d bytes", maxMessageSize)
+	}
+	return data, nil
 }
 
 func sendWire(m proto.Message, conn net.Conn) error {
@@ -104,14 +128,9 @@ func sendWire(m proto.Message, conn net.Conn) error {
 }
 
 func readBytes(conn net.Conn, number int64) ([]byte, error) {
-	buf := make([]byte, number)
-	read := 0
-	for read < len(buf) {
-		n, err := conn.Read(buf[read:])
-		if err != nil {
-			return nil, err
-		}
-		read += n
+	buf := &bytes.Buffer{} // grows with the data received, as number may not be trustworthy
+	if _, err := io.CopyN(buf, conn, number); err != nil {
+		return nil, err
 	}
-	return buf, nil
+	return buf.Bytes(), nil
 }
-- 
2.43.0


From bc6cc00c82cab48884aca8d4cb81a2f959d550a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 08/37] fix: do not let a stalled client block the server

---
 comm/message_sender.go | 28 +++++++++++++++++-----------
 comm/package_util.go   | 10 ++++++++++
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index b94e60c..9408a27 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -23,19 +23,16 @@ type multiMessageSender struct {
 }
 
 func (mms *multiMessageSender) SendMessage(m proto.Message) error {
-	mms.mutex.RLock()
-	defer mms.mutex.RUnlock()
-
-	chs, hasCh := channelOf(m)
+	conns := mms.recipients(m)
 
 	var errCol util.ErrorCollector
 	var wg sync.WaitGroup
-	wg.Add(len(mms.connections))
+	wg.Add(len(conns))
 
-	for _, c := range mms.connections {
+	for _, c := range conns {
 		go func(c net.Conn) {
 			defer wg.Done()
-			if err := mms.sendMessageTo(m, c, hasCh, chs); err != nil {
+			if err := sendWire(m, c); err != nil {
 				errCol.Add(err)
 			}
 		}(c)
@@ -47,11 +44,20 @@ func (mms *multiMessageSender) SendMessage(m proto.Message) error {
 	return errCol.Err("failed to send to %d clients: ")
 }
 
-func (mms *multiMessageSender) sendMessageTo(m proto.Message, c net.Conn, hasCh bool, chs []Channel) error {
-	if !hasCh || mms.isSubscribed(c, chs) {
-		return sendWire(m, c)
+// recipients returns the connections m has to be sent to. The connections are not written to
+// while holding the mutex, as a slow client would block connecting and subscribing clients.
+func (mms *multiMessageSender) recipients(m proto.Message) []net.Conn {
+	mms.mutex.RLock()
+	defer mms.mutex.RUnlock()
+
+	chs, hasCh := channelOf(m)
+	conns := make([]net.Conn, 0, len(mms.connections))
+	for _, c := range mms.connections {
+		if !hasCh || mms.isSubscribed(c, chs) {
+			conns = append(conns, c)
+		}
 	}
-	return nil
+	return conns
 }
 
 func (mms *multiMessageSender) AddConn(c net.Conn) {
diff --git a/comm/package_util.go b/comm/package_util.go
index 3617531..a1b5728 100644
--- a/comm/package_util.go
+++ b/comm/package_util.go
@@ -10,6 +10,7 @@ import (
 	"io/ioutil"
 	"net"
 	"reflect"
+	"time"
 )
 
 const zlibLevel = 5
@@ -17,6 +18,9 @@ const zlibLevel = 5
 // maxMessageSize is the maximum size of a message in bytes, both compressed and uncompressed
 const maxMessageSize = 64 << 20
 
+// sendTimeout is the time a connection may take to accept a message before it is closed
+const sendTimeout = 10 * time.Second
+
 func channelOf(m proto.Message) ([]Channel, bool) {
 	switch m.(type) {
 	case *QueueChunkRequest:
@@ -116,6 +120,12 @@ func sendWire(m proto.Message, conn net.Conn) error {
 	if err != nil {
 		return err
 	}
+
+	// a connection a message cannot be written to for too long is given up,
+	// as it would block the sender and all later messages forever
+	timeout := time.AfterFunc(sendTimeout, func() { conn.Close() })
+	defer timeout.Stop()
+
 	send := 0
 	for send < len(data) {
 		n, err := conn.Write(data[send:])
-- 
2.43.0


From 32d818b693d04613c316860d00523a0cc27cfe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 09/37] fix: forget the subscriptions of disconnected clients

---
 comm/message_sender.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/comm/message_sender.go b/comm/message_sender.go
index 9408a27..160c54e 100644
--- a/comm/message_sender.go
+++ b/comm/message_sender.go
@@ -80,18 +80,28 @@ func (mms *multiMessageSender) DelConn(c net.Conn) {
 
 	if 0 <= index {
 		mms.connections[index] = mms.connections[len(mms.connections)-1]
+		mms.connections[len(mms.connections)-1] = nil
 		mms.connections = mms.connections[:len(mms.connections)-1]
 	}
+	delete(mms.channels, c)
 }
 
 func (mms *multiMessageSender) Subscribe(c net.Conn, channel Channel) {
 	mms.mutex.Lock()
 	defer mms.mutex.Unlock()
-	if l, ok := mms.channels[c]; ok {
-		mms.channels[c] = append(l, channel)
-	} else {
-		mms.channels[c] = []Channel{channel}
+	if !mms.isConnected(c) || containsChannel(mms.channels[c], channel) {
+		return
+	}
+	mms.channels[c] = append(mms.channels[c], channel)
+}
+
+func (mms *multiMessageSender) isConnected(c net.Conn) bool {
+	for _, conn := range mms.connections {
+		if conn == c {
+			return true
+		}
 	}
+	return false
 }
 
 func (mms *multiMessageSender) isSubscribed(c net.Conn, channels []Channel) bool {
-- 
2.43.0


From 933a5814ef5fc24bb00dcec38b518d28123b0118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 10/37] fix: accept subscriptions before the server is set up

---
 comm/package_handler.go | 4 +++-
 schedule/server.go      | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/comm/package_handler.go b/comm/package_handler.go
index c57a5ac..2fb269f 100644
--- a/comm/package_handler.go
+++ b/comm/package_handler.go
@@ -101,7 +101,9 @@ func (s serverPackageHandler) HandleTimeSyncRequest(tsr *TimeSyncRequest, c net.
 
 func (s serverPackageHandler) HandleSubscribeChannelRequest(scr *SubscribeChannelRequest, c net.Conn) {
 	s.sender.Subscribe(c, scr.Channel)
-	NewClientHandler(scr.Channel, &singleMessageSender{c})
+	if NewClientHandler != nil {
+		NewClientHandler(scr.Channel, &singleMessageSender{c})
+	}
 }
 
 func (s serverPackageHandler) HandlePingMessage(_ *PingMessage, c net.Conn) { PingHandler(c) }
diff --git a/schedule/server.go b/schedule/server.go
index 2506ee2..78e4ecb 100644
--- a/schedule/server.go
+++ b/schedule/server.go
@@ -22,6 +22,7 @@ func Server(sender comm.MessageSender) {
 	ss.pauses = make([]*comm.PauseInfo, 0)
 
 	comm.NewClientHandler = ss.createClientHandler()
+	ss.sendVolume(ss.sender) // to clients which subscribed before there was a handler
 
 	go ss.playlist.StreamLoop(context.Background())
 
-- 
2.43.0


From 5de435ffb2d0ac12a5e1b54a428ddf4b623ea637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 11/37] fix: leave every client at the volume set last, and
 keep it on a rejected volume command

---
 schedule/server.go                |  2 +-
 schedule/server_state.go          | 30 +++++++++++++++++++++++++++---
 schedule/server_state_commands.go | 11 +++++------
 3 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/schedule/server.go b/schedule/server.go
index 78e4ecb..3e31625 100644
--- a/schedule/server.go
+++ b/schedule/server.go
@@ -22,7 +22,7 @@ func Server(sender comm.MessageSender) {
 	ss.pauses = make([]*comm.PauseInfo, 0)
 
 	comm.NewClientHandler = ss.createClientHandler()
-	ss.sendVolume(ss.sender) // to clients which subscribed before there was a handler
+	go ss.sendVolume(ss.sender) // to clients which subscribed before there was a handler
 
 	go ss.playlist.StreamLoop(context.Background())
 
diff --git a/schedule/server_state.go b/schedule/server_state.go
index 31587e0..0c306dc 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -16,7 +16,10 @@ type serverState struct {
 	metadataProvider metadata.Provider
 
 	playlist *playback.Playlist
-	volume   float64
+
+	volume        float64
+	volumeVersion int
+	volumeMutex   sync.RWMutex
 
 	newestSong *comm.NewSongInfo
 
@@ -24,8 +27,29 @@ type serverState struct {
 	pausesMutex sync.RWMutex
 }
 
-func (ss *serverState) sendVolume(s comm.MessageSender) {
-	s.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume})
+func (ss *serverState) setVolume(volume float64) {
+	ss.volumeMutex.Lock()
+	defer ss.volumeMutex.Unlock()
+	ss.volume = volume
+	ss.volumeVersion++
+}
+
+func (ss *serverState) currentVolume() (float64, int) {
+	ss.volumeMutex.RLock()
+	defer ss.volumeMutex.RUnlock()
+	return ss.volume, ss.volumeVersion
+}
+
+// sendVolume sends the current volume to s. If the volume changes meanwhile, it is sent again,
+// such that no client is left with an outdated volume by overlapping calls.
+func (ss *serverState) sendVolume(s comm.MessageSender) error {
+	for {
+		volume, version := ss.currentVolume()
+		err := s.SendMessage(&comm.SetVolumeRequest{Volume: volume})
+		if _, latest := ss.currentVolume(); latest == version {
+			return err
+		}
+	}
 }
 
 func (ss *serverState) sendNewestSong(s comm.MessageSender) {
diff --git a/schedule/server_state_commands.go b/schedule/server_state_commands.go
index 40ad5c5..ec3e663 100644
--- a/schedule/server_state_commands.go
+++ b/schedule/server_state_commands.go
@@ -2,7 +2,6 @@ package schedule
 
 import (
 	"fmt"
-	"github.com/LogicalOverflow/music-sync/comm"
 	"github.com/LogicalOverflow/music-sync/playback"
 	"github.com/LogicalOverflow/music-sync/ssh"
 	"github.com/LogicalOverflow/music-sync/util"
@@ -167,15 +166,15 @@ func (ss *serverState) volumeCommand() ssh.Command {
 		Usage: "volume",
 		Info:  "set the playback volume",
 		ExecFunc: func(args []string) (string, bool) {
-			var ok bool
-			ss.volume, ok = parseFloatParam(args, 0)
+			volume, ok := parseFloatParam(args, 0)
 			if !ok {
 				return "", false
 			}
-			if err := ss.sender.SendMessage(&comm.SetVolumeRequest{Volume: ss.volume}); err != nil {
-				return fmt.Sprintf("failed to set volume to %.3f: %v", ss.volume, err), true
+			ss.setVolume(volume)
+			if err := ss.sendVolume(ss.sender); err != nil {
+				return fmt.Sprintf("failed to set volume to %.3f: %v", volume, err), true
 			}
-			return fmt.Sprintf("setting volume to %.3f", ss.volume), true
+			return fmt.Sprintf("setting volume to %.3f", volume), true
 		},
 	}
 }
-- 
2.43.0


From 677fd4a1bc7e6a9791d599b7657a60619254993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 12/37] fix: handle chunks and volumes in the order they are
 received

---
 comm/package_handler.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/comm/package_handler.go b/comm/package_handler.go
index 2fb269f..86e9010 100644
--- a/comm/package_handler.go
+++ b/comm/package_handler.go
@@ -58,7 +58,8 @@ type TypedPackageHandlerInterface interface {
 	HandlePauseInfo(*PauseInfo, net.Conn)
 }
 
-// Handle forwards the message and sender to the matching Handle function of TypedPackageHandlerInterface
+// Handle forwards the message and sender to the matching Handle function of TypedPackageHandlerInterface.
+// Chunks and volumes are handled before Handle returns, to keep them in the order they were received in.
 func (t TypedPackageHandler) Handle(message proto.Message, sender net.Conn) {
 	switch message.(type) {
 	case *TimeSyncRequest:
@@ -66,13 +67,13 @@ func (t TypedPackageHandler) Handle(message proto.Message, sender net.Conn) {
 	case *TimeSyncResponse:
 		go t.HandleTimeSyncResponse(message.(*TimeSyncResponse), sender)
 	case *QueueChunkRequest:
-		go t.HandleQueueChunkRequest(message.(*QueueChunkRequest), sender)
+		t.HandleQueueChunkRequest(message.(*QueueChunkRequest), sender)
 	case *PingMessage:
 		go t.HandlePingMessage(message.(*PingMessage), sender)
 	case *PongMessage:
 		go t.HandlePongMessage(message.(*PongMessage), sender)
 	case *SetVolumeRequest:
-		go t.HandleSetVolumeRequest(message.(*SetVolumeRequest), sender)
+		t.HandleSetVolumeRequest(message.(*SetVolumeRequest), sender)
 	case *SubscribeChannelRequest:
 		go t.HandleSubscribeChannelRequest(message.(*SubscribeChannelRequest), sender)
 	case *NewSongInfo:
-- 
2.43.0


From 6b6600f4ec3996989a2e6ccb292b6b927fd71e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 13/37] fix: keep the pauses for later joiners ordered and
 complete

---
 schedule/server_state.go | 63 ++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/schedule/server_state.go b/schedule/server_state.go
index 0c306dc..2b9510f 100644
--- a/schedule/server_state.go
+++ b/schedule/server_state.go
@@ -22,9 +22,8 @@ type serverState struct {
 	volumeMutex   sync.RWMutex
 
 	newestSong *comm.NewSongInfo
-
-	pauses      []*comm.PauseInfo
-	pausesMutex sync.RWMutex
+	pauses     []*comm.PauseInfo // ordered by sample index
+	infoMutex  sync.RWMutex      // guards newestSong and pauses
 }
 
 func (ss *serverState) setVolume(volume float64) {
@@ -53,17 +52,21 @@ func (ss *serverState) sendVolume(s comm.MessageSender) error {
 }
 
 func (ss *serverState) sendNewestSong(s comm.MessageSender) {
-	if ss.newestSong != nil {
-		s.SendMessage(ss.newestSong)
+	ss.infoMutex.RLock()
+	song := ss.newestSong
+	ss.infoMutex.RUnlock()
+	if song != nil {
+		s.SendMessage(song)
 	}
 }
 
 func (ss *serverState) sendPauses(s comm.MessageSender) {
-	ss.pausesMutex.RLock()
-	for _, p := range ss.pauses {
+	ss.infoMutex.RLock()
+	pauses := append([]*comm.PauseInfo{}, ss.pauses...)
+	ss.infoMutex.RUnlock()
+	for _, p := range pauses {
 		s.SendMessage(p)
 	}
-	ss.pausesMutex.RUnlock()
 }
 
 func (ss *serverState) createClientHandler() func(comm.Channel, comm.MessageSender) {
@@ -101,7 +104,7 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 
 		md := ss.metadataProvider.CollectMetadata(filename)
 
-		ss.newestSong = &comm.NewSongInfo{
+		song := &comm.NewSongInfo{
 			FirstSampleOfSongIndex: startSampleIndex,
 			SongFileName:           filename,
 			SongLength:             songLength,
@@ -112,7 +115,16 @@ func (ss *serverState) createNewSongHandler() func(uint64, string, int64) {
 				Album:  md.Album,
 			},
 		}
-		ss.sender.SendMessage(ss.newestSong)
+		ss.setNewestSong(song)
+		ss.sender.SendMessage(song)
+	}
+}
+
+func (ss *serverState) setNewestSong(song *comm.NewSongInfo) {
+	ss.infoMutex.Lock()
+	defer ss.infoMutex.Unlock()
+	if ss.newestSong == nil || ss.newestSong.FirstSampleOfSongIndex <= song.FirstSampleOfSongIndex {
+		ss.newestSong = song
 	}
 }
 
@@ -122,24 +134,33 @@ func (ss *serverState) createPauseToggleHandler() func(bool, uint64) {
 			Playing:           playing,
 			ToggleSampleIndex: sample,
 		}
-		go func(pause *comm.PauseInfo) {
-			ss.pausesMutex.Lock()
-			defer ss.pausesMutex.Unlock()
-			ss.pauses = append(ss.pauses, pause)
-			go ss.removeOldPauses()
-		}(pause)
+		ss.addPause(pause)
 		ss.sender.SendMessage(pause)
 	}
 }
 
+// addPause adds a pause to the retained pauses and forgets the ones no longer needed
+func (ss *serverState) addPause(pause *comm.PauseInfo) {
+	ss.infoMutex.Lock()
+	defer ss.infoMutex.Unlock()
+
+	index := len(ss.pauses)
+	for 0 < index && pause.ToggleSampleIndex < ss.pauses[index-1].ToggleSampleIndex {
+		index--
+	}
+	ss.pauses = append(ss.pauses, nil)
+	copy(ss.pauses[index+1:], ss.pauses[index:])
+	ss.pauses[index] = pause
+
+	ss.removeOldPauses()
+}
+
+// removablePauses returns the number of pauses no longer needed. infoMutex has to be held.
 func (ss *serverState) removablePauses() int {
 	if ss.newestSong == nil {
 		return 0
 	}
 
-	ss.pausesMutex.Lock()
-	defer ss.pausesMutex.Unlock()
-
 	passed := 0
 	for i, p := range ss.pauses {
 		inPast := ss.newestSong.FirstSampleOfSongIndex < p.ToggleSampleIndex
@@ -152,12 +173,10 @@ func (ss *serverState) removablePauses() int {
 	return passed
 }
 
+// removeOldPauses forgets the pauses no longer needed. infoMutex has to be held.
 func (ss *serverState) removeOldPauses() {
 	removable := ss.removablePauses()
 	if 0 < removable {
-		ss.pausesMutex.Lock()
-		defer ss.pausesMutex.Unlock()
-
 		copy(ss.pauses, ss.pauses[removable:])
 		for i := len(ss.pauses) - removable; i < len(ss.pauses); i++ {
 			ss.pauses[i] = nil
-- 
2.43.0


From 5b48002eff2fba5982a86a175d9c6aeda6e5c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 14/37] fix: do not lose wakeups of the sample queue

---
 playback/timed_sample_queue.go | 55 ++++++++++++++--------------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/playback/timed_sample_queue.go b/playback/timed_sample_queue.go
index 4f85177..3ff7e4a 100644
--- a/playback/timed_sample_queue.go
+++ b/playback/timed_sample_queue.go
@@ -7,16 +7,17 @@ type timedSampleQueue struct {
 	head   int
 	tail   int
 
-	cond      *sync.Cond
-	headMutex sync.RWMutex
-	tailMutex sync.RWMutex
+	mutex sync.Mutex
+	cond  *sync.Cond // signals changes of head and tail, uses mutex
 }
 
 func (q *timedSampleQueue) Add(sample [2]float64, time int64) {
-	q.headMutex.Lock()
-	defer q.headMutex.Unlock()
+	q.mutex.Lock()
+	defer q.mutex.Unlock()
 
-	q.waitNotFull()
+	for q.full() {
+		q.cond.Wait()
+	}
 
 	q.buffer[q.head%len(q.buffer)] = timedSample{sample: sample, time: time}
 	q.head = q.inc(q.head)
@@ -25,10 +26,12 @@ func (q *timedSampleQueue) Add(sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Remove() (sample [2]float64, time int64) {
-	q.tailMutex.Lock()
-	defer q.tailMutex.Unlock()
+	q.mutex.Lock()
+	defer q.mutex.Unlock()
 
-	q.waitNotEmpty()
+	for q.empty() {
+		q.cond.Wait()
+	}
 
 	v := q.buffer[q.tail%len(q.buffer)]
 	q.tail = q.inc(q.tail)
@@ -38,20 +41,20 @@ func (q *timedSampleQueue) Remove() (sample [2]float64, time int64) {
 }
 
 func (q *timedSampleQueue) Peek() (sample [2]float64, time int64) {
-	q.tailMutex.RLock()
-	defer q.tailMutex.RUnlock()
+	q.mutex.Lock()
+	defer q.mutex.Unlock()
 
-	q.waitNotEmpty()
+	for q.empty() {
+		q.cond.Wait()
+	}
 
 	v := q.buffer[q.tail%len(q.buffer)]
 	return v.sample, v.time
 }
 
 func (q *timedSampleQueue) Len() int {
-	q.tailMutex.RLock()
-	defer q.tailMutex.RUnlock()
-	q.headMutex.RLock()
-	defer q.headMutex.RUnlock()
+	q.mutex.Lock()
+	defer q.mutex.Unlock()
 	if q.tail <= q.head {
 		return q.head - q.tail
 	}
@@ -74,22 +77,8 @@ func (q *timedSampleQueue) empty() bool {
 	return q.head == q.tail
 }
 
-func (q *timedSampleQueue) waitNotFull() {
-	q.cond.L.Lock()
-	for q.full() {
-		q.cond.Wait()
-	}
-	q.cond.L.Unlock()
-}
-
-func (q *timedSampleQueue) waitNotEmpty() {
-	q.cond.L.Lock()
-	for q.empty() {
-		q.cond.Wait()
-	}
-	q.cond.L.Unlock()
-}
-
 func newTimedSampleQueue(size int) *timedSampleQueue {
-	return &timedSampleQueue{buffer: make([]timedSample, size), head: 0, tail: 0, cond: sync.NewCond(&sync.Mutex{})}
+	q := &timedSampleQueue{buffer: make([]timedSample, size)}
+	q.cond = sync.NewCond(&q.mutex)
+	return q
 }
-- 
2.43.0


From e86fee3b7dbf75e1ea7911d253170d40703ae16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 15/37] fix: accept chunks while the sample queue is full

---
 playback/streamer.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/playback/streamer.go b/playback/streamer.go
index 65337e3..b19e288 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -80,22 +80,28 @@ func (tms *timedMultiStreamer) streamSync(samples [][2]float64, now int64) (n in
 
 func (tms *timedMultiStreamer) ReadChunks(ctx context.Context) {
 	for !util.IsCanceled(ctx) {
-		if 0 < len(tms.chunks) {
-			tms.chunksMutex.RLock()
-			st := tms.chunks[0].startTime
-			for i, s := range tms.chunks[0].samples {
-				tms.samples.Add(s, st+tms.samplesDuration(i))
+		if chunk := tms.nextChunk(); chunk != nil {
+			for i, s := range chunk.samples {
+				tms.samples.Add(s, chunk.startTime+tms.samplesDuration(i))
 			}
-			tms.chunksMutex.RUnlock()
-			tms.chunksMutex.Lock()
-			tms.chunks = tms.chunks[1:]
-			tms.chunksMutex.Unlock()
 		} else {
 			time.Sleep(time.Millisecond)
 		}
 	}
 }
 
+// nextChunk removes and returns the first queued chunk or returns nil, if there is none
+func (tms *timedMultiStreamer) nextChunk() *queuedChunk {
+	tms.chunksMutex.Lock()
+	defer tms.chunksMutex.Unlock()
+	if len(tms.chunks) == 0 {
+		return nil
+	}
+	chunk := tms.chunks[0]
+	tms.chunks = tms.chunks[1:]
+	return chunk
+}
+
 func (tms *timedMultiStreamer) samplesDuration(n int) int64 {
 	return int64(tms.format.SampleRate.D(n) / time.Nanosecond)
 }
-- 
2.43.0


From 45b43df4591f4af587ea3704b1de90d8b5705e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 16/37] fix: keep a volume received before the audio device is
 ready

---
 playback/playback.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/playback/playback.go b/playback/playback.go
index 4012462..ff24494 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -23,7 +23,7 @@ var (
 	format     beep.Format
 	streamer   *timedMultiStreamer
 	bufferSize int
-	volume     float64
+	volume     = .1
 )
 
 var logger = log.GetLogger("play")
@@ -80,7 +80,6 @@ func Init(sampleRate int) error {
 	logger.Infof("initializing playback")
 	var err error
 
-	volume = .1
 	format = beep.Format{SampleRate: beep.SampleRate(sampleRate), NumChannels: 2, Precision: 2}
 
 	bufferSize = format.SampleRate.N(time.Second / 10)
-- 
2.43.0


From dfae74a91d814d1202b687218b0e1a3f66513369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 17/37] fix: do not turn the loudest samples into the most
 negative ones

---
 playback/playback.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/playback/playback.go b/playback/playback.go
index ff24494..c61c85a 100644
--- a/playback/playback.go
+++ b/playback/playback.go
@@ -7,6 +7,7 @@ import (
 	"context"
 	"fmt"
 	"github.com/LogicalOverflow/music-sync/util"
+	"math"
 	"os"
 	"path"
 	"time"
@@ -144,7 +145,7 @@ func convertSampleToBytes(val float64) (low, high byte) {
 	if val > +1 {
 		val = +1
 	}
-	valInt16 := int16(val * (1 << 15))
+	valInt16 := int16(math.Min(val*(1<<15), math.MaxInt16))
 	low = byte(valInt16)
 	high = byte(valInt16 >> 8)
 	return
-- 
2.43.0


From 294241ca0f80636461cc4ab3b4dfb463064faddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 18/37] fix: align the start of playback to the sample

---
 playback/streamer.go | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/playback/streamer.go b/playback/streamer.go
index b19e288..dea4e92 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -28,19 +28,14 @@ type timedMultiStreamer struct {
 func (tms *timedMultiStreamer) Stream(samples [][2]float64) {
 	var n int
 	var drained bool
-	now := timing.GetSyncedTime()
-	for 0 < len(samples) {
+	for done := 0; done < len(samples); done += n {
 		if tms.syncing {
-			n, drained = tms.streamSync(samples, now)
+			n, drained = tms.streamSync(samples[done:], tms.samplesDuration(done))
 		} else {
-			n, drained = tms.streamDirect(samples)
+			n, drained = tms.streamDirect(samples[done:])
 		}
-		now += tms.samplesDuration(n)
-		samples = samples[n:]
 		if drained {
 			tms.syncing = !tms.syncing
-			_, t := tms.samples.Peek()
-			logger.Debugf("playback error: %s", time.Duration(t-now)*time.Nanosecond)
 		}
 	}
 }
@@ -56,26 +51,25 @@ func (tms *timedMultiStreamer) streamDirect(samples [][2]float64) (n int, draine
 	return len(samples), false
 }
 
-func (tms *timedMultiStreamer) streamSync(samples [][2]float64, now int64) (n int, drained bool) {
+// streamSync streams silence until the next sample is due and drops the samples which were due already.
+// delay is the duration of the samples to be played before the ones streamed by this call.
+func (tms *timedMultiStreamer) streamSync(samples [][2]float64, delay int64) (n int, drained bool) {
 	s, t := tms.samples.Peek()
-	for math.IsNaN(s[0]) {
+	now := timing.GetSyncedTime() + delay // Peek may have waited
+	for math.IsNaN(s[0]) || t < now {
 		tms.samples.Remove()
 		s, t = tms.samples.Peek()
+		now = timing.GetSyncedTime() + delay
 	}
-	if now < t+tms.samplesDuration(len(samples)) {
+
+	silence := tms.samplesCount(t - now)
+	if len(samples) <= silence {
 		tms.background.Stream(samples)
 		return len(samples), false
-	} else if now < t {
-		silence := tms.samplesCount(t - now)
-		tms.background.Stream(samples[:silence])
-		return silence, true
-	} else {
-		for t < now {
-			tms.samples.Remove()
-			_, t = tms.samples.Peek()
-		}
-		return 0, true
 	}
+	tms.background.Stream(samples[:silence])
+	logger.Debugf("playback error: %s", time.Duration(t-now)*time.Nanosecond-tms.format.SampleRate.D(silence))
+	return silence, true
 }
 
 func (tms *timedMultiStreamer) ReadChunks(ctx context.Context) {
-- 
2.43.0


From a58abe5042c36553e02a08669cf5dcbe8d29df04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 19/37] fix: sync the time using exactly the responses of the
 current round

---
 schedule/infoer.go |  2 +-
 timing/timing.go   | 40 +++++++++++++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/schedule/infoer.go b/schedule/infoer.go
index eb4fa0e..cd29159 100644
--- a/schedule/infoer.go
+++ b/schedule/infoer.go
@@ -26,7 +26,7 @@ func Infoer(sender comm.MessageSender) {
 
 func syncTime(sender comm.MessageSender) {
 	logger.Infof("syncing time")
-	timing.ResetOffsets(TimeSyncCycles)
+	timing.StartRound(TimeSyncCycles)
 	for i := 0; i < TimeSyncCycles; i++ {
 		if err := sender.SendMessage(&comm.TimeSyncRequest{ClientSend: timing.GetRawTime()}); err != nil {
 			logger.Warnf("failed to send sync time request: %v", err)
diff --git a/timing/timing.go b/timing/timing.go
index 6ac7ec1..f805354 100644
--- a/timing/timing.go
+++ b/timing/timing.go
@@ -4,18 +4,26 @@ package timing
 import (
 	"github.com/LogicalOverflow/music-sync/logging"
 	"github.com/aristanetworks/goarista/monotime"
+	"math"
 	"math/big"
 	"sync"
 )
 
 var logger = log.GetLogger("time")
 
-var offset int64
-var offsets = make([]int64, 0)
-var offsetsMutex sync.Mutex
+var (
+	offset int64
+	synced bool
+
+	offsets      = make([]int64, 0)
+	roundStart   int64 // requests sent earlier belong to a previous round
+	offsetsMutex sync.RWMutex
+)
 
 // GetSyncedTime returns the current time, sync to the sever, with nanosecond precision
 func GetSyncedTime() int64 {
+	offsetsMutex.RLock()
+	defer offsetsMutex.RUnlock()
 	return int64(monotime.Now()) + offset
 }
 
@@ -24,11 +32,27 @@ func GetRawTime() int64 {
 	return int64(monotime.Now())
 }
 
+// Synced returns true once the time was synced to the server
+func Synced() bool {
+	offsetsMutex.RLock()
+	defer offsetsMutex.RUnlock()
+	return synced
+}
+
+// StartRound starts a round of cap requests to sync the time, ignoring all responses to earlier requests
+func StartRound(cap int) {
+	offsetsMutex.Lock()
+	defer offsetsMutex.Unlock()
+	offsets = make([]int64, 0, cap)
+	roundStart = GetRawTime()
+}
+
 // ResetOffsets clears the slice holding offsets by replacing it with an empty slice with cap as capacity
 func ResetOffsets(cap int) {
 	offsetsMutex.Lock()
+	defer offsetsMutex.Unlock()
 	offsets = make([]int64, 0, cap)
-	offsetsMutex.Unlock()
+	roundStart = math.MinInt64
 }
 
 // UpdateOffset handles the four timestamps used to synchronize time to the server
@@ -37,18 +61,20 @@ func UpdateOffset(clientSend, serverRecv, serverSend, clientRecv int64) {
 
 	calcOffset := ((serverRecv - clientSend) + (serverSend - clientRecv)) / 2
 	offsetsMutex.Lock()
+	defer offsetsMutex.Unlock()
+	if clientSend < roundStart || len(offsets) == cap(offsets) {
+		return
+	}
 	offsets = append(offsets, calcOffset)
-	offsetsMutex.Unlock()
 
 	if len(offsets) == cap(offsets) {
-		offsetsMutex.Lock()
 		avg := big.NewInt(0)
 		for _, o := range offsets {
 			avg = new(big.Int).Add(avg, big.NewInt(o))
 		}
 		avg = new(big.Int).Div(avg, big.NewInt(int64(len(offsets))))
 		offset = avg.Int64()
-		offsetsMutex.Unlock()
+		synced = true
 		logger.Infof("time synced: offset: %d", offset)
 	}
 }
-- 
2.43.0


From b84af3d301f453d9f488707d68d6242941b5cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 20/37] fix: play nothing before the time is synced

---
 playback/streamer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/playback/streamer.go b/playback/streamer.go
index dea4e92..171f033 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -26,6 +26,11 @@ type timedMultiStreamer struct {
 }
 
 func (tms *timedMultiStreamer) Stream(samples [][2]float64) {
+	if !timing.Synced() { // there is no telling when samples are due
+		tms.background.Stream(samples)
+		return
+	}
+
 	var n int
 	var drained bool
 	for done := 0; done < len(samples); done += n {
-- 
2.43.0


From 18bdb4909b686723daa0b8fb02d156d3b1b0cb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 21/37] fix: keep non-ASCII characters and escaped blanks and
 backslashes of command lines

---
 ssh/parser/parser.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index 0fe4056..b4c98f6 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -5,6 +5,7 @@ import (
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 	"reflect"
 	"strings"
+	"unicode/utf8"
 )
 
 func getParser(line string) *shell_parser.ShellParser {
@@ -21,17 +22,24 @@ type ParsedCommand struct {
 	Parameters []string
 }
 
+var escaper = strings.NewReplacer("\\", "\\\\", " ", "\\ ")
+
+// Escape escapes a word, so it is parsed as (a part of) a single word
+func Escape(word string) string {
+	return escaper.Replace(word)
+}
+
 // Unparse converts a parsed command back to a shell command
 func (c ParsedCommand) Unparse() string {
 	if len(c.Parameters) == 0 {
-		return strings.Replace(c.Command, " ", "\\ ", -1) + " "
+		return Escape(c.Command) + " "
 	}
 	unparsedParams := make([]string, len(c.Parameters))
 	for i, p := range c.Parameters {
-		unparsedParams[i] = strings.Replace(p, " ", "\\ ", -1)
+		unparsedParams[i] = Escape(p)
 	}
 
-	return strings.Replace(c.Command, " ", "\\ ", -1) + " " + strings.Join(unparsedParams, " ") + " "
+	return Escape(c.Command) + " " + strings.Join(unparsedParams, " ") + " "
 }
 
 // ParseCommand parses an ssh command
@@ -62,8 +70,9 @@ func (s *shellListener) EnterCommandString(ctx *shell_parser.CommandStringContex
 }
 
 func (s *shellListener) ExitCharacter(ctx *shell_parser.CharacterContext) {
-	if len(ctx.GetText()) != 0 {
-		s.currentString += string(ctx.GetText()[len(ctx.GetText())-1])
+	if text := ctx.GetText(); len(text) != 0 {
+		_, size := utf8.DecodeLastRuneInString(text)
+		s.currentString += text[len(text)-size:]
 	}
 }
 
@@ -89,10 +98,3 @@ func (s *shellListener) ExitParameter(ctx *shell_parser.ParameterContext) {
 		s.cmd.Parameters = append(s.cmd.Parameters, str)
 	}
 }
-
-func (s *shellListener) ExitLine(ctx *shell_parser.LineContext) {
-	s.cmd.Command = strings.TrimSpace(s.cmd.Command)
-	for i := range s.cmd.Parameters {
-		s.cmd.Parameters[i] = strings.TrimSpace(s.cmd.Parameters[i])
-	}
-}
-- 
2.43.0


From ef2eea5ed428b49a66c36c80b05fb04adb7a6eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 22/37] fix: parse command lines of concurrent sessions one at
 a time

---
 ssh/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ssh/parser/parser.go b/ssh/parser/parser.go
index b4c98f6..bb6b3c9 100644
--- a/ssh/parser/parser.go
+++ b/ssh/parser/parser.go
@@ -5,9 +5,13 @@ import (
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 	"reflect"
 	"strings"
+	"sync"
 	"unicode/utf8"
 )
 
+// parserMutex guards the prediction caches all parsers share
+var parserMutex sync.Mutex
+
 func getParser(line string) *shell_parser.ShellParser {
 	inputStream := antlr.NewInputStream(line)
 	lexer := shell_parser.NewShellLexer(inputStream)
@@ -44,6 +48,8 @@ func (c ParsedCommand) Unparse() string {
 
 // ParseCommand parses an ssh command
 func ParseCommand(line string) ParsedCommand {
+	parserMutex.Lock()
+	defer parserMutex.Unlock()
 	p := getParser(line)
 	tree := p.Line()
 	listener := newShellListener()
-- 
2.43.0


From 2a64f57ea9a2a199736c0af7bec3f65f6ed72d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 23/37] fix: complete the word at the cursor, whatever the line
 contains

---
 ssh/auto_completer.go | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/ssh/auto_completer.go b/ssh/auto_completer.go
index 24519a8..32d20ef 100644
--- a/ssh/auto_completer.go
+++ b/ssh/auto_completer.go
@@ -7,29 +7,37 @@ import (
 
 type sshAutoCompleter struct{}
 
+// wordEnd is put after the typed text when parsing it, so the word being typed is never empty
+const wordEnd = "x"
+
 func (sac *sshAutoCompleter) Do(line []rune, pos int) (newLine [][]rune, length int) {
 	newLine = make([][]rune, 0)
+	length = pos
 
-	lastChar := '\x00'
-	if len(line) != 0 {
-		lastChar = line[len(line)-1]
-	}
-
-	cmd := parser.ParseCommand(string(line))
-	if lastChar == ' ' {
-		cmd.Parameters = append(cmd.Parameters, "")
-	}
-
-	if len(cmd.Parameters) == 0 && lastChar != ' ' {
-		newLine = sac.commandsWithPrefix(cmd, pos, newLine)
+	typed := string(line[:pos])
+	cmd := parser.ParseCommand(typed + wordEnd)
+	if len(cmd.Parameters) == 0 {
+		cmd.Command = strings.TrimSuffix(cmd.Command, wordEnd)
+		newLine = sac.commandsWithPrefix(cmd, newLine)
 	} else {
+		argNum := len(cmd.Parameters) - 1
+		cmd.Parameters[argNum] = strings.TrimSuffix(cmd.Parameters[argNum], wordEnd)
 		newLine = sac.commandArgOptionsWithPrefix(cmd, pos, newLine)
 	}
 
-	length = pos
+	if endsInEscape(typed) {
+		for i := range newLine {
+			newLine[i] = append([]rune{'\\'}, newLine[i]...)
+		}
+	}
 	return
 }
 
+// endsInEscape returns true, if the last character of line is a backslash escaping the character put after it
+func endsInEscape(line string) bool {
+	return (len(line)-len(strings.TrimRight(line, "\\")))%2 == 1
+}
+
 func (sac *sshAutoCompleter) commandNames() []string {
 	cs := []string{"clear", "exit"}
 	for _, c := range commands {
@@ -38,10 +46,10 @@ func (sac *sshAutoCompleter) commandNames() []string {
 	return cs
 }
 
-func (sac *sshAutoCompleter) commandsWithPrefix(cmd parser.ParsedCommand, pos int, result [][]rune) [][]rune {
+func (sac *sshAutoCompleter) commandsWithPrefix(cmd parser.ParsedCommand, result [][]rune) [][]rune {
 	for _, c := range sac.commandNames() {
 		if strings.HasPrefix(c, cmd.Command) {
-			result = append(result, []rune((c + " ")[pos:]))
+			result = append(result, []rune(parser.Escape(c[len(cmd.Command):])+" "))
 		}
 	}
 	return result
@@ -53,10 +61,8 @@ func (sac *sshAutoCompleter) commandArgOptionsWithPrefix(cmd parser.ParsedComman
 		argNum := len(cmd.Parameters) - 1
 		arg := cmd.Parameters[argNum]
 		for _, o := range sac.filterByPrefix(c.Options(arg, argNum), arg) {
-			cmd.Parameters[argNum] = o
-			result = append(result, []rune(cmd.Unparse())[pos:])
+			result = append(result, []rune(parser.Escape(o[len(arg):])+" "))
 		}
-		cmd.Parameters[argNum] = arg
 	}
 	return result
 }
-- 
2.43.0


From 9fd760ab214dcf28e8c6de6b29dfc3df86e5168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 24/37] fix: name songs relative to the music directory however
 it is spelled, and find files by their exact name

---
 util/file_utils.go | 72 ++++++++++++++++++++++++----------------------
 1 file changed, 38 insertions(+), 34 deletions(-)

diff --git a/util/file_utils.go b/util/file_utils.go
index f8b27c7..6379d33 100644
--- a/util/file_utils.go
+++ b/util/file_utils.go
@@ -19,70 +19,74 @@ func FilterSongs(files []string) []string {
 	return result
 }
 
-func walker(root string, pathTransform func(string) string, pathFilter func(string, os.FileInfo) bool) []string {
+// walker lists everything below sub directory subDir of root (named relative to root), that passes the filter
+func walker(root, subDir string, pathFilter func(string, os.FileInfo) bool) []string {
 	walked := make([]string, 0)
-	filepath.Walk(root, func(path string, f os.FileInfo, err error) error {
+	// the trailing separator makes Walk follow a link
+	start := songPath(root, subDir) + string(os.PathSeparator)
+	filepath.Walk(start, func(path string, f os.FileInfo, err error) error {
 		if err != nil {
-			return err
+			return nil
 		}
-		path = pathTransform(path)
-		if pathFilter(path, f) {
-			walked = append(walked, path)
+		if name := relativeName(root, path); name != "" && pathFilter(path, f) {
+			walked = append(walked, name)
 		}
 		return nil
 	})
 	return walked
 }
 
-func removeDirPrefix(path string, prefix string) string {
-	if strings.HasPrefix(path, prefix) {
-		path = path[len(prefix):]
-	}
-	if strings.HasPrefix(path, "/") || strings.HasPrefix(path, "\\") {
-		path = path[1:]
+// songPath returns the path of name below dir, never leaving dir
+func songPath(dir, name string) string {
+	return filepath.Join(dir, filepath.Join(string(os.PathSeparator), name))
+}
+
+// relativeName returns the name of path relative to dir or an empty string, if it is dir itself or not below it
+func relativeName(dir, path string) string {
+	name, err := filepath.Rel(filepath.Clean(dir), path)
+	if err != nil || name == "." {
+		return ""
 	}
-	return path
+	return name
 }
 
 // ListAllFiles recursively lists all files in songsDir/subDir
 func ListAllFiles(songsDir string, subDir string) []string {
-	dir := songsDir
-	if subDir != "" {
-		dir = filepath.Join(songsDir, subDir)
-	}
-
-	return walker(dir, func(path string) string {
-		return removeDirPrefix(path, songsDir)
-	}, func(path string, f os.FileInfo) bool {
-		return path != "" && !f.IsDir()
+	return walker(songsDir, subDir, func(path string, f os.FileInfo) bool {
+		return !f.IsDir() && IsFile(path)
 	})
 }
 
 // ListAllSubDirs recursively lists all directories in dir
 func ListAllSubDirs(dir string) []string {
-	return walker(dir, func(path string) string {
-		return removeDirPrefix(path, dir)
-	}, func(path string, f os.FileInfo) bool {
-		return path != "" && f.IsDir()
+	return walker(dir, "", func(_ string, f os.FileInfo) bool {
+		return f.IsDir()
 	})
 }
 
-// ListGlobFiles lists all files in a directory matching the provided glob pattern
+var globEscaper = strings.NewReplacer("\\", "\\\\", "*", "\\*", "?", "\\?", "[", "\\[")
+
+// ListGlobFiles lists the file named by pattern, if there is one, otherwise all files in a directory matching the
+// provided glob pattern
 func ListGlobFiles(dir, pattern string) ([]string, error) {
-	matches, err := filepath.Glob(filepath.Join(dir, pattern))
+	if path := songPath(dir, pattern); IsFile(path) {
+		return []string{relativeName(dir, path)}, nil
+	}
+
+	escapedDir := filepath.Clean(dir)
+	if os.PathSeparator != '\\' {
+		escapedDir = globEscaper.Replace(escapedDir)
+	}
+	matches, err := filepath.Glob(songPath(escapedDir, pattern))
 	if err != nil {
 		return []string{}, err
 	}
-	if matches == nil || len(matches) == 0 {
-		return []string{}, nil
-	}
 
 	result := make([]string, 0, len(matches))
 	for _, m := range matches {
-		if !IsFile(m) {
-			continue
+		if IsFile(m) {
+			result = append(result, relativeName(dir, m))
 		}
-		result = append(result, removeDirPrefix(m, dir))
 	}
 	return result, nil
 }
-- 
2.43.0


From 02d1166f963813748ab8500d170c3f7159534e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 25/37] fix: display no pause before the first sample is due,
 and changes from the sample they start at

---
 cmd/music-sync-infoer/state.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/music-sync-infoer/state.go b/cmd/music-sync-infoer/state.go
index cba440d..8616a83 100644
--- a/cmd/music-sync-infoer/state.go
+++ b/cmd/music-sync-infoer/state.go
@@ -75,7 +75,7 @@ type pausesInCurrentSongState struct {
 }
 
 func (picss *pausesInCurrentSongState) handlePause(sample int64, p pauseToggle, startIndex uint64) {
-	if uint64(sample) <= p.toggleIndex || picss.playing == p.playing {
+	if sample < int64(p.toggleIndex) || picss.playing == p.playing {
 		return
 	}
 
@@ -137,7 +137,7 @@ func (s *state) currentSong(sample int64) (currentSong upcomingSong) {
 
 	currentSong = upcomingSong{filename: "None", startIndex: 0, length: 0}
 	for i := len(s.Songs) - 1; 0 <= i; i-- {
-		if int64(s.Songs[i].startIndex) < sample {
+		if int64(s.Songs[i].startIndex) <= sample {
 			currentSong = s.Songs[i]
 			break
 		}
-- 
2.43.0


From dad703fb6d7091d9b0b27a8b1e3abbbf22af4cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 26/37] fix: apply the logging flags of the components

---
 cmd/flags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/flags.go b/cmd/flags.go
index 81bc75d..5235155 100644
--- a/cmd/flags.go
+++ b/cmd/flags.go
@@ -70,7 +70,7 @@ func newLoggingFlag(name string) LoggingFlag {
 	}
 	levels := strings.Join(l, ", ")
 
-	return LoggingFlag{StringFlag: cli.StringFlag{
+	return LoggingFlag{logName: name, StringFlag: cli.StringFlag{
 		Name:  fmt.Sprintf("%s-logging", name),
 		Usage: fmt.Sprintf("sets %s logging level (values: %s)", name, levels),
 	}}
@@ -82,7 +82,7 @@ func HandleLoggingFlags(ctx *cli.Context) {
 		levelName := ctx.String(FlagKey(f))
 		if levelName != "" {
 			level := log.LevelByName(levelName)
-			log.CutoffLevels[f.Name] = level
+			log.CutoffLevels[f.logName] = level
 		}
 	}
 	defaultLevelName := ctx.String("logging")
-- 
2.43.0


From 31d2cdb10ddd0999c876dae34a918148771960b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 27/37] fix: draw non-ASCII text without gaps

---
 cmd/music-sync-infoer/drawing.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index 7dbd956..46e37ec 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/gdamore/tcell"
 	"math"
+	"unicode"
 )
 
 type drawer struct {
@@ -29,8 +30,12 @@ func (d *drawer) eventLoop() {
 }
 
 func (d *drawer) drawString(x, y int, style tcell.Style, str string) {
-	for i, r := range str {
-		d.SetContent(x+i, y, r, nil, style)
+	for _, r := range str {
+		d.SetContent(x, y, r, nil, style)
+		x++
+		if unicode.In(r, unicode.Han, unicode.Hangul, unicode.Hiragana, unicode.Katakana) {
+			x++ // takes two columns
+		}
 	}
 }
 
-- 
2.43.0


From d6629226b286e684df23a3d21229aa5f545d89b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 28/37] fix: keep readline from crashing when it shows
 completions of wide characters

---
 ssh/auto_completer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ssh/auto_completer.go b/ssh/auto_completer.go
index 32d20ef..4c8b64d 100644
--- a/ssh/auto_completer.go
+++ b/ssh/auto_completer.go
@@ -2,6 +2,7 @@ package ssh
 
 import (
 	"github.com/LogicalOverflow/music-sync/ssh/parser"
+	"github.com/chzyer/readline"
 	"strings"
 )
 
@@ -13,6 +14,10 @@ const wordEnd = "x"
 func (sac *sshAutoCompleter) Do(line []rune, pos int) (newLine [][]rune, length int) {
 	newLine = make([][]rune, 0)
 	length = pos
+	// readline crashes, if what it shows before each completion is wider than it is long
+	for (readline.Runes{}).WidthAll(line[pos-length:pos]) > length {
+		length--
+	}
 
 	typed := string(line[:pos])
 	cmd := parser.ParseCommand(typed + wordEnd)
-- 
2.43.0


From 594378aaf4384d4ef784d5461bcbf83d9c137780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 29/37] fix: keep operators' keys from suspending or crashing
 the server

---
 ssh/session_handler.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index d6e539c..13129d8 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -66,7 +66,8 @@ func (s *session) createReadlineConfig() {
 		InterruptPrompt: "^C",
 		EOFPrompt:       "exit",
 
-		FuncGetWidth: func() int { return s.width },
+		FuncGetWidth:        s.terminalWidth,
+		FuncFilterInputRune: s.filterKey,
 
 		Stdin:       s,
 		Stdout:      s,
@@ -77,6 +78,29 @@ func (s *session) createReadlineConfig() {
 	}
 }
 
+// minTerminalWidth is the width of the narrowest terminal there is room for the prompt in
+const minTerminalWidth = 20
+
+// terminalWidth returns the width of the terminal, but never less than readline can cope with
+func (s *session) terminalWidth() int {
+	if s.width < minTerminalWidth {
+		return minTerminalWidth
+	}
+	return s.width
+}
+
+// filterKey drops the keys which would affect more than the session: readline suspends the server on ctrl-z, and crashes
+// on some other keys
+func (s *session) filterKey(key rune) (rune, bool) {
+	switch key {
+	case readline.CharCtrlZ, readline.CharTranspose, readline.CharBckSearch, readline.CharFwdSearch:
+		return key, false
+	case readline.CharKill, readline.CharLineStart, readline.CharLineEnd, readline.CharNext, readline.CharPrev:
+		return key, !s.ex.Operation.IsInCompleteSelectMode()
+	}
+	return key, true
+}
+
 func (s *session) handleLine(line string) bool {
 	cmd := parser.ParseCommand(line)
 
-- 
2.43.0


From 909bd5c971e5eb71c24722568b1d8699f3866921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:44 +0000
Subject: [PATCH 30/37] fix: do not hold back the end of a song until its break
 is over

---
 playback/streamer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/playback/streamer.go b/playback/streamer.go
index 171f033..f25c635 100644
--- a/playback/streamer.go
+++ b/playback/streamer.go
@@ -61,7 +61,9 @@ func (tms *timedMultiStreamer) streamDirect(samples [][2]float64) (n int, draine
 func (tms *timedMultiStreamer) streamSync(samples [][2]float64, delay int64) (n int, drained bool) {
 	s, t := tms.samples.Peek()
 	now := timing.GetSyncedTime() + delay // Peek may have waited
-	for math.IsNaN(s[0]) || t < now {
+	end := tms.samplesDuration(len(samples))
+	// the rest of a break is left for later buffers: waiting for what follows it would hold back this one
+	for t < now || math.IsNaN(s[0]) && t < now+end {
 		tms.samples.Remove()
 		s, t = tms.samples.Peek()
 		now = timing.GetSyncedTime() + delay
-- 
2.43.0


From f95561f69f1e0a8e267e499f52b4a8d3a546c6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:26 +0000
Subject: [PATCH 31/37] fix: display time and progress of a song which starts
 with the stream

---
 cmd/music-sync-infoer/state.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/music-sync-infoer/state.go b/cmd/music-sync-infoer/state.go
index 8616a83..10f847c 100644
--- a/cmd/music-sync-infoer/state.go
+++ b/cmd/music-sync-infoer/state.go
@@ -38,6 +38,9 @@ func (s songsByStartIndex) Len() int           { return len(s) }
 func (s songsByStartIndex) Less(i, j int) bool { return s[i].startIndex < s[j].startIndex }
 func (s songsByStartIndex) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }
 
+// noSong is displayed while there is no song
+const noSong = "None"
+
 func (s *state) Info(now int64) *playbackInformation {
 	sample := s.currentSample(now)
 	currentSong := s.currentSong(sample)
@@ -47,7 +50,7 @@ func (s *state) Info(now int64) *playbackInformation {
 	var songLength, timeInSong time.Duration
 	var progressInSong float64
 
-	if currentSong.startIndex != 0 && int64(currentSong.startIndex) < sample {
+	if currentSong.filename != noSong && int64(currentSong.startIndex) <= sample {
 		sampleInSong := sample - int64(currentSong.startIndex) - pausesInCurrentSong
 		timeInSong = time.Duration(sampleInSong) * time.Second / time.Duration(schedule.SampleRate) / time.Nanosecond
 		if 0 < currentSong.length {
@@ -135,7 +138,7 @@ func (s *state) currentSong(sample int64) (currentSong upcomingSong) {
 	s.SongsMutex.Lock()
 	defer s.SongsMutex.Unlock()
 
-	currentSong = upcomingSong{filename: "None", startIndex: 0, length: 0}
+	currentSong = upcomingSong{filename: noSong, startIndex: 0, length: 0}
 	for i := len(s.Songs) - 1; 0 <= i; i-- {
 		if int64(s.Songs[i].startIndex) <= sample {
 			currentSong = s.Songs[i]
-- 
2.43.0


From 7b4ecbd671ba9e37ae4dc52891dcb18a0bff4dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:04 +0000
Subject: [PATCH 32/37] fix: advance by the columns a character takes on the
 display

---
 cmd/music-sync-infoer/drawing.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index 46e37ec..3a384d5 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"github.com/gdamore/tcell"
 	"math"
-	"unicode"
 )
 
 type drawer struct {
@@ -32,9 +31,10 @@ func (d *drawer) eventLoop() {
 func (d *drawer) drawString(x, y int, style tcell.Style, str string) {
 	for _, r := range str {
 		d.SetContent(x, y, r, nil, style)
-		x++
-		if unicode.In(r, unicode.Han, unicode.Hangul, unicode.Hiragana, unicode.Katakana) {
-			x++ // takes two columns
+		if _, _, _, width := d.GetContent(x, y); 1 < width {
+			x += width // takes more columns
+		} else {
+			x++
 		}
 	}
 }
-- 
2.43.0


From d38c4a46a172c47576e9bc0af4ed21a80cdfe0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:56 +0000
Subject: [PATCH 33/37] fix: keep accepting connections after a temporary
 failure

---
 comm/conn_handler.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/comm/conn_handler.go b/comm/conn_handler.go
index 58ecd61..b6d88a4 100644
--- a/comm/conn_handler.go
+++ b/comm/conn_handler.go
@@ -6,6 +6,7 @@ import (
 	"github.com/golang/protobuf/proto"
 	"net"
 	"os"
+	"time"
 )
 
 type packageHandler interface {
@@ -46,10 +47,23 @@ func StartServer(address string) (MessageSender, error) {
 	return mms, nil
 }
 
+// acceptRetryDelay is the time to wait before accepting connections again after a temporary failure
+const acceptRetryDelay = 100 * time.Millisecond
+
+func isTemporary(err error) bool {
+	netErr, ok := err.(net.Error)
+	return ok && netErr.Temporary()
+}
+
 func serverConnectionAcceptor(mms *multiMessageSender, l net.Listener) {
 	h := newServerPackageHandler(mms)
 	for {
 		conn, err := l.Accept()
+		if isTemporary(err) { // for example, there are too many connections
+			logger.Warnf("failed to accept connection, trying again: %v", err)
+			time.Sleep(acceptRetryDelay)
+			continue
+		}
 		if err != nil {
 			logger.Fatalf("failed to accept connection: %v", err)
 			break
-- 
2.43.0


From d265d55304ca9a3624d8fed6eb6a5120e34d5309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:14 +0000
Subject: [PATCH 34/37] fix: end the display if it cannot connect to the server

---
 cmd/music-sync-infoer/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/music-sync-infoer/main.go b/cmd/music-sync-infoer/main.go
index 32f37a4..0047fe7 100644
--- a/cmd/music-sync-infoer/main.go
+++ b/cmd/music-sync-infoer/main.go
@@ -53,7 +53,8 @@ func run(ctx *cli.Context) error {
 	server := fmt.Sprintf("%s:%d", serverAddress, serverPort)
 	sender, err := comm.ConnectToServer(server, newInfoerPackageHandler())
 	if err != nil {
-		cli.NewExitError(err, 1)
+		s.Fini()
+		return cli.NewExitError(err, 1)
 	}
 
 	go schedule.Infoer(sender)
-- 
2.43.0


From acfe1ea125daff373e6513a76b0822425e6fa884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:43 +0000
Subject: [PATCH 35/37] fix: give the terminal back when a display ends with
 its connection

---
 cmd/music-sync-infoer/drawing.go |  2 ++
 cmd/music-sync-infoer/main.go    |  1 +
 comm/conn_handler.go             | 13 ++++++++++++-
 schedule/infoer.go               |  3 +--
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/cmd/music-sync-infoer/drawing.go b/cmd/music-sync-infoer/drawing.go
index 3a384d5..7a8ee7b 100644
--- a/cmd/music-sync-infoer/drawing.go
+++ b/cmd/music-sync-infoer/drawing.go
@@ -22,6 +22,8 @@ func (d *drawer) eventLoop() {
 		case *tcell.EventResize:
 			d.Sync()
 			d.w, d.h = d.Size()
+		case nil: // the screen ended, as the connection to the server did, which exits
+			select {}
 		default:
 			panic(fmt.Sprintf("%T", ev))
 		}
diff --git a/cmd/music-sync-infoer/main.go b/cmd/music-sync-infoer/main.go
index 0047fe7..ab907c7 100644
--- a/cmd/music-sync-infoer/main.go
+++ b/cmd/music-sync-infoer/main.go
@@ -49,6 +49,7 @@ func run(ctx *cli.Context) error {
 	schedule.SampleRate = sampleRate
 
 	s := createTcellScreen()
+	comm.BeforeExit = s.Fini
 
 	server := fmt.Sprintf("%s:%d", serverAddress, serverPort)
 	sender, err := comm.ConnectToServer(server, newInfoerPackageHandler())
diff --git a/comm/conn_handler.go b/comm/conn_handler.go
index b6d88a4..5baac0e 100644
--- a/comm/conn_handler.go
+++ b/comm/conn_handler.go
@@ -79,6 +79,17 @@ func serverConnectionAcceptor(mms *multiMessageSender, l net.Listener) {
 	}
 }
 
+// BeforeExit, if set, is called before exiting because of the connection to the master
+var BeforeExit func()
+
+// Exit exits, as the connection to the master is of no use any more
+func Exit() {
+	if BeforeExit != nil {
+		BeforeExit()
+	}
+	os.Exit(1)
+}
+
 // ConnectToServer connects to the server at server and returns a MessageSender to communicate with the master
 func ConnectToServer(master string, handler TypedPackageHandler) (MessageSender, error) {
 	logger.Infof("connecting to master at %s", master)
@@ -91,7 +102,7 @@ func ConnectToServer(master string, handler TypedPackageHandler) (MessageSender,
 	go func() {
 		handleConnection(conn, handler)
 		logger.Fatalf("connection to master closed")
-		os.Exit(1)
+		Exit()
 	}()
 	return &singleMessageSender{connection: conn}, nil
 }
diff --git a/schedule/infoer.go b/schedule/infoer.go
index cd29159..f6f50b0 100644
--- a/schedule/infoer.go
+++ b/schedule/infoer.go
@@ -3,7 +3,6 @@ package schedule
 import (
 	"github.com/LogicalOverflow/music-sync/comm"
 	"github.com/LogicalOverflow/music-sync/timing"
-	"os"
 	"time"
 )
 
@@ -19,7 +18,7 @@ func Infoer(sender comm.MessageSender) {
 	go func() {
 		if err := sender.SendMessage(&comm.SubscribeChannelRequest{Channel: comm.Channel_META}); err != nil {
 			logger.Errorf("failed to subscribe to meta channel")
-			os.Exit(1)
+			comm.Exit()
 		}
 	}()
 }
-- 
2.43.0


From 3c1e1a7a0735e210489fd0f7c6a539532d5100f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:14 +0000
Subject: [PATCH 36/37] fix: name the host key flag and default port correctly
 in the README

---
 README.md | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 07ba498..9d42d75 100644
--- a/README.md
+++ b/README.md
@@ -53,11 +53,11 @@ If you want, you can add lyrics information to your songs. To add lyrics to a so
 Here, timestamps are in milliseconds from the start of the song, each array describes a line of lyrics and each object in those arrays a word/phrase/syllable in the lyrics.
 
 Then you can start a local music-sync-server using
-`music-sync-server`. By default, this server listens on `127.0.0.1:13333` (`--address`, `--port`) for clients and provides a ssh terminal on `127.0.0.1:13334` (`--ssh-address`, `--ssh-port`) to control the server. By default, the server checks in it's working directory for a file called `id_rsa` to use as a host key (`--host-key-file`). If this file is not found a new host key is generated on every startup. For more options check `music-sync-server --help`.
+`music-sync-server`. By default, this server listens on `127.0.0.1:13333` (`--address`, `--port`) for clients and provides a ssh terminal on `127.0.0.1:13334` (`--ssh-address`, `--ssh-port`) to control the server. By default, the server checks in it's working directory for a file called `id_rsa` to use as a host key (`--host-key`). If this file is not found a new host key is generated on every startup. For more options check `music-sync-server --help`.
 
-To start a player use `music-sync-player`. By default this tries to connect to a server at `127.0.0.1:1333` (`--address`, `--port`). For more options check `music-sync-player --help`.
+To start a player use `music-sync-player`. By default this tries to connect to a server at `127.0.0.1:13333` (`--address`, `--port`). For more options check `music-sync-player --help`.
 
-To get information about the current song playing and lyrics (if provided) in a terminal UI, you can use `music-sync-infoer`. By default this tries to connect to a server at  `127.0.0.1:1333` (`--address`, `--port`). For more options check `music-sync-infoer --help`.
+To get information about the current song playing and lyrics (if provided) in a terminal UI, you can use `music-sync-infoer`. By default this tries to connect to a server at  `127.0.0.1:13333` (`--address`, `--port`). For more options check `music-sync-infoer --help`.
 
 The ssh terminal on the server is used to control the server. The usernames and passwords are read from `users.json` (`--users-file`). You can manage the current playlist, pause and resume playback and set the playback volume for all clients. These commands are available:
  * `queue filename [position]` - Adds filename to the playlist at position or the end. You can use glob patterns to add multiple files.
-- 
2.43.0


From 809294f95fd80cbe90e2670be8fbbb192f9cf7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:41 +0000
Subject: [PATCH 37/37] fix: do not run a command line given up with ctrl-c

---
 ssh/session_handler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssh/session_handler.go b/ssh/session_handler.go
index 13129d8..45d532d 100644
--- a/ssh/session_handler.go
+++ b/ssh/session_handler.go
@@ -136,6 +136,7 @@ func (s *session) readLoop() {
 	for {
 		line, err := s.ex.Readline()
 		if err == readline.ErrInterrupt {
+			continue
 		} else if err == io.EOF {
 			logger.Infof("connection %s as %s closed", s.RemoteAddr(), s.User())
 			return
-- 
2.43.0

