From f5e158386f4d602d3c2b73b946cd6e9fdcb00988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 01/60] fix: do not act on an RTMP message whose payload failed
 to parse

---
 librtmp/message.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/librtmp/message.go b/librtmp/message.go
index f9d56a3..7db67dd 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 
 	"github.com/sbraveyoung/GGmpeg/libamf"
-	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/pkg/errors"
 )
 
@@ -201,7 +200,12 @@ func ParseMessage(rtmp *RTMP) (err error) {
 		}
 	}
 
-	return easyerrors.HandleMultiError(easyerrors.Simple(), message.Parse(), message.Do())
+	//Only act on a message that parsed: Do() works on the fields Parse()
+	//fills in, and those are unset when it fails.
+	if err = message.Parse(); err != nil {
+		return err
+	}
+	return message.Do()
 }
 
 // DiscardMessage consumes (and drops) a message whose type we don't
-- 
2.43.0


From 416c19f0ee383c0afd23ae78ae73c4067e899586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 02/60] fix: reject SetChunkSize and WindowAckSize payloads
 shorter than 4 bytes

---
 librtmp/control_message.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index a1dd3a2..d2b4d27 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -44,6 +44,9 @@ func (wasm *WindowAcknowledgeSizeMessage) Send() (err error) {
 }
 
 func (wasm *WindowAcknowledgeSizeMessage) Parse() (err error) {
+	if len(wasm.messagePayload) < 4 {
+		return fmt.Errorf("WindowAcknowledgeSize payload too short: %d", len(wasm.messagePayload))
+	}
 	wasm.AcknowledgementWindowSize = binary.BigEndian.Uint32(wasm.messagePayload)
 	fmt.Println("windowAcknowledgeSize:", wasm.AcknowledgementWindowSize)
 	return nil
@@ -232,6 +235,9 @@ func (scsm *SetChunkSizeMessage) Send() error {
 }
 
 func (scsm *SetChunkSizeMessage) Parse() (err error) {
+	if len(scsm.messagePayload) < 4 {
+		return fmt.Errorf("SetChunkSize payload too short: %d", len(scsm.messagePayload))
+	}
 	scsm.NewChunkSize = binary.BigEndian.Uint32(scsm.messagePayload)
 	fmt.Println("new chunk size of peer::", scsm.NewChunkSize)
 	return nil
-- 
2.43.0


From 9e7e2134326a706e02ca54783fd357400ed61e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:37 +0000
Subject: [PATCH 03/60] fix: check the AMF types of a command's name and
 transaction id

---
 librtmp/command_message.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index d814d54..0258579 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -117,8 +117,16 @@ func (cm *CommandMessage) Parse() (err error) {
 		fmt.Println("index:", index, " a.type:", reflect.TypeOf(a), " a.Value:", reflect.ValueOf(a))
 	}
 
-	cm.CommandName = array[0].(string)
-	cm.TranscationID = int(array[1].(float64))
+	name, ok := array[0].(string)
+	if !ok {
+		return errors.New("invalid command name")
+	}
+	txnID, ok := array[1].(float64)
+	if !ok {
+		return errors.New("invalid transaction id")
+	}
+	cm.CommandName = name
+	cm.TranscationID = int(txnID)
 	switch cm.CommandName {
 	case CONNECT:
 		_ = array[2]
-- 
2.43.0


From 25893ee39d796675b2ba865347495e36f8a32c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 04/60] fix: bound the payload length a WebSocket client may
 declare

---
 librtmp/websocket.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/librtmp/websocket.go b/librtmp/websocket.go
index 7506a9b..d084afa 100644
--- a/librtmp/websocket.go
+++ b/librtmp/websocket.go
@@ -36,6 +36,12 @@ const (
 	wsOpPong         wsOpcode = 0xA
 )
 
+// wsMaxFramePayload bounds what a client may send in one frame. Clients
+// only send control frames (125 bytes at most, RFC 6455 §5.5) and the
+// occasional small text message; the declared length is otherwise an
+// allocation of the peer's choosing.
+const wsMaxFramePayload = 1 << 20
+
 // wsConn is a thin server-side WebSocket connection. The caller owns
 // the underlying net.Conn lifetime.
 type wsConn struct {
@@ -155,6 +161,9 @@ func (ws *wsConn) readFrame() (wsOpcode, []byte, error) {
 		}
 	}
 
+	if plen > wsMaxFramePayload {
+		return 0, nil, fmt.Errorf("frame too large: %d bytes", plen)
+	}
 	payload := make([]byte, plen)
 	if _, err := io.ReadFull(ws.br, payload); err != nil {
 		return 0, nil, err
-- 
2.43.0


From 88c9bf5be6baa7d81142719a3717894e39c6c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 05/60] fix: reject negative and oversized Content-Length in
 RTSP requests

---
 librtsp/message.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/librtsp/message.go b/librtsp/message.go
index 0a1a222..73293fa 100644
--- a/librtsp/message.go
+++ b/librtsp/message.go
@@ -24,6 +24,10 @@ import (
 // and emit on outbound responses.
 const rtspVersion = "RTSP/1.0"
 
+// maxBodySize bounds a request body. The only bodies we consume are SDP
+// descriptions, a few kilobytes at most.
+const maxBodySize = 1 << 20
+
 // Request is one parsed RTSP request — methods reuse Go's
 // http.Header so callers can use Get / Set / Add idiomatically.
 type Request struct {
@@ -76,6 +80,9 @@ func ReadRequest(r *bufio.Reader) (*Request, error) {
 		if err != nil {
 			return nil, fmt.Errorf("bad Content-Length: %v", err)
 		}
+		if n < 0 || n > maxBodySize {
+			return nil, fmt.Errorf("bad Content-Length: %d", n)
+		}
 		body := make([]byte, n)
 		if _, err := io.ReadFull(r, body); err != nil {
 			return nil, err
-- 
2.43.0


From d16feda90202cc2a6297ed60be12f64ce6485ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 06/60] fix: bound the PMT pointer field by the packet payload

---
 libsrt/tsdemux.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 51d0ba4..c6a5add 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -136,6 +136,9 @@ func (d *Demuxer) parsePMT(payload []byte) {
 		return
 	}
 	pointer := int(payload[0])
+	if 1+pointer > len(payload) {
+		return
+	}
 	body := payload[1+pointer:]
 	if len(body) < 12 {
 		return
-- 
2.43.0


From bf4669416fa516973f916df3317abb33e3a32a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 07/60] fix: reassemble RTMP messages per chunk stream

Chunks of messages on different chunk streams may be interleaved; they
were all appended to whichever message had been started first.
---
 librtmp/chunk.go           |  4 ++++
 librtmp/control_message.go |  1 +
 librtmp/message.go         | 14 +++++++++++---
 librtmp/rtmp.go            |  1 +
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index c5e66c1..1baf1e2 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -175,6 +175,10 @@ func ParseChunk(rtmp *RTMP, message Message) (cp *Chunk, err error) {
 		return nil, err
 	}
 
+	if m := rtmp.partial[basicHeader.CsID]; m != nil {
+		message = m
+	}
+
 	messageHeader, err := parseChunkMessageHeader(rtmp, basicHeader, message == nil)
 	if err != nil {
 		return nil, err
diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index d2b4d27..bd3249f 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -286,6 +286,7 @@ func (am *AbortMessage) Do() error {
 	//Drop any partial message on the indicated chunk stream so the next
 	//chunk on that CSID starts a fresh message.
 	delete(am.rtmp.lastChunk, am.ChunkStreamID)
+	delete(am.rtmp.partial, am.ChunkStreamID)
 	return nil
 }
 
diff --git a/librtmp/message.go b/librtmp/message.go
index 7db67dd..d9a6096 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -114,13 +114,16 @@ func ParseMessage(rtmp *RTMP) (err error) {
 	var chunk *Chunk
 	var message Message
 
-	//read message payload from many chunks
+	//read message payload from many chunks. Chunks of different messages
+	//may be interleaved (RTMP 1.0 §5.3), each message on its own chunk
+	//stream, so the ones in flight are kept per csid.
 	for {
-		chunk, err = ParseChunk(rtmp, message)
+		chunk, err = ParseChunk(rtmp, nil)
 		if err != nil {
 			return err
 		}
 
+		message = rtmp.partial[chunk.CsID]
 		if message == nil {
 			mb := MessageBase{
 				rtmp:            rtmp,
@@ -129,7 +132,7 @@ func ParseMessage(rtmp *RTMP) (err error) {
 				messageType:     chunk.MessageType,
 				messageStreamID: chunk.MessageStreamID,
 				amf:             libamf.AMF0,
-				messagePayload:  make([]byte, 0, chunk.MessageLength),
+				messagePayload:  make([]byte, 0, len(chunk.Payload)),
 			}
 
 			switch chunk.MessageType {
@@ -184,8 +187,13 @@ func ParseMessage(rtmp *RTMP) (err error) {
 
 		message.Append(chunk)
 		if message.Done() {
+			delete(rtmp.partial, chunk.CsID)
 			break
 		}
+		if rtmp.partial == nil {
+			rtmp.partial = make(map[uint32]Message)
+		}
+		rtmp.partial[chunk.CsID] = message
 	}
 
 	//Track inbound bytes so we can send Window Acknowledgement messages
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index cc9ffc9..5f8a6d5 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -12,6 +12,7 @@ type RTMP struct {
 	readerConn       easyio.EasyReader
 	writerConn       easyio.EasyWriter
 	lastChunk        map[uint32]*Chunk //csid
+	partial          map[uint32]Message //csid, messages whose chunks are still arriving
 	peerMaxChunkSize uint32
 	ownMaxChunkSize  int
 	peer             string
-- 
2.43.0


From 4f14c2180975a9a7369eb28eabf75ad78af94cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:10 +0000
Subject: [PATCH 08/60] fix: reject a SetChunkSize of zero

---
 librtmp/control_message.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index bd3249f..97409a9 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -239,6 +239,11 @@ func (scsm *SetChunkSizeMessage) Parse() (err error) {
 		return fmt.Errorf("SetChunkSize payload too short: %d", len(scsm.messagePayload))
 	}
 	scsm.NewChunkSize = binary.BigEndian.Uint32(scsm.messagePayload)
+	//The size is at least 1 and its top bit is zero (RTMP 1.0 §5.4.1);
+	//with 0 no message would ever complete.
+	if scsm.NewChunkSize == 0 || scsm.NewChunkSize > 0x7FFFFFFF {
+		return fmt.Errorf("invalid chunk size: %d", scsm.NewChunkSize)
+	}
 	fmt.Println("new chunk size of peer::", scsm.NewChunkSize)
 	return nil
 }
-- 
2.43.0


From d192f31b76fe27d4dab5f11e71490d03902099d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:13 +0000
Subject: [PATCH 09/60] fix: write 3-byte chunk basic headers in the byte order
 they are read
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The csid is (third byte)*256 + (second byte) + 64 (RTMP 1.0 §5.3.1.1).
---
 librtmp/chunk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index 1baf1e2..67bc3e0 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -238,7 +238,7 @@ func (chunk *Chunk) Send(rtmp *RTMP) (err error) {
 	} else {
 		b = append(b, uint8(chunk.Fmt<<6)|uint8(0x01))
 		b = append(b, uint8(0), uint8(0))
-		binary.BigEndian.PutUint16(b[len(b)-2:], uint16(chunk.CsID-64))
+		binary.LittleEndian.PutUint16(b[len(b)-2:], uint16(chunk.CsID-64))
 	}
 
 	//For FMT0 we carry an absolute timestamp; for FMT1/FMT2 a delta.
-- 
2.43.0


From 32620ddee5096dbf2dfb45ec5974e3851faba11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 10/60] fix: claim a stream name atomically

Every ingest looked the name up and stored its room in two steps, so two
publishers arriving together could both own the stream.
---
 librtmp/app.go             |  8 ++++++++
 librtmp/client.go          |  6 +++---
 librtmp/command_message.go |  6 +++---
 librtmp/rtsp_ingest.go     | 12 +++++-------
 librtmp/srt_server.go      |  9 ++++-----
 5 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/librtmp/app.go b/librtmp/app.go
index b336523..ce7895b 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -42,6 +42,14 @@ func (app *App) Store(roomID string, room *Room) {
 	app.rooms.Store(roomID, room)
 }
 
+// Claim stores the room under roomID unless the stream already has a
+// publisher; it reports whether the caller now owns the stream. Checking
+// with Load first and storing afterwards would let two publishers in.
+func (app *App) Claim(roomID string, room *Room) bool {
+	_, taken := app.rooms.LoadOrStore(roomID, room)
+	return !taken
+}
+
 func (app *App) Delete(roomID string) {
 	if h, ok := app.hls.LoadAndDelete(roomID); ok {
 		if hls, ok := h.(*libhls.HLS); ok {
diff --git a/librtmp/client.go b/librtmp/client.go
index 8f0f29b..82a040d 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -59,13 +59,13 @@ func (pc *PullClient) Run() error {
 		_ = conn.Close()
 		return fmt.Errorf("local app %q not configured", pc.spec.app)
 	}
-	if existing := app.Load(pc.spec.streamID); existing != nil {
+	room := NewRoom(rtmp, pc.spec.streamID)
+	if !app.Claim(pc.spec.streamID, room) {
 		_ = conn.Close()
 		return fmt.Errorf("local stream %q already publishing", pc.spec.streamID)
 	}
 	rtmp.app = pc.spec.app
-	rtmp.room = NewRoom(rtmp, pc.spec.streamID)
-	app.Store(pc.spec.streamID, rtmp.room)
+	rtmp.room = room
 	//We act as publisher into the local broadcast — when the upstream
 	//disconnects, cleanup() should tear the local room down so HLS /
 	//FLV viewers exit cleanly.
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index 0258579..e26ad30 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -247,7 +247,8 @@ func (cm *CommandMessage) Do() (err error) {
 		if !ok {
 			return errors.Errorf("app not found: %s", cm.rtmp.app)
 		}
-		if existing := app.Load(cm.PublishingName); existing != nil {
+		room := NewRoom(cm.rtmp, cm.PublishingName)
+		if !app.Claim(cm.PublishingName, room) {
 			//Refuse a second publish to the same stream — replacing the
 			//publisher mid-stream would desync every viewer.
 			return (&CommandMessageResponse{
@@ -262,9 +263,8 @@ func (cm *CommandMessage) Do() (err error) {
 				},
 			}).Send()
 		}
-		cm.rtmp.room = NewRoom(cm.rtmp, cm.PublishingName)
+		cm.rtmp.room = room
 		cm.rtmp.role = rolePublisher
-		app.Store(cm.PublishingName, cm.rtmp.room)
 
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 0869d36..670c7ec 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -41,12 +41,6 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		resp.Reason = "Not Found"
 		return resp
 	}
-	if a.Load(room) != nil {
-		resp.StatusCode = 461
-		resp.Reason = "Stream Already Publishing"
-		return resp
-	}
-
 	parsed, err := librtsp.ParseSDP(req.Body)
 	if err != nil {
 		resp.StatusCode = 400
@@ -64,7 +58,11 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		app:    app,
 	}
 	rtmp.room = NewRoom(rtmp, room)
-	a.Store(room, rtmp.room)
+	if !a.Claim(room, rtmp.room) {
+		resp.StatusCode = 461
+		resp.Reason = "Stream Already Publishing"
+		return resp
+	}
 
 	s.app, s.streamID = app, room
 	s.ingest = &rtspIngest{
diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 9f2c329..3768953 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -75,10 +75,6 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 			br.mu.Unlock()
 			return fmt.Errorf("srt: app %q missing", br.spec.app)
 		}
-		if app.Load(br.spec.streamID) != nil {
-			br.mu.Unlock()
-			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
-		}
 		//Pseudo-publisher RTMP struct so cleanup paths match.
 		ps := &RTMP{
 			peer:   "srt://" + br.spec.address,
@@ -87,8 +83,11 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 			app:    br.spec.app,
 		}
 		ps.room = NewRoom(ps, br.spec.streamID)
+		if !app.Claim(br.spec.streamID, ps.room) {
+			br.mu.Unlock()
+			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
+		}
 		br.room = ps.room
-		app.Store(br.spec.streamID, br.room)
 	}
 	br.mu.Unlock()
 	br.demux.Feed(payload)
-- 
2.43.0


From 19b181614ec412a172a426970a4ca764c59c2e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 11/60] fix: refuse a second publish or play on one RTMP
 connection

It replaced the room the connection owned, which was then never closed
nor removed from its app.
---
 librtmp/command_message.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index e26ad30..0e97626 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -247,6 +247,11 @@ func (cm *CommandMessage) Do() (err error) {
 		if !ok {
 			return errors.Errorf("app not found: %s", cm.rtmp.app)
 		}
+		if cm.rtmp.room != nil {
+			//cleanup() releases one room per connection: a second one
+			//would outlive its publisher.
+			return errors.New("connection already publishes or plays a stream")
+		}
 		room := NewRoom(cm.rtmp, cm.PublishingName)
 		if !app.Claim(cm.PublishingName, room) {
 			//Refuse a second publish to the same stream — replacing the
@@ -294,6 +299,9 @@ func (cm *CommandMessage) Do() (err error) {
 		if !ok {
 			return errors.Errorf("app not found: %s", cm.rtmp.app)
 		}
+		if cm.rtmp.room != nil {
+			return errors.New("connection already publishes or plays a stream")
+		}
 		cm.rtmp.room = app.Load(cm.PublishingName)
 		if cm.rtmp.room == nil {
 			return (&CommandMessageResponse{
-- 
2.43.0


From 2cf38b785e1242e7c51156b7e7dc4e402dd7d481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 12/60] fix: ignore media sent by RTMP players

A player could inject tags into the stream it watches.
---
 librtmp/audio.go        | 2 +-
 librtmp/data_message.go | 2 +-
 librtmp/video.go        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/librtmp/audio.go b/librtmp/audio.go
index 86957fc..52b6de5 100644
--- a/librtmp/audio.go
+++ b/librtmp/audio.go
@@ -81,7 +81,7 @@ func (am *AudioMessage) Parse() (err error) {
 }
 
 func (am *AudioMessage) Do() (err error) {
-	if am.rtmp.room == nil {
+	if am.rtmp.room == nil || am.rtmp.role != rolePublisher {
 		return nil
 	}
 	if am.audioTag.SoundFormat == libflv.FLV_AUDIO_AAC && am.audioTag.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
diff --git a/librtmp/data_message.go b/librtmp/data_message.go
index 9cb28d8..ccefa7a 100644
--- a/librtmp/data_message.go
+++ b/librtmp/data_message.go
@@ -64,7 +64,7 @@ func (dm *DataMessage) Parse() (err error) {
 }
 
 func (dm *DataMessage) Do() (err error) {
-	if dm.rtmp.room == nil {
+	if dm.rtmp.room == nil || dm.rtmp.role != rolePublisher {
 		return nil
 	}
 	dm.rtmp.room.setMeta(dm.metaTag)
diff --git a/librtmp/video.go b/librtmp/video.go
index 5ec3ad6..7d2b848 100644
--- a/librtmp/video.go
+++ b/librtmp/video.go
@@ -82,7 +82,7 @@ func (vm *VideoMessage) Parse() (err error) {
 }
 
 func (vm *VideoMessage) Do() (err error) {
-	if vm.rtmp.room == nil {
+	if vm.rtmp.room == nil || vm.rtmp.role != rolePublisher {
 		return nil
 	}
 	if vm.videoTag.FrameType == libflv.KEY_FRAME {
-- 
2.43.0


From 3aab02f81bf59947e6685ed4a28df4b5549c2f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:50 +0000
Subject: [PATCH 13/60] fix: close RTMP connections when their handler ends

---
 librtmp/client.go | 3 +--
 librtmp/server.go | 5 ++++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/librtmp/client.go b/librtmp/client.go
index 82a040d..0701db2 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -52,16 +52,15 @@ func (pc *PullClient) Run() error {
 	if err != nil {
 		return fmt.Errorf("dial %s: %w", host, err)
 	}
+	defer conn.Close()
 
 	rtmp := NewRTMP(conn, host, pc.server)
 	app, ok := pc.server.apps[pc.spec.app]
 	if !ok {
-		_ = conn.Close()
 		return fmt.Errorf("local app %q not configured", pc.spec.app)
 	}
 	room := NewRoom(rtmp, pc.spec.streamID)
 	if !app.Claim(pc.spec.streamID, room) {
-		_ = conn.Close()
 		return fmt.Errorf("local stream %q already publishing", pc.spec.streamID)
 	}
 	rtmp.app = pc.spec.app
diff --git a/librtmp/server.go b/librtmp/server.go
index 0189165..edc99b1 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -194,7 +194,10 @@ func (s *server) Handler() error {
 		}
 
 		peer := conn.RemoteAddr().String()
-		go NewRTMP(conn, peer, s).HandlerServer()
+		go func() {
+			defer conn.Close()
+			NewRTMP(conn, peer, s).HandlerServer()
+		}()
 	}
 }
 
-- 
2.43.0


From 1a9e6c2bb5b5b163bb76b107c8641660c6768945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 14/60] fix: start the HLS and DASH segmenters for every ingest

Only RTMP publish started them, so pulled, RTSP and SRT streams had no
HLS output in the default mode.
---
 librtmp/app.go             | 32 ++++++++++++++++++++++++++++++++
 librtmp/client.go          |  1 +
 librtmp/command_message.go | 14 +-------------
 librtmp/rtsp_ingest.go     |  2 ++
 librtmp/srt_server.go      |  1 +
 5 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/librtmp/app.go b/librtmp/app.go
index ce7895b..39a62aa 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -3,6 +3,7 @@ package librtmp
 import (
 	"sync"
 
+	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/sbraveyoung/GGmpeg/libdash"
 	"github.com/sbraveyoung/GGmpeg/libhls"
 )
@@ -64,6 +65,37 @@ func (app *App) Delete(roomID string) {
 	app.rooms.Delete(roomID)
 }
 
+// startSegmenters attaches the segmenters configured to run from the
+// moment a stream is published. Every ingest calls it after Claim.
+func (app *App) startSegmenters(room *Room) {
+	if app.hlsMode == libhls.IMMEDIATELY {
+		app.startHLS(room)
+	}
+	if app.dashEnabled {
+		app.startDASH(room)
+	}
+}
+
+// startHLS returns the room's HLS segmenter, starting it if there is none.
+func (app *App) startHLS(room *Room) *libhls.HLS {
+	hls := libhls.NewHls().WithStreamID(room.RoomID).WithDir(app.hlsDir)
+	if h, started := app.hls.LoadOrStore(room.RoomID, hls); started {
+		return h.(*libhls.HLS)
+	}
+	go hls.Start(broadcast.NewBroadcastReader(room.GOP))
+	return hls
+}
+
+// startDASH returns the room's DASH segmenter, starting it if there is none.
+func (app *App) startDASH(room *Room) *libdash.DASH {
+	dash := libdash.NewDASH().WithStreamID(room.RoomID).WithDir(app.dashDir)
+	if d, started := app.dash.LoadOrStore(room.RoomID, dash); started {
+		return d.(*libdash.DASH)
+	}
+	go dash.Start(broadcast.NewBroadcastReader(room.GOP))
+	return dash
+}
+
 func (app *App) LoadHLS(roomID string) *libhls.HLS {
 	h, ok := app.hls.Load(roomID)
 	if !ok {
diff --git a/librtmp/client.go b/librtmp/client.go
index 0701db2..9f8b367 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -69,6 +69,7 @@ func (pc *PullClient) Run() error {
 	//disconnects, cleanup() should tear the local room down so HLS /
 	//FLV viewers exit cleanly.
 	rtmp.role = rolePublisher
+	app.startSegmenters(room)
 
 	rtmp.connectApp = parseAppName(u.Path)
 	rtmp.tcURL = strings.TrimSuffix(pc.spec.remoteURL,
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index 0e97626..51f7eab 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -7,12 +7,9 @@ import (
 	"reflect"
 	"sync/atomic"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libamf"
-	"github.com/sbraveyoung/GGmpeg/libdash"
-	"github.com/sbraveyoung/GGmpeg/libhls"
 	"github.com/fatih/structs"
 	"github.com/goinggo/mapstructure"
 	"github.com/pkg/errors"
@@ -283,16 +280,7 @@ func (cm *CommandMessage) Do() (err error) {
 			},
 		}).Send()
 
-		if app.hlsMode == libhls.IMMEDIATELY {
-			hls := libhls.NewHls().WithStreamID(cm.PublishingName).WithDir(app.hlsDir)
-			app.hls.Store(cm.PublishingName, hls)
-			go hls.Start(broadcast.NewBroadcastReader(cm.rtmp.room.GOP))
-		}
-		if app.dashEnabled {
-			dash := libdash.NewDASH().WithStreamID(cm.PublishingName).WithDir(app.dashDir)
-			app.StoreDASH(cm.PublishingName, dash)
-			go dash.Start(broadcast.NewBroadcastReader(cm.rtmp.room.GOP))
-		}
+		app.startSegmenters(cm.rtmp.room)
 
 	case PLAY:
 		app, ok := cm.rtmp.server.apps[cm.rtmp.app]
diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 670c7ec..765eb0a 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -64,6 +64,8 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		return resp
 	}
 
+	a.startSegmenters(rtmp.room)
+
 	s.app, s.streamID = app, room
 	s.ingest = &rtspIngest{
 		parsed:  parsed,
diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 3768953..cf74c85 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -88,6 +88,7 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
 		}
 		br.room = ps.room
+		app.startSegmenters(br.room)
 	}
 	br.mu.Unlock()
 	br.demux.Feed(payload)
-- 
2.43.0


From 98be081ccbcfda1dedf1c5a2ce401ead81785f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 15/60] fix: start at most one lazy segmenter per stream

Two viewers asking together each started one; the segmenter that lost
its map entry was never stopped and wrote the same files.
---
 librtmp/server.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index edc99b1..f1c81cf 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -13,7 +13,6 @@ import (
 	"sync"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libdash"
@@ -364,9 +363,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			//hit so no-one is paying for HLS segmentation when no viewer
 			//is attached.
 			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
-				hls = libhls.NewHls().WithStreamID(roomID).WithDir(app.hlsDir)
-				app.StoreHLS(roomID, hls)
-				go hls.Start(broadcast.NewBroadcastReader(room.GOP))
+				hls = app.startHLS(room)
 				hls.WaitFirstSegment()
 			} else {
 				w.WriteHeader(http.StatusNotFound)
@@ -382,9 +379,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			strings.HasSuffix(file, ".m4s"):
 			dash := app.LoadDASH(roomID)
 			if dash == nil && app.dashEnabled {
-				dash = libdash.NewDASH().WithStreamID(roomID).WithDir(app.dashDir)
-				app.StoreDASH(roomID, dash)
-				go dash.Start(broadcast.NewBroadcastReader(room.GOP))
+				dash = app.startDASH(room)
 				dash.WaitFirstSegment()
 			}
 			if dash == nil {
-- 
2.43.0


From 2e70a47bc50012d660ccab6d49beb9e5e7b1f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 16/60] fix: never start a segmenter for a stream that has
 ended

A viewer racing with the publisher's departure could register one after
the app had dropped the stream's segmenters; nothing would stop it.
---
 librtmp/app.go    | 32 ++++++++++++++++++++++++--------
 librtmp/server.go | 10 ++++++----
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/librtmp/app.go b/librtmp/app.go
index 39a62aa..8275837 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -17,6 +17,7 @@ type App struct {
 	dashEnabled bool
 	dashDir     string
 	dash        *sync.Map //roomID, *libdash.DASH
+	segMu       sync.Mutex //no segmenter is started for a room being deleted
 }
 
 func NewApp(appName string) *App {
@@ -52,6 +53,8 @@ func (app *App) Claim(roomID string, room *Room) bool {
 }
 
 func (app *App) Delete(roomID string) {
+	app.segMu.Lock()
+	defer app.segMu.Unlock()
 	if h, ok := app.hls.LoadAndDelete(roomID); ok {
 		if hls, ok := h.(*libhls.HLS); ok {
 			hls.Stop()
@@ -76,22 +79,35 @@ func (app *App) startSegmenters(room *Room) {
 	}
 }
 
-// startHLS returns the room's HLS segmenter, starting it if there is none.
+// startHLS returns the room's HLS segmenter, starting it if there is
+// none. It returns nil once the room is gone.
 func (app *App) startHLS(room *Room) *libhls.HLS {
-	hls := libhls.NewHls().WithStreamID(room.RoomID).WithDir(app.hlsDir)
-	if h, started := app.hls.LoadOrStore(room.RoomID, hls); started {
-		return h.(*libhls.HLS)
+	app.segMu.Lock()
+	defer app.segMu.Unlock()
+	if app.Load(room.RoomID) != room {
+		return nil
 	}
+	if hls := app.LoadHLS(room.RoomID); hls != nil {
+		return hls
+	}
+	hls := libhls.NewHls().WithStreamID(room.RoomID).WithDir(app.hlsDir)
+	app.StoreHLS(room.RoomID, hls)
 	go hls.Start(broadcast.NewBroadcastReader(room.GOP))
 	return hls
 }
 
-// startDASH returns the room's DASH segmenter, starting it if there is none.
+// startDASH is the DASH counterpart of startHLS.
 func (app *App) startDASH(room *Room) *libdash.DASH {
-	dash := libdash.NewDASH().WithStreamID(room.RoomID).WithDir(app.dashDir)
-	if d, started := app.dash.LoadOrStore(room.RoomID, dash); started {
-		return d.(*libdash.DASH)
+	app.segMu.Lock()
+	defer app.segMu.Unlock()
+	if app.Load(room.RoomID) != room {
+		return nil
 	}
+	if dash := app.LoadDASH(room.RoomID); dash != nil {
+		return dash
+	}
+	dash := libdash.NewDASH().WithStreamID(room.RoomID).WithDir(app.dashDir)
+	app.StoreDASH(room.RoomID, dash)
 	go dash.Start(broadcast.NewBroadcastReader(room.GOP))
 	return dash
 }
diff --git a/librtmp/server.go b/librtmp/server.go
index f1c81cf..c7b9561 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -364,11 +364,12 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			//is attached.
 			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
 				hls = app.startHLS(room)
-				hls.WaitFirstSegment()
-			} else {
+			}
+			if hls == nil {
 				w.WriteHeader(http.StatusNotFound)
 				return
 			}
+			hls.WaitFirstSegment()
 		}
 
 		//DASH dispatch (manifest + init + media segments). Lazy-start
@@ -379,8 +380,9 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			strings.HasSuffix(file, ".m4s"):
 			dash := app.LoadDASH(roomID)
 			if dash == nil && app.dashEnabled {
-				dash = app.startDASH(room)
-				dash.WaitFirstSegment()
+				if dash = app.startDASH(room); dash != nil {
+					dash.WaitFirstSegment()
+				}
 			}
 			if dash == nil {
 				w.WriteHeader(http.StatusNotFound)
-- 
2.43.0


From 926ea15f06f0b4d4a66e76c553c3dd8123774726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 17/60] fix: keep publisher-chosen stream names out of file
 system paths

A name like ../../x made the segmenters create and remove files outside
their directory, and quotes or line breaks ended up in the manifests.
---
 libdash/dash.go | 21 ++++++++++++++++++++-
 libhls/hls.go   | 20 +++++++++++++++++++-
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 8e2a9c7..c5aeebc 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -17,6 +17,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -95,7 +96,25 @@ func NewDASH() *DASH {
 	return d
 }
 
-func (d *DASH) WithStreamID(id string) *DASH { d.streamID = id; return d }
+func (d *DASH) WithStreamID(id string) *DASH { d.streamID = fileName(id); return d }
+
+// fileName maps a stream id, which the publisher chooses, to a string that
+// is safe inside file names, playlists and URLs: bytes other than letters,
+// digits and "-._~" become =XX. Distinct ids keep distinct names.
+func fileName(id string) string {
+	var sb strings.Builder
+	for i := 0; i < len(id); i++ {
+		c := id[i]
+		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' ||
+			c == '-' || c == '.' || c == '_' || c == '~' {
+			sb.WriteByte(c)
+		} else {
+			fmt.Fprintf(&sb, "=%02X", c)
+		}
+	}
+	return sb.String()
+}
+
 func (d *DASH) WithDir(dir string) *DASH {
 	if dir != "" {
 		d.dir = dir
diff --git a/libhls/hls.go b/libhls/hls.go
index 74ec4ae..0c96d7a 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -149,10 +150,27 @@ func (hls *HLS) LowLatency() bool { return hls.llEnabled }
 // WithStreamID sets the stream identifier used in the segment
 // filenames and served playlist.
 func (hls *HLS) WithStreamID(id string) *HLS {
-	hls.streamID = id
+	hls.streamID = fileName(id)
 	return hls
 }
 
+// fileName maps a stream id, which the publisher chooses, to a string that
+// is safe inside file names, playlists and URLs: bytes other than letters,
+// digits and "-._~" become =XX. Distinct ids keep distinct names.
+func fileName(id string) string {
+	var sb strings.Builder
+	for i := 0; i < len(id); i++ {
+		c := id[i]
+		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' ||
+			c == '-' || c == '.' || c == '_' || c == '~' {
+			sb.WriteByte(c)
+		} else {
+			fmt.Fprintf(&sb, "=%02X", c)
+		}
+	}
+	return sb.String()
+}
+
 // WithDir sets the directory where ts segments are written. The
 // directory is created on Start if it does not exist.
 func (hls *HLS) WithDir(dir string) *HLS {
-- 
2.43.0


From a99ebf0cc78f6fa9eda1cecefda82028cd860d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 18/60] fix: serialise WebSocket frames

A pong could be written between the header and the payload of a media
frame.
---
 librtmp/websocket.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/librtmp/websocket.go b/librtmp/websocket.go
index d084afa..3803fd4 100644
--- a/librtmp/websocket.go
+++ b/librtmp/websocket.go
@@ -11,6 +11,7 @@ import (
 	"net"
 	"net/http"
 	"strings"
+	"sync"
 )
 
 // Minimal RFC 6455 server implementation. Covers exactly what flv.js
@@ -47,6 +48,7 @@ const wsMaxFramePayload = 1 << 20
 type wsConn struct {
 	conn net.Conn
 	br   *bufio.Reader
+	wmu  sync.Mutex //one frame at a time on conn
 }
 
 // upgradeWebSocket performs the HTTP/1.1 Upgrade handshake against
@@ -115,6 +117,10 @@ func (ws *wsConn) writeFrame(op wsOpcode, payload []byte) error {
 		header = append(header, ln[:]...)
 	}
 
+	//Media, pong and close frames come from different goroutines: each
+	//frame must reach the connection whole.
+	ws.wmu.Lock()
+	defer ws.wmu.Unlock()
 	if _, err := ws.conn.Write(header); err != nil {
 		return err
 	}
-- 
2.43.0


From 7edb8b13f4e7c49794183b1ef2a474edbaa2585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 19/60] fix: cap the pull reconnect backoff at the documented
 30 s

---
 librtmp/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index c7b9561..7aef9e8 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -171,8 +171,8 @@ func (s *server) Handler() error {
 					fmt.Printf("rtmp pull %s: %v\n", spec.remoteURL, err)
 				}
 				time.Sleep(backoff)
-				if backoff < 30*time.Second {
-					backoff *= 2
+				if backoff *= 2; backoff > 30*time.Second {
+					backoff = 30 * time.Second
 				}
 			}
 		}()
-- 
2.43.0


From 3cba3484a903d6b0f9bf17ecef36bcd4a91a2177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 20/60] fix: read RTSP interleaved frames in full

A frame that spans two TCP segments was cut short and the rest of it
parsed as the next frame.
---
 librtmp/rtsp_ingest.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 765eb0a..8098326 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -3,6 +3,7 @@ package librtmp
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"net"
 	"strings"
 	"sync/atomic"
@@ -197,13 +198,13 @@ func (s *rtspSession) runIngestLoop() {
 			continue
 		}
 		hdr := make([]byte, 3)
-		if _, err := s.br.Read(hdr); err != nil {
+		if _, err := io.ReadFull(s.br, hdr); err != nil {
 			return
 		}
 		ch := hdr[0]
 		ln := int(binary.BigEndian.Uint16(hdr[1:3]))
 		body := make([]byte, ln)
-		if _, err := s.br.Read(body); err != nil {
+		if _, err := io.ReadFull(s.br, body); err != nil {
 			return
 		}
 		s.handleInterleaved(ch, body)
-- 
2.43.0


From be2abf9821775c60accece384a3e51f8b63a86cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 21/60] fix: release an RTSP session's room and sockets on
 every exit

Only a session that reached RECORD did: one that ended after ANNOUNCE
left its stream name taken for good, a playing session over UDP kept its
sockets, and a second ANNOUNCE lost the first room. The UDP readers used
the room through a pointer that cleanup clears under them.
---
 librtmp/rtsp_ingest.go | 31 +++++++++++--------------------
 librtmp/rtsp_server.go | 20 ++++++++++++++++++++
 2 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 8098326..013978a 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -16,6 +16,7 @@ import (
 // opts into ANNOUNCE/RECORD instead of DESCRIBE/PLAY. Stored on the
 // rtspSession when the publish flow kicks off.
 type rtspIngest struct {
+	room    *Room //stays valid for the UDP readers after cleanup()
 	parsed  *librtsp.ParsedSDP
 	videoCh int //RTSP interleave channel (RTP), -1 if not negotiated
 	audioCh int
@@ -30,6 +31,12 @@ type rtspIngest struct {
 // downstream protocols (HTTP-FLV / HLS / DASH / RTSP PLAY) can mirror
 // the stream.
 func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
+	if s.publishRTMP != nil {
+		//One stream per session: a second room would never be released.
+		resp.StatusCode = 455
+		resp.Reason = "Method Not Valid In This State"
+		return resp
+	}
 	app, room := parseRTSPURL(req.URL)
 	if app == "" || room == "" {
 		resp.StatusCode = 400
@@ -69,6 +76,7 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 
 	s.app, s.streamID = app, room
 	s.ingest = &rtspIngest{
+		room:    rtmp.room,
 		parsed:  parsed,
 		videoCh: -1,
 		audioCh: -1,
@@ -145,23 +153,6 @@ func (s *rtspSession) handleRecord(req *librtsp.Request, resp *librtsp.Response)
 // concurrently handles GET_PARAMETER / TEARDOWN / etc.
 func (s *rtspSession) runIngestLoop() {
 	defer atomic.StoreInt32(&s.recording, 0)
-	defer func() {
-		if s.publishRTMP != nil {
-			s.publishRTMP.cleanup()
-		}
-		if s.videoUDP != nil {
-			_ = s.videoUDP.Close()
-		}
-		if s.audioUDP != nil {
-			_ = s.audioUDP.Close()
-		}
-		if s.videoUDPRTCP != nil {
-			_ = s.videoUDPRTCP.Close()
-		}
-		if s.audioUDPRTCP != nil {
-			_ = s.audioUDPRTCP.Close()
-		}
-	}()
 
 	//Spawn a UDP reader per track that was set up in UDP mode.
 	if s.videoUDP != nil {
@@ -267,9 +258,9 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 	}
 	vt.DataSize = uint32(len(vt.Data()))
 	if frameType == libflv.KEY_FRAME {
-		s.publishRTMP.room.GOP.Reset()
+		s.ingest.room.GOP.Reset()
 	}
-	s.publishRTMP.room.GOP.Write(vt)
+	s.ingest.room.GOP.Write(vt)
 }
 
 func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
@@ -294,7 +285,7 @@ func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
 			SoundData:     frame,
 		}
 		at.DataSize = uint32(len(at.Data()))
-		s.publishRTMP.room.GOP.Write(at)
+		s.ingest.room.GOP.Write(at)
 	}
 }
 
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 53edd91..978f47b 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -84,6 +84,7 @@ func newRTSPSession(conn net.Conn, srv *server) *rtspSession {
 // or PLAY's goroutine reports a write failure.
 func (s *rtspSession) run() {
 	defer s.conn.Close()
+	defer s.cleanup()
 	for {
 		req, err := librtsp.ReadRequest(s.br)
 		if err != nil {
@@ -105,6 +106,25 @@ func (s *rtspSession) run() {
 	}
 }
 
+// cleanup releases what the session holds, however far it got: the PLAY
+// goroutine, the room of a publisher, and the UDP sockets.
+func (s *rtspSession) cleanup() {
+	atomic.StoreInt32(&s.playing, 0)
+	if s.publishRTMP != nil {
+		s.publishRTMP.cleanup()
+	}
+	closeUDPPair(s.videoUDP, s.videoUDPRTCP)
+	closeUDPPair(s.audioUDP, s.audioUDPRTCP)
+}
+
+func closeUDPPair(socks ...*net.UDPConn) {
+	for _, c := range socks {
+		if c != nil {
+			_ = c.Close()
+		}
+	}
+}
+
 // dispatch routes a request to the per-method handler. Each handler
 // returns a fully-formed response or nil to terminate the session.
 func (s *rtspSession) dispatch(req *librtsp.Request) *librtsp.Response {
-- 
2.43.0


From b838ebf9664b2faf506eff656f41de1d1f3813a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 22/60] fix: do not leak or replace in-use sockets on RTSP
 SETUP

---
 librtmp/rtsp_server.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 978f47b..ffea275 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -213,6 +213,12 @@ func (s *rtspSession) handleDescribe(req *librtsp.Request, resp *librtsp.Respons
 // is recorded on the session so subsequent PLAY / RECORD send paths
 // know which transport to use.
 func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
+	if atomic.LoadInt32(&s.playing) == 1 || atomic.LoadInt32(&s.recording) == 1 {
+		//The media goroutines are using the transport set up before.
+		resp.StatusCode = 455
+		resp.Reason = "Method Not Valid In This State"
+		return resp
+	}
 	transport := req.Headers.Get("transport")
 	useUDP := strings.Contains(transport, "RTP/AVP") &&
 		!strings.Contains(transport, "RTP/AVP/TCP")
@@ -264,6 +270,7 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 		var ok bool
 		isAudio, ok = s.notifyIngestSetup(req.URL, rtpCh)
 		if !ok {
+			closeUDPPair(udpSocks[0], udpSocks[1])
 			resp.StatusCode = 404
 			resp.Reason = "Not Found"
 			return resp
@@ -280,6 +287,7 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 			s.audioRTP = librtsp.NewRTPPacker(97, s.audioSSRC)
 			isAudio = true
 		default:
+			closeUDPPair(udpSocks[0], udpSocks[1])
 			resp.StatusCode = 404
 			resp.Reason = "Not Found"
 			return resp
@@ -292,10 +300,12 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 		clientHost := s.peerHostIP()
 		rtpPeer := &net.UDPAddr{IP: clientHost, Port: clientRTPPort}
 		if isAudio {
+			closeUDPPair(s.audioUDP, s.audioUDPRTCP)
 			s.audioUDP = udpSocks[0]
 			s.audioUDPRTCP = udpSocks[1]
 			s.peerAudioRTP = rtpPeer
 		} else {
+			closeUDPPair(s.videoUDP, s.videoUDPRTCP)
 			s.videoUDP = udpSocks[0]
 			s.videoUDPRTCP = udpSocks[1]
 			s.peerVideoRTP = rtpPeer
-- 
2.43.0


From 6decfcb0c4b7cd770a86e84b3b462309b28500d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 23/60] fix: keep RTSP tracks apart when the client sets them
 up over UDP

Both tracks were recorded as channel 0, so audio was sent to the video
port; channels that do not fit the interleaved header are refused.
---
 librtmp/rtsp_server.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index ffea275..3f477af 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -238,7 +238,7 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 	if useTCP {
 		var ok bool
 		rtpCh, rtcpCh, ok = parseInterleavedChannels(transport)
-		if !ok {
+		if !ok || rtpCh < 0 || rtpCh > 255 {
 			resp.StatusCode = 400
 			resp.Reason = "Bad Request"
 			return resp
@@ -268,6 +268,9 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 	isAudio := false
 	if s.ingest != nil {
 		var ok bool
+		if useUDP {
+			rtpCh = -1 //no interleaved frames for this track
+		}
 		isAudio, ok = s.notifyIngestSetup(req.URL, rtpCh)
 		if !ok {
 			closeUDPPair(udpSocks[0], udpSocks[1])
@@ -294,6 +297,15 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 		}
 	}
 
+	if useUDP && s.ingest == nil {
+		//The channel still tells the tracks apart in writeInterleaved.
+		if isAudio {
+			s.audioChan = 2
+		} else {
+			s.videoChan = 0
+		}
+	}
+
 	//Wire up UDP sockets to the per-track slot so PLAY / RECORD
 	//goroutines can find them later.
 	if useUDP {
-- 
2.43.0


From dfe95644992fe5ca273e202526979f7ff96a783f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 24/60] fix: require SETUP before RTSP PLAY and RECORD, and
 RECORD only once

Each RECORD inside the ingest loop nested another loop.
---
 librtmp/rtsp_ingest.go | 3 ++-
 librtmp/rtsp_server.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 013978a..a8ab4fd 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -128,7 +128,8 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 // embedded RTP packets, and forwards reassembled access units into
 // the room's GOP broadcast.
 func (s *rtspSession) handleRecord(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
-	if s.publishRTMP == nil || s.ingest == nil {
+	if s.publishRTMP == nil || s.ingest == nil || s.sessionID == "" ||
+		atomic.LoadInt32(&s.recording) == 1 {
 		resp.StatusCode = 455
 		resp.Reason = "Method Not Valid In This State"
 		return resp
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 3f477af..303bb27 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -408,7 +408,7 @@ func openUDPPair() (socks [2]*net.UDPConn, rtpPort, rtcpPort int, err error) {
 // FLV tags from the room's broadcast and writes interleaved RTP frames
 // into the same TCP connection used by the RTSP control channel.
 func (s *rtspSession) handlePlay(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
-	if s.app == "" || s.streamID == "" {
+	if s.app == "" || s.streamID == "" || s.sessionID == "" {
 		resp.StatusCode = 455
 		resp.Reason = "Method Not Valid In This State"
 		return resp
-- 
2.43.0


From 23c57f04a433d224041400c2ad531d52fadfed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 25/60] fix: bound AMF0 nesting and report values cut short

---
 libamf/amf0.go | 67 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 20 deletions(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index d58787c..ed7f245 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -44,13 +44,21 @@ func (amf0) Decode(r easyio.EasyReader) (res []interface{}, err error) {
 	var i interface{}
 	var marker Marker
 	for {
-		marker, i, err = decodeamf0(r)
+		marker, err = readMarkeramf0(r)
 		if err == io.EOF {
 			break
 		}
 		if err != nil {
 			return res, err
 		}
+		i, err = decodeValueamf0(r, marker, 0)
+		if err == io.EOF {
+			//The payload ends inside a value: not a clean end.
+			err = io.ErrUnexpectedEOF
+		}
+		if err != nil {
+			return res, err
+		}
 		//NOTE:i should not be set to nil value and typed pointer such as `i=(int*)nil`
 		// if i != nil {
 		switch marker {
@@ -70,14 +78,33 @@ func (amf0) Decode(r easyio.EasyReader) (res []interface{}, err error) {
 	return res, nil
 }
 
-func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
+func readMarkeramf0(r easyio.EasyReader) (marker Marker, err error) {
 	var b []byte
 	b, err = r.ReadN(1)
 	if err != nil {
-		return InvalidMarker, nil, err
+		return InvalidMarker, err
+	}
+	return Marker(b[0]), nil
+}
+
+//maxDepthamf0 bounds how deep objects and arrays may nest: the input
+//comes from the peer and each level costs a stack frame.
+const maxDepthamf0 = 64
+
+//decodeamf0 decodes a value that sits depth levels inside another one.
+func decodeamf0(r easyio.EasyReader, depth int) (i interface{}, err error) {
+	if depth > maxDepthamf0 {
+		return nil, errors.New("amf0 value nested too deep")
+	}
+	var marker Marker
+	marker, err = readMarkeramf0(r)
+	if err != nil {
+		return nil, err
 	}
+	return decodeValueamf0(r, marker, depth)
+}
 
-	marker = Marker(b[0])
+func decodeValueamf0(r easyio.EasyReader, marker Marker, depth int) (i interface{}, err error) {
 	switch marker {
 	case NumberMarker:
 		i, err = decodeNumberamf0(r)
@@ -86,7 +113,7 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case StringMarker:
 		i, err = decodeStringamf0(r)
 	case ObjectMarker: //complex types
-		i, err = decodeObjectamf0(r)
+		i, err = decodeObjectamf0(r, depth)
 	case MovieclipMarker: //not supported, do nothing
 	case NULLMarker:
 		i, err = nil, nil
@@ -94,10 +121,10 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case ReferenceMarker:
 		i, err = decodeReferenceamf0(r)
 	case EcmaArrayMarker: //complex types
-		i, err = decodeEcmaArrayamf0(r)
+		i, err = decodeEcmaArrayamf0(r, depth)
 	case ObjectEndMarker: //no futher information is encoded, do nothing
 	case StrictArrayMarker:
-		i, err = decodeStrictArrayamf0(r)
+		i, err = decodeStrictArrayamf0(r, depth)
 	case DateMarker:
 		i, err = decodeDateamf0(r)
 	case LongStringMarker:
@@ -109,15 +136,15 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 	case TypedObjectMarker: //complex types
 		//XXX: get className, then?
 		var className string
-		className, i, err = decodeTypedObjectamf0(r)
+		className, i, err = decodeTypedObjectamf0(r, depth)
 		i = map[string]interface{}{
 			className: i,
 		}
 	default:
-		return InvalidMarker, i, errors.New("invalid amf0 marker")
+		return i, errors.New("invalid amf0 marker")
 	}
 	// fmt.Printf("marker:%x, value:%+v\n", marker, i)
-	return marker, i, err
+	return i, err
 }
 
 func decodeNumberamf0(r easyio.EasyReader) (num float64, err error) {
@@ -163,11 +190,11 @@ func readByteamf0(r easyio.EasyReader, length uint32) (b []byte, err error) {
 	return b, nil
 }
 
-func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err error) {
+func decodeObjectamf0(r easyio.EasyReader, depth int) (res map[string]interface{}, err error) {
 	var p *pair
 	res = make(map[string]interface{})
 	for {
-		p, err = readPairamf0(r)
+		p, err = readPairamf0(r, depth)
 		if err != nil {
 			return res, err
 		}
@@ -179,13 +206,13 @@ func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err erro
 	return res, nil
 }
 
-func decodeTypedObjectamf0(r easyio.EasyReader) (className string, res map[string]interface{}, err error) {
+func decodeTypedObjectamf0(r easyio.EasyReader, depth int) (className string, res map[string]interface{}, err error) {
 	className, err = decodeStringamf0(r)
 	if err != nil {
 		return className, res, err
 	}
 
-	res, err = decodeObjectamf0(r)
+	res, err = decodeObjectamf0(r, depth)
 	return className, res, err
 }
 
@@ -194,7 +221,7 @@ type pair struct {
 	value interface{}
 }
 
-func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
+func readPairamf0(r easyio.EasyReader, depth int) (p *pair, err error) {
 	p = &pair{}
 	p.key, err = decodeStringamf0(r)
 	if err != nil {
@@ -204,7 +231,7 @@ func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
 		return p, nil
 	}
 
-	_, p.value, err = decodeamf0(r)
+	p.value, err = decodeamf0(r, depth+1)
 	if err != nil {
 		return p, err
 	}
@@ -216,7 +243,7 @@ func decodeReferenceamf0(r easyio.EasyReader) (index uint16, err error) {
 	return index, err
 }
 
-func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err error) {
+func decodeEcmaArrayamf0(r easyio.EasyReader, depth int) (res map[string]interface{}, err error) {
 	var length uint32
 	err = binary.Read(r, binary.BigEndian, &length)
 	if err != nil {
@@ -227,7 +254,7 @@ func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err e
 	var i uint32
 	var p *pair
 	for i = 0; i <= length; i++ { //length: 00 00 09
-		p, err = readPairamf0(r)
+		p, err = readPairamf0(r, depth)
 		if err != nil {
 			return res, err
 		}
@@ -239,7 +266,7 @@ func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err e
 	return res, nil
 }
 
-func decodeStrictArrayamf0(r easyio.EasyReader) (res []interface{}, err error) {
+func decodeStrictArrayamf0(r easyio.EasyReader, depth int) (res []interface{}, err error) {
 	var length uint32
 	err = binary.Read(r, binary.BigEndian, &length)
 	if err != nil {
@@ -249,7 +276,7 @@ func decodeStrictArrayamf0(r easyio.EasyReader) (res []interface{}, err error) {
 	var i uint32
 	var item interface{}
 	for i = 0; i < length; i++ {
-		_, item, err = decodeamf0(r)
+		item, err = decodeamf0(r, depth+1)
 		if err != nil {
 			return res, err
 		}
-- 
2.43.0


From 1f53afcbcf19b12d02e46864c8477653d6f55c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 26/60] fix: do not allocate the declared length of an AMF0
 string up front

---
 libamf/amf0.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index ed7f245..36f9e3e 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -183,10 +183,14 @@ func decodeLongStringamf0(r easyio.EasyReader) (str string, err error) {
 
 //TODO: utf-8 support
 func readByteamf0(r easyio.EasyReader, length uint32) (b []byte, err error) {
-	b, err = r.ReadN(uint32(length))
+	//The declared length is the peer's: allocate as the bytes arrive.
+	b, err = io.ReadAll(io.LimitReader(r, int64(length)))
 	if err != nil {
 		return nil, err
 	}
+	if uint32(len(b)) != length {
+		return nil, io.ErrUnexpectedEOF
+	}
 	return b, nil
 }
 
-- 
2.43.0


From ce96288a6554e1ff572b7e2d89216d917c9a4114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:45 +0000
Subject: [PATCH 27/60] fix: consume the AMF0 object end marker

---
 libamf/amf0.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index 36f9e3e..7f3c1c3 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -232,6 +232,16 @@ func readPairamf0(r easyio.EasyReader, depth int) (p *pair, err error) {
 		return p, err
 	}
 	if p.key == "" {
+		//An empty key announces the end marker, which belongs to the
+		//object and not to whatever follows it.
+		var marker Marker
+		marker, err = readMarkeramf0(r)
+		if err != nil {
+			return p, err
+		}
+		if marker != ObjectEndMarker {
+			return p, errors.New("amf0 object end marker missing")
+		}
 		return p, nil
 	}
 
@@ -254,10 +264,10 @@ func decodeEcmaArrayamf0(r easyio.EasyReader, depth int) (res map[string]interfa
 		return res, err
 	}
 
+	//length is only a hint: the end marker closes the array.
 	res = make(map[string]interface{})
-	var i uint32
 	var p *pair
-	for i = 0; i <= length; i++ { //length: 00 00 09
+	for {
 		p, err = readPairamf0(r, depth)
 		if err != nil {
 			return res, err
-- 
2.43.0


From ecae597efd4dbeb6a3cd24691a2997b8a6d16a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 28/60] fix: refuse AMF0 object keys longer than their length
 prefix

---
 libamf/amf0.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index 7f3c1c3..9366e0a 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -445,6 +445,9 @@ func encodeObjectamf0(w easyio.EasyWriter, obj reflect.Value, encodeMarker bool)
 		if key.Kind() != reflect.String {
 			return errors.New("invalid type")
 		}
+		if key.Len() > 0xffff {
+			return errors.New("amf0 object key too long")
+		}
 		err = encodeamf0(w, key.String(), false)
 		if err != nil {
 			return err
-- 
2.43.0


From 53c04b58bd17649983c413f16277591c8d56a6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 29/60] fix: release playlist waiters when the segment
 directory cannot be made

---
 libdash/dash.go |  6 +++---
 libhls/hls.go   | 14 +++++++-------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index c5aeebc..d526693 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -184,13 +184,13 @@ func (d *DASH) stopRequested() bool {
 // fragments and writes them to disk. Returns when the publisher
 // disconnects or Stop is called.
 func (d *DASH) Start(gopReader *broadcast.BroadcastReader) error {
-	if err := os.MkdirAll(d.dir, 0o755); err != nil {
-		return fmt.Errorf("mkdir %s: %w", d.dir, err)
-	}
 	defer func() {
 		d.flushCurrent()
 		d.readyOnce.Do(func() { close(d.ready) })
 	}()
+	if err := os.MkdirAll(d.dir, 0o755); err != nil {
+		return fmt.Errorf("mkdir %s: %w", d.dir, err)
+	}
 
 	for {
 		if d.stopRequested() {
diff --git a/libhls/hls.go b/libhls/hls.go
index 0c96d7a..f6ca66a 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -306,6 +306,13 @@ func (hls *HLS) stopRequested() bool {
 
 //start to generate ts segments.
 func (hls *HLS) Start(gopReader *broadcast.BroadcastReader) (err error) {
+	defer func() {
+		//On graceful exit (publisher gone or Stop called) finalise the
+		//current segment so players don't lose the last few seconds.
+		hls.finaliseCurrent()
+		hls.readyOnce.Do(func() { close(hls.ready) })
+	}()
+
 	if err := os.MkdirAll(hls.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", hls.dir, err)
 	}
@@ -316,13 +323,6 @@ func (hls *HLS) Start(gopReader *broadcast.BroadcastReader) (err error) {
 	//0x24 the moment we see an HEVC tag.
 	hls.Pat = newPAT(0x1B)
 
-	defer func() {
-		//On graceful exit (publisher gone or Stop called) finalise the
-		//current segment so players don't lose the last few seconds.
-		hls.finaliseCurrent()
-		hls.readyOnce.Do(func() { close(hls.ready) })
-	}()
-
 outer:
 	for {
 		if hls.stopRequested() {
-- 
2.43.0


From 9ceb3da8f309a537945eab098c1952796412d25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:07 +0000
Subject: [PATCH 30/60] fix: leave no segment behind when the segmenter is
 stopped

---
 libdash/dash.go |  7 +++++++
 libhls/hls.go   | 13 +++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index d526693..d42cd31 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -504,6 +504,13 @@ func (d *DASH) flushCurrent() error {
 	endTime := d.currentSamples[len(d.currentSamples)-1].dts +
 		uint64(samples[len(samples)-1].Duration)
 	d.mu.Lock()
+	if d.stopRequested() {
+		//Stop already removed the listed segments; this one would stay
+		//behind.
+		d.mu.Unlock()
+		_ = os.Remove(filepath.Join(d.dir, filename))
+		return nil
+	}
 	d.segments = append(d.segments, segmentInfo{
 		seq:       seq,
 		filename:  filename,
diff --git a/libhls/hls.go b/libhls/hls.go
index f6ca66a..046c60a 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -282,10 +282,8 @@ func (hls *HLS) Stop() {
 	if !atomic.CompareAndSwapInt32(&hls.stopped, 0, 1) {
 		return
 	}
-	if hls.currentFile != nil {
-		_ = hls.currentFile.Close()
-		hls.currentFile = nil
-	}
+	//The open segment belongs to Start's goroutine: finaliseCurrent closes
+	//and removes it once it sees the flag.
 	hls.mu.Lock()
 	hls.currentSegName = ""
 	segs := append([]segmentInfo(nil), hls.segments...)
@@ -720,6 +718,13 @@ func (hls *HLS) finaliseCurrent() {
 	}
 
 	hls.mu.Lock()
+	if hls.stopRequested() {
+		//Stop already removed the listed segments; this one would stay
+		//behind.
+		hls.mu.Unlock()
+		_ = os.Remove(filepath.Join(hls.dir, name))
+		return
+	}
 	seg := segmentInfo{
 		filename: name,
 		seq:      hls.nextSeq,
-- 
2.43.0


From 652772c73f97cfddd64ac93b6919c89214a733de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 31/60] fix: widen timestamps before scaling them to 90 kHz

---
 libhls/hls.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 046c60a..30f213b 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -422,7 +422,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			}
 			pid = libmpeg.AUDIO_PID
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.AUDIO_PID]
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
 			pes.Index = 0
@@ -464,7 +464,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.VIDEO_PID]
 			pes.StreamType = 0x1B
 
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS = pes.DTS
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
@@ -508,7 +508,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			videoKey = pv.FrameType == libflv.KEY_FRAME
 			pid = libmpeg.VIDEO_PID
 
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS = pes.DTS
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
-- 
2.43.0


From 4baeda08094b1c80ac71688a167566cdf152f5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:51 +0000
Subject: [PATCH 32/60] fix: composition time offsets are signed

---
 libflv/video.go       | 4 ++--
 libhls/hls.go         | 4 ++--
 librtmp/srt_server.go | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libflv/video.go b/libflv/video.go
index 57888c4..e2ac8d1 100644
--- a/libflv/video.go
+++ b/libflv/video.go
@@ -36,7 +36,7 @@ type VideoTag struct {
 	CodecID       uint8 //4bits
 	VideoData     []byte
 	AVCPacketType uint8
-	Cts           uint32 //CompositionTime, int24
+	Cts           uint32 //CompositionTime, int24, sign-extended
 }
 
 func ParseVideoTag(tb TagBase, b []byte) (video *VideoTag, err error) {
@@ -57,7 +57,7 @@ func ParseVideoTag(tb TagBase, b []byte) (video *VideoTag, err error) {
 			return nil, errors.New("invalid video format")
 		}
 		video.AVCPacketType = b[1]
-		video.Cts = uint32(0x00)<<24 | uint32(b[2])<<16 | uint32(b[3])<<8 | uint32(b[4])
+		video.Cts = uint32(int32(uint32(b[2])<<24|uint32(b[3])<<16|uint32(b[4])<<8) >> 8)
 		video.VideoData = b[5:]
 	}
 
diff --git a/libhls/hls.go b/libhls/hls.go
index 30f213b..df280db 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -488,7 +488,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			}
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(pv.Cts*90)
+				pes.PTS = pes.DTS + uint64(int64(int32(pv.Cts))*90)
 			}
 			return pes, pid, videoKey, false
 
@@ -517,7 +517,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.Data = avccToAnnexB(pv.Data())
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(pv.Cts*90)
+				pes.PTS = pes.DTS + uint64(int64(int32(pv.Cts))*90)
 			}
 			return pes, pid, videoKey, false
 
diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index cf74c85..fefaca2 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -152,7 +152,7 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 		avcc = append(avcc, n...)
 	}
 	tagTS := uint32(au.DTS / 90) //PTS/DTS in 90 kHz; FLV in ms
-	cts := uint32((au.PTS - au.DTS) / 90)
+	cts := uint32(int64(au.PTS-au.DTS) / 90)
 	vt := &libflv.VideoTag{
 		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: tagTS},
 		FrameType:     frameType,
-- 
2.43.0


From c8e59bc2335e5cda853a1f745d15387dfb1fc939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 33/60] fix: replace the AVC parameter sets on a new sequence
 header

---
 libavc/avc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libavc/avc.go b/libavc/avc.go
index 017a5f5..1ae8d21 100644
--- a/libavc/avc.go
+++ b/libavc/avc.go
@@ -98,9 +98,9 @@ func (parser *Parser) ParseSpecificInfo(src []byte) error {
 	}
 
 	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:]...)
+	pps = append(pps, tmpBuf[3:3+seq.ppsLen]...)
 
-	parser.SpecificInfo = append(parser.SpecificInfo, sps...)
+	parser.SpecificInfo = append([]byte{}, sps...)
 	parser.SpecificInfo = append(parser.SpecificInfo, pps...)
 
 	return nil
-- 
2.43.0


From 19ffa44e360ec7e9c8b6f92418493f4ceacd58f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 34/60] fix: ADTS channel configuration has three bits

---
 libaac/aac.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libaac/aac.go b/libaac/aac.go
index 5823ceb..fa3b5e4 100644
--- a/libaac/aac.go
+++ b/libaac/aac.go
@@ -31,7 +31,7 @@ func (ah *AACHeader) Adts(data []byte) (header []byte) {
 	return []byte{
 		0xff,
 		0xf1,
-		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2),
+		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2) | ((ah.Channel >> 2) & 0x01),
 		((ah.Channel << 2) << 4) | uint8((frameLen<<3)>>14),
 		uint8((frameLen << 5) >> 8),
 		uint8(((frameLen<<13)>>13)<<5) | ((0x7c << 1) >> 3),
-- 
2.43.0


From e9eee7048d6c0e2c24eedf77536f974a6aed9a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:58 +0000
Subject: [PATCH 35/60] fix: drop AAC frames too long for an ADTS header

---
 libaac/aac.go | 4 ++++
 libhls/hls.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/libaac/aac.go b/libaac/aac.go
index fa3b5e4..7d2b45e 100644
--- a/libaac/aac.go
+++ b/libaac/aac.go
@@ -8,6 +8,10 @@ var (
 	AACRates = [...]int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
 )
 
+//MaxFrameLen is the longest payload Adts can describe: its length field has
+//13 bits and counts the 7 header bytes too.
+const MaxFrameLen = 1<<13 - 1 - 7
+
 type AACHeader struct {
 	ObjectType uint8
 	SampleRate uint8
diff --git a/libhls/hls.go b/libhls/hls.go
index df280db..3c5c5f9 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -428,6 +428,9 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.Index = 0
 			pes.HeaderIndex = 0
 
+			if len(pa.Data()) > libaac.MaxFrameLen {
+				return nil, 0, false, true
+			}
 			aacHeader := hls.Ah.Adts(pa.Data())
 			pes.Data = append(aacHeader, pa.Data()...)
 
-- 
2.43.0


From 90af62629340eba8f3f119c5287b8c1e85cebab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 36/60] fix: bound the reference frame count read from an SPS

---
 libdash/dash.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libdash/dash.go b/libdash/dash.go
index d42cd31..f9359a2 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -641,6 +641,9 @@ func parseSPSDimensions(sps []byte) (width, height uint16) {
 		_ = br.readSE()
 		_ = br.readSE()
 		n := br.readUE()
+		if n > 255 { //H.264 7.4.2.1.1
+			return 0, 0
+		}
 		for i := uint32(0); i < n; i++ {
 			_ = br.readSE()
 		}
-- 
2.43.0


From ab11bec52921951366ae989ecd18a6376d2fdc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 37/60] fix: no wrapped durations when timestamps step back

---
 libdash/dash.go | 15 ++++++++-------
 libhls/hls.go   |  6 +++---
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index f9359a2..4049d4f 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -467,19 +467,22 @@ func (d *DASH) flushCurrent() error {
 	d.mu.Unlock()
 
 	startTime := d.currentSamples[0].dts
+	var total uint64 //the publisher's timestamps may step back
 	samples := make([]libmp4.Sample, 0, len(d.currentSamples))
 	for i, s := range d.currentSamples {
 		var dur uint64
 		if i+1 < len(d.currentSamples) {
-			dur = d.currentSamples[i+1].dts - s.dts
+			if next := d.currentSamples[i+1].dts; next > s.dts {
+				dur = next - s.dts
+			}
 		} else {
 			//Last sample: use previous interval as a best-guess.
-			if i > 0 {
+			dur = 33 //~30fps fallback
+			if i > 0 && s.dts > d.currentSamples[i-1].dts {
 				dur = s.dts - d.currentSamples[i-1].dts
-			} else {
-				dur = 33 //~30fps fallback
 			}
 		}
+		total += dur
 		samples = append(samples, libmp4.Sample{
 			Duration:              uint32(dur),
 			Size:                  uint32(len(s.data)),
@@ -501,8 +504,6 @@ func (d *DASH) flushCurrent() error {
 		return fmt.Errorf("write fragment: %w", err)
 	}
 
-	endTime := d.currentSamples[len(d.currentSamples)-1].dts +
-		uint64(samples[len(samples)-1].Duration)
 	d.mu.Lock()
 	if d.stopRequested() {
 		//Stop already removed the listed segments; this one would stay
@@ -515,7 +516,7 @@ func (d *DASH) flushCurrent() error {
 		seq:       seq,
 		filename:  filename,
 		startTime: startTime,
-		duration:  endTime - startTime,
+		duration:  total,
 	})
 	d.nextSeq++
 	for len(d.segments) > d.windowSize {
diff --git a/libhls/hls.go b/libhls/hls.go
index 3c5c5f9..10882db 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -396,7 +396,7 @@ outer:
 		//GOPs). Performed AFTER muxing so the just-written PES belongs
 		//to the part we're closing — the next part starts at the
 		//current write offset.
-		if hls.llEnabled && hls.currentFile != nil {
+		if hls.llEnabled && hls.currentFile != nil && pes.DTS > hls.partStartDTS {
 			partDur := float64(pes.DTS-hls.partStartDTS) / 90000.0
 			if partDur*float64(time.Second) >= float64(hls.partTargetDur) {
 				hls.closeCurrentPart(pes.DTS, false)
@@ -631,10 +631,10 @@ func (hls *HLS) closeCurrentPart(endDTS uint64, nextIndependent bool) {
 	if hls.currentFile == nil {
 		return
 	}
-	dur := float64(endDTS-hls.partStartDTS) / 90000.0
-	if dur <= 0 {
+	if endDTS <= hls.partStartDTS {
 		return
 	}
+	dur := float64(endDTS-hls.partStartDTS) / 90000.0
 	length := hls.currentBytes - hls.partStartOffset
 	if length <= 0 {
 		return
-- 
2.43.0


From 82ec8fb15b0441f68c90a0f1a676a06511c1159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 38/60] fix: stuff short TS packets to 188 bytes

---
 libmpeg/ts.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmpeg/ts.go b/libmpeg/ts.go
index 82a3ce3..53ecd67 100644
--- a/libmpeg/ts.go
+++ b/libmpeg/ts.go
@@ -127,7 +127,8 @@ func (af *AdaptationField) Parse(reader easyio.EasyReader) (err error) {
 
 func (af *AdaptationField) Marshal(writer easyio.EasyWriter) (n uint8, err error) {
 	if af.AdaptationFieldLength < 1 {
-		return 0, fmt.Errorf("invalid1 AdaptationFieldLength:%d", af.AdaptationFieldLength)
+		//The length byte alone is the single stuffing byte.
+		return 1, writer.WriteFull([]byte{0x00})
 	}
 
 	b := make([]byte, 0, af.AdaptationFieldLength+1)
@@ -270,7 +271,7 @@ func (ts *TS) Mux(psi PSI, firstTSofKeyFrame bool, dts uint64, writer easyio.Eas
 
 		if remain := psi.Remain(); remain < int(writable-headerSize) {
 			ts.AdaptationFieldExist |= 0x02
-			ts.AdaptationField.AdaptationFieldLength = uint8(int(writable-headerSize) - remain - 1)
+			ts.AdaptationField.AdaptationFieldLength = uint8(int(writable) - 4 - remain - 1)
 		}
 	}
 
-- 
2.43.0


From e9d099760ea3b629e866af1a211d21da4c063921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 39/60] fix: PAT version and PMT length fields

---
 libmpeg/psi.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmpeg/psi.go b/libmpeg/psi.go
index 59dd730..148ea1e 100644
--- a/libmpeg/psi.go
+++ b/libmpeg/psi.go
@@ -102,7 +102,7 @@ func (pat *PAT) Marshal(writer easyio.EasyWriter, writable int) (n int, finish b
 		uint8(pat.SectionLength & 0xff),
 		uint8((pat.TransportStreamID >> 8) & 0xff),
 		uint8(pat.TransportStreamID & 0xff),
-		0xc0 | ((pat.VersionNumber << 1) & 0x37) | (pat.CurrentNextIndicator & 0x01),
+		0xc0 | ((pat.VersionNumber << 1) & 0x3e) | (pat.CurrentNextIndicator & 0x01),
 		pat.SectionNumber,
 		pat.LastSectionNumber,
 	}
@@ -166,14 +166,14 @@ func (pmt *PMT) Parse(reader easyio.EasyReader) (err error) {
 
 	pmt.TableID = b1[0]
 	pmt.SectionSyntaxIndicator = (b1[1] & 0x80) >> 7
-	pmt.SectionLength = uint16((b1[1]&0x0f)<<8) + uint16(b1[2])
+	pmt.SectionLength = uint16(b1[1]&0x0f)<<8 + uint16(b1[2])
 	pmt.ProgramNumber = uint16(b1[3])<<8 + uint16(b1[4])
 	pmt.VersionNumber = (b1[5] & 0x3e) >> 1
 	pmt.CurrentNextIndicator = b1[5] & 0x01
 	pmt.SectionNumber = b1[6]
 	pmt.LastSectionNumber = b1[7]
 	pmt.PCR_PID = uint16(b1[8]&0x1f)<<8 + uint16(b1[9])
-	pmt.ProgramInfoLength = uint16((b1[10]&0x0f)<<8 + b1[11])
+	pmt.ProgramInfoLength = uint16(b1[10]&0x0f)<<8 + uint16(b1[11])
 
 	if pmt.TableID != 0x02 {
 		return fmt.Errorf("invalid TableID of PMT, TableID:%d", pmt.TableID)
-- 
2.43.0


From 6c468d48afe125f0730d0ef875c951c701c1b095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 40/60] fix: write the ninth bit of the PCR extension

---
 libmpeg/ts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpeg/ts.go b/libmpeg/ts.go
index 53ecd67..1187de4 100644
--- a/libmpeg/ts.go
+++ b/libmpeg/ts.go
@@ -139,7 +139,7 @@ func (af *AdaptationField) Marshal(writer easyio.EasyWriter) (n uint8, err error
 		if af.AdaptationFieldLength < 7 {
 			return 0, fmt.Errorf("invalid2 AdaptationFieldLength:%d", af.AdaptationFieldLength)
 		}
-		b = append(b, uint8(af.ProgramClockReferenceBase>>25), uint8(af.ProgramClockReferenceBase>>17), uint8(af.ProgramClockReferenceBase>>9), uint8(af.ProgramClockReferenceBase>>1), ((uint8(af.ProgramClockReferenceBase) & 0x01 << 7) | 0x7e), uint8(af.ProgramClockReferenceExtension) /*|(uint8(af.ProgramClockReferenceExtension)&0x01)*/)
+		b = append(b, uint8(af.ProgramClockReferenceBase>>25), uint8(af.ProgramClockReferenceBase>>17), uint8(af.ProgramClockReferenceBase>>9), uint8(af.ProgramClockReferenceBase>>1), ((uint8(af.ProgramClockReferenceBase)&0x01<<7)|0x7e)|(uint8(af.ProgramClockReferenceExtension>>8)&0x01), uint8(af.ProgramClockReferenceExtension))
 	}
 
 	var err1, err2 error
-- 
2.43.0


From 938177965d6353b47be3bffbaf6b8e8dad02533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:11 +0000
Subject: [PATCH 41/60] fix: refuse an SRT conclusion without induction

---
 libsrt/listener.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrt/listener.go b/libsrt/listener.go
index 867c791..191f9dc 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -244,8 +244,8 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 		l.sendControl(peer, CtrlHandshake, 0, 0, sess, reply.Marshal())
 
 	case HSTypeConclusion:
-		if hs.SyncCookie != sess.cookie {
-			//Wrong cookie — quietly drop. Real SRT rejects.
+		if sess.cookie == 0 || hs.SyncCookie != sess.cookie {
+			//No induction, or wrong cookie — quietly drop. Real SRT rejects.
 			return
 		}
 		sess.peerSocketID = hs.SrtSocketID
-- 
2.43.0


From 5523ca968688edc6a6eeaa83e7100590e74f51a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:14 +0000
Subject: [PATCH 42/60] fix: keep SRT sequence numbers within 31 bits

---
 libsrt/listener.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libsrt/listener.go b/libsrt/listener.go
index 191f9dc..272d55f 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -165,12 +165,12 @@ func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
 		//NAK so the sender can retransmit; either it arrives before we
 		//hand off media (benign) or we've already moved past it.
 		from := sess.expectedSeq
-		to := hdr.SeqNumber - 1
-		sess.expectedSeq = hdr.SeqNumber + 1
+		to := (hdr.SeqNumber - 1) & 0x7FFFFFFF
+		sess.expectedSeq = (hdr.SeqNumber + 1) & 0x7FFFFFFF
 		sess.mu.Unlock()
 		l.sendNAK(sess, from, to)
 	default:
-		sess.expectedSeq++
+		sess.expectedSeq = (sess.expectedSeq + 1) & 0x7FFFFFFF
 		sess.mu.Unlock()
 	}
 	if l.onData != nil {
@@ -249,7 +249,7 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 			return
 		}
 		sess.peerSocketID = hs.SrtSocketID
-		sess.expectedSeq = hs.InitialSequence
+		sess.expectedSeq = hs.InitialSequence & 0x7FFFFFFF
 		sess.concluded = true
 
 		reply := *hs
-- 
2.43.0


From 3e9afa46816f8cf0e42dc96e02d481d0c83c3ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 43/60] fix: end an SRT stream with its publisher

---
 librtmp/srt_server.go | 29 +++++++++++++++--
 libsrt/listener.go    | 74 +++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 97 insertions(+), 6 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index fefaca2..26d2195 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -47,16 +47,15 @@ func startSRT(srv *server, spec srtSpec) {
 	br := &srtBridge{
 		spec:   spec,
 		server: srv,
-		demux:  libsrt.NewDemuxer(),
 	}
-	br.demux.OnVideo = br.onVideo
-	br.demux.OnAudio = br.onAudio
+	br.resetDemux()
 
 	listener, err := libsrt.Listen(spec.address, spec.streamID, br.onData)
 	if err != nil {
 		fmt.Printf("srt listen %s: %v\n", spec.address, err)
 		return
 	}
+	listener.OnClose(br.onClose)
 	go func() {
 		if err := listener.Run(); err != nil {
 			fmt.Printf("srt run %s: %v\n", spec.address, err)
@@ -64,6 +63,30 @@ func startSRT(srv *server, spec srtSpec) {
 	}()
 }
 
+// resetDemux prepares for the transport stream of a new publisher.
+func (br *srtBridge) resetDemux() {
+	br.demux = libsrt.NewDemuxer()
+	br.demux.OnVideo = br.onVideo
+	br.demux.OnAudio = br.onAudio
+	br.emittedVideoSeqHdr = false
+	br.emittedAudioSeqHdr = false
+	br.cachedSPS = nil
+	br.cachedPPS = nil
+}
+
+// onClose releases the room once its publisher is gone, so subscribers
+// stop and the stream can be published again.
+func (br *srtBridge) onClose(streamID string) {
+	br.mu.Lock()
+	defer br.mu.Unlock()
+	if br.room == nil {
+		return
+	}
+	br.room.Publisher.cleanup()
+	br.room = nil
+	br.resetDemux()
+}
+
 // onData feeds raw TS bytes from the SRT listener into the demuxer.
 // Lazy-allocates the Room on first invocation so empty publishes don't
 // pollute the App's room map.
diff --git a/libsrt/listener.go b/libsrt/listener.go
index 272d55f..fd3d645 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -27,6 +27,7 @@ type Listener struct {
 	conn       *net.UDPConn
 	streamID   string
 	onData     DataHandler
+	onClose    func(streamID string)
 
 	mu       sync.Mutex
 	sessions map[string]*session
@@ -77,12 +78,75 @@ func Listen(addr, streamID string, onData DataHandler) (*Listener, error) {
 	return l, nil
 }
 
+// OnClose registers fn, called from Run's goroutine when a session that
+// was allowed to publish ends: shut down by the peer, silent for
+// sessionTimeout, or cut off because the socket closed. Call it before Run.
+func (l *Listener) OnClose(fn func(streamID string)) { l.onClose = fn }
+
+// sessionTimeout matches SRT's default peer idle timeout.
+const (
+	sessionTimeout = 5 * time.Second
+	sweepInterval  = time.Second
+)
+
+// endSession forgets the session and reports the end of its stream.
+func (l *Listener) endSession(key string) {
+	l.mu.Lock()
+	sess := l.sessions[key]
+	delete(l.sessions, key)
+	l.mu.Unlock()
+	if sess != nil && sess.concluded && l.onClose != nil {
+		l.onClose(sess.streamID)
+	}
+}
+
+// expireSessions ends the sessions not heard from since deadline.
+func (l *Listener) expireSessions(deadline time.Time) {
+	l.mu.Lock()
+	var gone []string
+	for key, sess := range l.sessions {
+		if sess.lastSeen.Before(deadline) {
+			gone = append(gone, key)
+		}
+	}
+	l.mu.Unlock()
+	for _, key := range gone {
+		l.endSession(key)
+	}
+}
+
+// publishing reports whether a session other than sess holds the stream.
+func (l *Listener) publishing(sess *session) bool {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	for _, s := range l.sessions {
+		if s != sess && s.concluded && s.streamID == sess.streamID {
+			return true
+		}
+	}
+	return false
+}
+
 // Run drives the receive loop until the underlying socket closes.
 // Caller is responsible for invoking Close().
 func (l *Listener) Run() error {
+	defer func() {
+		l.expireSessions(time.Now().Add(sessionTimeout))
+	}()
 	buf := make([]byte, 1500)
+	lastSweep := time.Now()
 	for {
+		if err := l.conn.SetReadDeadline(time.Now().Add(sweepInterval)); err != nil {
+			return err
+		}
 		n, peer, err := l.conn.ReadFromUDP(buf)
+		if now := time.Now(); now.Sub(lastSweep) >= sweepInterval {
+			lastSweep = now
+			l.expireSessions(now.Add(-sessionTimeout))
+		}
+		if ne, ok := err.(net.Error); ok && ne.Timeout() {
+			continue
+		}
 		if err != nil {
 			return err
 		}
@@ -116,9 +180,7 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 			l.handleHandshake(peer, hdr, body)
 		case CtrlShutdown:
 			if sess != nil {
-				l.mu.Lock()
-				delete(l.sessions, key)
-				l.mu.Unlock()
+				l.endSession(key)
 			}
 		case CtrlKeepAlive:
 			if sess != nil {
@@ -225,6 +287,7 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 		l.sessions[key] = sess
 	}
 	l.mu.Unlock()
+	sess.lastSeen = time.Now()
 
 	switch hs.HandshakeType {
 	case HSTypeAgreement: //v5 INDUCTION
@@ -248,6 +311,11 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 			//No induction, or wrong cookie — quietly drop. Real SRT rejects.
 			return
 		}
+		if l.publishing(sess) {
+			//One publisher per stream: the data of a second one would be
+			//mixed into the first one's transport stream.
+			return
+		}
 		sess.peerSocketID = hs.SrtSocketID
 		sess.expectedSeq = hs.InitialSequence & 0x7FFFFFFF
 		sess.concluded = true
-- 
2.43.0


From f7077a0ca08baea27730e9df4f087ff3124858d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 44/60] fix: drop FU-A fragments whose start was lost

---
 librtsp/rtp_unpack.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/librtsp/rtp_unpack.go b/librtsp/rtp_unpack.go
index 0a63d49..e8f1ae3 100644
--- a/librtsp/rtp_unpack.go
+++ b/librtsp/rtp_unpack.go
@@ -121,6 +121,10 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 			//indicator's NRI bits + the FU header's type.
 			r.fuBuf = []byte{(hdr & 0xE0) | origType}
 		}
+		if r.fuBuf == nil {
+			//The start of this NAL was lost: the rest has no header.
+			return nil, 0
+		}
 		r.fuBuf = append(r.fuBuf, pkt.Payload[2:]...)
 		if end {
 			r.pending = append(r.pending, r.fuBuf)
-- 
2.43.0


From f8f792d73b2bca20ee3d1b8832742fe40c5ae6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 45/60] fix: an interleaved SETUP replaces the UDP one

---
 librtmp/rtsp_server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 303bb27..695c364 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -322,6 +322,13 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 			s.videoUDPRTCP = udpSocks[1]
 			s.peerVideoRTP = rtpPeer
 		}
+	} else if isAudio {
+		//A previous SETUP may have chosen UDP for this track.
+		closeUDPPair(s.audioUDP, s.audioUDPRTCP)
+		s.audioUDP, s.audioUDPRTCP = nil, nil
+	} else {
+		closeUDPPair(s.videoUDP, s.videoUDPRTCP)
+		s.videoUDP, s.videoUDPRTCP = nil, nil
 	}
 
 	if s.sessionID == "" {
-- 
2.43.0


From b82d0cef65c0c3023ae1f1fd09ef1770cc944613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 46/60] fix: take RTP over UDP from the publisher only

---
 librtmp/rtsp_ingest.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index a8ab4fd..7cdd710 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -206,12 +206,17 @@ func (s *rtspSession) runIngestLoop() {
 // runUDPReader pumps RTP packets off a per-track UDP socket. isAudio
 // distinguishes the two depacketisation paths.
 func (s *rtspSession) runUDPReader(c *net.UDPConn, isAudio bool) {
+	peer := s.peerHostIP()
 	buf := make([]byte, 1500)
 	for atomic.LoadInt32(&s.recording) == 1 {
-		n, _, err := c.ReadFromUDP(buf)
+		n, from, err := c.ReadFromUDP(buf)
 		if err != nil {
 			return
 		}
+		if !from.IP.Equal(peer) {
+			//Anyone can reach the port; only the publisher may feed it.
+			continue
+		}
 		pkt, perr := librtsp.ParseRTP(append([]byte(nil), buf[:n]...))
 		if perr != nil {
 			continue
-- 
2.43.0


From 6694cc3e40acd9ce914d659352bafc5e9c9ab434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 47/60] fix: drop Opus packets longer than an interleaved frame

---
 librtmp/rtsp_server.go | 3 +++
 librtsp/rtp.go         | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 695c364..728150c 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -571,6 +571,9 @@ func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 		//Opus RTP clock is fixed at 48 kHz per RFC 7587 §4.1.
 		ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * librtsp.OpusClockRate / 1000)
 		payload := librtsp.PackOpusFrame(tag.Data())
+		if len(payload) > librtsp.MaxRTPPayload {
+			return nil //no real Opus packet is this long
+		}
 		pkt := s.audioRTP.Pack(true, ts, payload)
 		return s.writeInterleaved(uint8(s.audioChan), pkt)
 	}
diff --git a/librtsp/rtp.go b/librtsp/rtp.go
index 5c40c90..e687743 100644
--- a/librtsp/rtp.go
+++ b/librtsp/rtp.go
@@ -8,6 +8,10 @@ import (
 // extension headers, or CSRC entries, so the header is always 12 bytes.
 const rtpHeaderSize = 12
 
+// MaxRTPPayload keeps an RTP packet within the 16-bit length of the
+// interleaved framing.
+const MaxRTPPayload = 0xFFFF - rtpHeaderSize
+
 // rtpVersion is the version field (2 bits, value 2 since RFC 3550).
 const rtpVersion = 2
 
-- 
2.43.0


From 3b75210e48d958657b313cdb88ec4983df480330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 48/60] fix: bound the PES data buffered by the TS demuxer

---
 libsrt/tsdemux.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index c6a5add..08c8f56 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -163,6 +163,10 @@ func (d *Demuxer) parsePMT(payload []byte) {
 	}
 }
 
+// maxPESLen bounds what one PES unit may buffer: a sender that never
+// starts a new one must not exhaust memory.
+const maxPESLen = 16 << 20
+
 // feedVideo / feedAudio buffer PES bytes, flushing on PUSI boundaries.
 // Internally we treat one PES unit as one access unit (true for live
 // MPEG-TS produced by FFmpeg with -codec copy from H.264).
@@ -180,7 +184,9 @@ func (d *Demuxer) feedVideo(pusi bool, payload []byte) {
 		d.videoBuf = append(d.videoBuf[:0], body...)
 		return
 	}
-	d.videoBuf = append(d.videoBuf, payload...)
+	if len(d.videoBuf)+len(payload) <= maxPESLen {
+		d.videoBuf = append(d.videoBuf, payload...)
+	}
 }
 
 func (d *Demuxer) flushVideo() {
@@ -211,7 +217,9 @@ func (d *Demuxer) feedAudio(pusi bool, payload []byte) {
 		d.audioBuf = append(d.audioBuf[:0], body...)
 		return
 	}
-	d.audioBuf = append(d.audioBuf, payload...)
+	if len(d.audioBuf)+len(payload) <= maxPESLen {
+		d.audioBuf = append(d.audioBuf, payload...)
+	}
 }
 
 func (d *Demuxer) flushAudio() {
-- 
2.43.0


From 319f7f86cd21ec4dccd13bd3ca2f5653ee92ec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 49/60] fix: bound the RTP data buffered for one access unit

---
 librtsp/rtp_unpack.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/librtsp/rtp_unpack.go b/librtsp/rtp_unpack.go
index e8f1ae3..2d9d6df 100644
--- a/librtsp/rtp_unpack.go
+++ b/librtsp/rtp_unpack.go
@@ -76,8 +76,13 @@ type H264Reassembler struct {
 	fuBuf     []byte //in-progress FU-A reassembly
 	pending   [][]byte
 	pendingTS uint32
+	size      int //bytes buffered since the last marker
 }
 
+// maxAccessUnit bounds what one access unit may buffer: a sender that never
+// sets the marker must not exhaust memory.
+const maxAccessUnit = 16 << 20
+
 // Push feeds one parsed RTP packet into the reassembler. Returns the
 // list of NAL units that completed an access unit (the M-bit was set
 // on this packet) plus the access-unit timestamp; otherwise returns
@@ -86,6 +91,10 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 	if len(pkt.Payload) == 0 {
 		return nil, 0
 	}
+	r.size += len(pkt.Payload)
+	if r.size > maxAccessUnit {
+		r.fuBuf, r.pending, r.size = nil, nil, 0
+	}
 	r.pendingTS = pkt.Timestamp
 	hdr := pkt.Payload[0]
 	nalType := hdr & 0x1F
@@ -138,6 +147,7 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 		nals = r.pending
 		ts = r.pendingTS
 		r.pending = nil
+		r.size = len(r.fuBuf)
 		return
 	}
 	return nil, 0
-- 
2.43.0


From 0f9d83fe8c3f22ea2057f60f175162900c2881a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 50/60] fix: serve DASH files of streams without an HLS
 segmenter

---
 librtmp/server.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index 7aef9e8..dc05449 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -357,21 +357,6 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			return
 		}
 
-		hls := app.LoadHLS(roomID)
-		if hls == nil {
-			//DELAY mode: lazy-start the transcoder on first playlist
-			//hit so no-one is paying for HLS segmentation when no viewer
-			//is attached.
-			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
-				hls = app.startHLS(room)
-			}
-			if hls == nil {
-				w.WriteHeader(http.StatusNotFound)
-				return
-			}
-			hls.WaitFirstSegment()
-		}
-
 		//DASH dispatch (manifest + init + media segments). Lazy-start
 		//if WithDASH is on but no DASH instance exists yet.
 		switch {
@@ -392,6 +377,21 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			return
 		}
 
+		hls := app.LoadHLS(roomID)
+		if hls == nil {
+			//DELAY mode: lazy-start the transcoder on first playlist
+			//hit so no-one is paying for HLS segmentation when no viewer
+			//is attached.
+			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
+				hls = app.startHLS(room)
+			}
+			if hls == nil {
+				w.WriteHeader(http.StatusNotFound)
+				return
+			}
+			hls.WaitFirstSegment()
+		}
+
 		switch {
 		case strings.HasSuffix(file, ".m3u8"):
 			//LL-HLS blocking playlist reload: clients append
-- 
2.43.0


From a037f080cfb9e28f32200b948052e99d5755fad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:21 +0000
Subject: [PATCH 51/60] fix: refuse a connect that moves a publishing
 connection to another app

---
 librtmp/command_message.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index 51f7eab..7e8f42f 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -179,6 +179,10 @@ func (cm *CommandMessage) Do() (err error) {
 		if _, ok := cm.rtmp.server.apps[cm.CommandObject.App]; !ok {
 			return errors.Errorf("unknown app: %s", cm.CommandObject.App)
 		}
+		if cm.rtmp.room != nil {
+			//cleanup() looks the room up under the app it was published to.
+			return errors.New("connect on a connection that already publishes or plays a stream")
+		}
 		cm.rtmp.app = cm.CommandObject.App
 		err1 = NewWindowAcknowledgeSizeMessage(cm.MessageBase, uint32(2500000)).Send()
 		cm.rtmp.ownWindowAckSize = 2500000
-- 
2.43.0


From b2b054f6b2c318c85bcf6d65f4f27dbeb750fe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:34 +0000
Subject: [PATCH 52/60] fix: drop access units that do not fit an FLV tag

---
 libflv/flv.go          | 3 +++
 librtmp/rtsp_ingest.go | 3 +++
 librtmp/srt_server.go  | 5 ++++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/libflv/flv.go b/libflv/flv.go
index 417933d..5e4fb8a 100644
--- a/libflv/flv.go
+++ b/libflv/flv.go
@@ -38,6 +38,9 @@ func NewFLV(writer easyio.EasyWriter) *FLV {
 	}
 }
 
+// MaxDataSize is the largest tag body: FLV and RTMP give its length 24 bits.
+const MaxDataSize = 1<<24 - 1
+
 // FLVWrite serialises a single FLV tag (audio / video / script data).
 // Per FLV v10.1 §E.4.1, the tag header is:
 //
diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 7cdd710..be10c41 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -250,6 +250,9 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 		return
 	}
 	avcc := librtsp.AVCCFromNALs(nals)
+	if len(avcc) > libflv.MaxDataSize-5 {
+		return
+	}
 	frameType := uint8(libflv.INTER_FRAME)
 	if librtsp.ContainsKeyframe(nals) {
 		frameType = libflv.KEY_FRAME
diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 26d2195..fed7ade 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -174,6 +174,9 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 		avcc = append(avcc, sz[:]...)
 		avcc = append(avcc, n...)
 	}
+	if len(avcc) > libflv.MaxDataSize-5 {
+		return
+	}
 	tagTS := uint32(au.DTS / 90) //PTS/DTS in 90 kHz; FLV in ms
 	cts := uint32(int64(au.PTS-au.DTS) / 90)
 	vt := &libflv.VideoTag{
@@ -195,7 +198,7 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 // The first frame triggers the sequence-header emission derived from
 // the ADTS profile/rate/channel fields.
 func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
-	if len(af.Data) < 7 {
+	if len(af.Data) < 7 || len(af.Data)-7 > libflv.MaxDataSize-2 {
 		return
 	}
 	if af.Data[0] != 0xFF || (af.Data[1]&0xF0) != 0xF0 {
-- 
2.43.0


From d2be8bd8f346fd90d4ee3cba05a9220cab7164d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 53/60] fix: limit the length of an RTSP request line

---
 librtsp/message.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/librtsp/message.go b/librtsp/message.go
index 73293fa..fb3c2a6 100644
--- a/librtsp/message.go
+++ b/librtsp/message.go
@@ -118,12 +118,13 @@ func (resp *Response) Bytes() []byte {
 // readLine returns the next CRLF-terminated line without the CRLF.
 // Tolerates bare LF (which some clients emit).
 func readLine(r *bufio.Reader) (string, error) {
-	line, err := r.ReadString('\n')
+	//ReadSlice never buffers more than r holds: a line that does not end is
+	//an error rather than a way to exhaust memory.
+	line, err := r.ReadSlice('\n')
 	if err != nil {
 		return "", err
 	}
-	line = strings.TrimRight(line, "\r\n")
-	return line, nil
+	return strings.TrimRight(string(line), "\r\n"), nil
 }
 
 func readHeaders(r *bufio.Reader, h Headers) error {
-- 
2.43.0


From 4ec6811630f0dccd200a36cdd8c2658e3c67e953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 54/60] fix: limit the number of RTSP header lines

---
 librtsp/message.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/librtsp/message.go b/librtsp/message.go
index fb3c2a6..c4a1f77 100644
--- a/librtsp/message.go
+++ b/librtsp/message.go
@@ -28,6 +28,9 @@ const rtspVersion = "RTSP/1.0"
 // descriptions, a few kilobytes at most.
 const maxBodySize = 1 << 20
 
+// maxHeaders bounds the header lines of a request.
+const maxHeaders = 256
+
 // Request is one parsed RTSP request — methods reuse Go's
 // http.Header so callers can use Get / Set / Add idiomatically.
 type Request struct {
@@ -128,7 +131,7 @@ func readLine(r *bufio.Reader) (string, error) {
 }
 
 func readHeaders(r *bufio.Reader, h Headers) error {
-	for {
+	for n := 0; n < maxHeaders; n++ {
 		line, err := readLine(r)
 		if err != nil {
 			return err
@@ -144,6 +147,7 @@ func readHeaders(r *bufio.Reader, h Headers) error {
 		val := strings.TrimSpace(line[idx+1:])
 		h.Set(key, val)
 	}
+	return errors.New("too many header lines")
 }
 
 // titleCase rewrites "content-length" → "Content-Length", matching
-- 
2.43.0


From 53b67ece31bc89ca051ac5ab15f85beec041bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 55/60] fix: answer a failed WebSocket upgrade with 400 instead
 of an empty 200

---
 librtmp/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/librtmp/server.go b/librtmp/server.go
index dc05449..571dcc1 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -256,6 +256,7 @@ func (s *server) handleHTTPFlv(wg *sync.WaitGroup) error {
 			ws, err := upgradeWebSocket(w, r)
 			if err != nil {
 				fmt.Println("websocket upgrade error:", err)
+				w.WriteHeader(http.StatusBadRequest)
 				return
 			}
 			defer ws.Close()
-- 
2.43.0


From 865ed4920565735a06b5cc61f31e4c09c5f27dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 56/60] fix: a pull the upstream refuses ends instead of
 holding its name for ever

An _error answer counted as success and an onStatus of level error was
ignored, so a refused connect, createStream or play left the local stream
claimed with nobody publishing it and no retry.
---
 librtmp/client.go          |  4 ++--
 librtmp/command_message.go | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/librtmp/client.go b/librtmp/client.go
index 9f8b367..300ec9a 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -177,8 +177,8 @@ func (rtmp *RTMP) sendCommandRaw(name string, txnID int, cmdObject map[string]in
 }
 
 // expectResult pumps ParseMessage until rtmp.resultCount advances —
-// CommandMessage.Do bumps it on every _result/_error. Returns ErrTimeout
-// if the deadline is reached without progress.
+// CommandMessage.Do bumps it on every _result, and fails on _error. Returns
+// ErrTimeout if the deadline is reached without progress.
 func (rtmp *RTMP) expectResult(timeout time.Duration) error {
 	start := atomic.LoadUint32(&rtmp.resultCount)
 	deadline := time.Now().Add(timeout)
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index 7e8f42f..a310454 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -75,6 +75,10 @@ type CommandMessage struct {
 
 	// Reader flag toggles for receiveAudio / receiveVideo.
 	BoolFlag bool
+
+	// Info object of onStatus / _error.
+	StatusLevel string
+	StatusCode  string
 }
 
 func NewCommandMessage(mb MessageBase, fields ...interface{} /*commandName string, transcationID int, others*/) (cm *CommandMessage) {
@@ -167,6 +171,12 @@ func (cm *CommandMessage) Parse() (err error) {
 		if len(array) >= 4 {
 			cm.BoolFlag, _ = array[3].(bool)
 		}
+	case ON_STATUS, _ERROR:
+		if len(array) >= 4 {
+			info, _ := array[3].(map[string]interface{})
+			cm.StatusLevel, _ = info["level"].(string)
+			cm.StatusCode, _ = info["code"].(string)
+		}
 	}
 	return nil
 }
@@ -423,7 +433,15 @@ func (cm *CommandMessage) Do() (err error) {
 		//common server-side case.
 		atomic.AddUint32(&cm.rtmp.resultCount, 1)
 	case _ERROR:
-		atomic.AddUint32(&cm.rtmp.resultCount, 1)
+		if cm.rtmp.connectApp != "" {
+			//The upstream refused connect or createStream.
+			return errors.Errorf("refused by upstream: %s", cm.StatusCode)
+		}
+	case ON_STATUS:
+		if cm.rtmp.connectApp != "" && cm.StatusLevel == "error" {
+			//The upstream refused play (e.g. NetStream.Play.StreamNotFound).
+			return errors.Errorf("refused by upstream: %s", cm.StatusCode)
+		}
 	default:
 	}
 
-- 
2.43.0


From e297013ffb97f8e350e94a2ead95b50b14ea4078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 57/60] fix: a repeated SRT conclusion does not set the
 sequence back to its start

---
 libsrt/listener.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libsrt/listener.go b/libsrt/listener.go
index fd3d645..4ba064c 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -40,6 +40,7 @@ type session struct {
 	ourSocketID   uint32
 	cookie        uint32
 	concluded     bool
+	concludedCookie uint32 //the cookie of the conclusion in force
 	startTime     time.Time
 	lastSeen      time.Time
 	streamID      string
@@ -316,9 +317,14 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 			//mixed into the first one's transport stream.
 			return
 		}
-		sess.peerSocketID = hs.SrtSocketID
-		sess.expectedSeq = hs.InitialSequence & 0x7FFFFFFF
-		sess.concluded = true
+		if !sess.concluded || sess.concludedCookie != sess.cookie {
+			//A repeated conclusion is only answered again: setting the
+			//sequence back would ask for data that was delivered already.
+			sess.peerSocketID = hs.SrtSocketID
+			sess.expectedSeq = hs.InitialSequence & 0x7FFFFFFF
+			sess.concludedCookie = sess.cookie
+			sess.concluded = true
+		}
 
 		reply := *hs
 		reply.HandshakeType = HSTypeConclusion
-- 
2.43.0


From 5d2ac06ce72dddcfb1e220bae259540d3a2778fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 58/60] fix: an SRT induction that is sent again keeps the
 cookie of the first reply

---
 libsrt/listener.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libsrt/listener.go b/libsrt/listener.go
index 4ba064c..4392c10 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -295,10 +295,14 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 		//Mint a cookie tied to the peer's socket id; the conclusion
 		//must echo it back. CRC32 is used as a cheap mixer; real SRT
 		//also includes a server start time and IP.
-		sess.peerSocketID = hs.SrtSocketID
-		sess.cookie = crc32.ChecksumIEEE(
-			[]byte(fmt.Sprintf("%s-%d-%d",
-				peer.IP.String(), hs.SrtSocketID, time.Now().UnixNano())))
+		//A repeated induction gets the same cookie: the caller may already
+		//be concluding with the one of its first reply.
+		if sess.cookie == 0 || sess.peerSocketID != hs.SrtSocketID {
+			sess.peerSocketID = hs.SrtSocketID
+			sess.cookie = crc32.ChecksumIEEE(
+				[]byte(fmt.Sprintf("%s-%d-%d",
+					peer.IP.String(), hs.SrtSocketID, time.Now().UnixNano())))
+		}
 
 		reply := *hs
 		reply.HandshakeType = HSTypeAgreement
-- 
2.43.0


From bb6aa808c21de7cde8f5f1e5aacb3a152a72f11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 59/60] fix: a NAL whose RTP fragments did not all arrive is
 dropped instead of being forwarded damaged

---
 librtsp/rtp_unpack.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/librtsp/rtp_unpack.go b/librtsp/rtp_unpack.go
index 2d9d6df..b1d8979 100644
--- a/librtsp/rtp_unpack.go
+++ b/librtsp/rtp_unpack.go
@@ -74,6 +74,7 @@ func ParseRTP(buf []byte) (*RTPPacket, error) {
 // AU into AVCC for forwarding.
 type H264Reassembler struct {
 	fuBuf     []byte //in-progress FU-A reassembly
+	fuSeq     uint16 //sequence number of its latest fragment
 	pending   [][]byte
 	pendingTS uint32
 	size      int //bytes buffered since the last marker
@@ -129,7 +130,11 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 			//Reconstruct the original NAL header from the FU
 			//indicator's NRI bits + the FU header's type.
 			r.fuBuf = []byte{(hdr & 0xE0) | origType}
+		} else if pkt.SequenceNum != r.fuSeq+1 {
+			//A fragment in between was lost: the NAL cannot be completed.
+			r.fuBuf = nil
 		}
+		r.fuSeq = pkt.SequenceNum
 		if r.fuBuf == nil {
 			//The start of this NAL was lost: the rest has no header.
 			return nil, 0
-- 
2.43.0


From f12d887ebbe28fd95466e92d36ec028e75b45239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:29 +0000
Subject: [PATCH 60/60] fix: a PES header that does not fit in one packet is
 continued where it was left

---
 libmpeg/pes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmpeg/pes.go b/libmpeg/pes.go
index 5558023..694a097 100644
--- a/libmpeg/pes.go
+++ b/libmpeg/pes.go
@@ -229,6 +229,7 @@ func (pes *PES) Marshal(writer easyio.EasyWriter, writable int) (writed int, fin
 			pes.HeaderIndex = len(pes.HeaderData)
 		} else {
 			err1 = writer.WriteFull(pes.HeaderData[pes.HeaderIndex : pes.HeaderIndex+(writable-writed)])
+			pes.HeaderIndex += (writable - writed)
 			writed += (writable - writed)
 			finish = false
 			return
-- 
2.43.0

