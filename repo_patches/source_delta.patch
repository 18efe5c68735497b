From e20bf10b22fb36e6dfcaeb50ef55aaf0681e7475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 01/29] fix: keep WebRTC callbacks, offer and peer connection
 set through its methods

The methods had value receivers, so everything set through them was lost
and every mediasoup recording failed with 'connStateCallbackFn is not set'.
---
 internal/webrtc/webrtc.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 3643769..38c00f5 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -51,19 +51,19 @@ func NewWebRTC(ctx context.Context, cfg config.WebRTC) *WebRTC {
 	}
 }
 
-func (w WebRTC) SetConnectionStateCallback(fn func(state webrtc.ICEConnectionState)) {
+func (w *WebRTC) SetConnectionStateCallback(fn func(state webrtc.ICEConnectionState)) {
 	w.connStateCallbackFn = fn
 }
 
-func (w WebRTC) SetFlowCallback(fn func(isFlowing bool, videoTimestamp time.Duration, closed bool)) {
+func (w *WebRTC) SetFlowCallback(fn func(isFlowing bool, videoTimestamp time.Duration, closed bool)) {
 	w.flowCallback = fn
 }
 
-func (w WebRTC) SetSDPOffer(offer webrtc.SessionDescription) {
+func (w *WebRTC) SetSDPOffer(offer webrtc.SessionDescription) {
 	w.sdpOffer = offer
 }
 
-func (w WebRTC) validateInitParams() error {
+func (w *WebRTC) validateInitParams() error {
 	if w.connStateCallbackFn == nil {
 		return errors.New("connStateCallbackFn is not set")
 	}
@@ -79,7 +79,7 @@ func (w WebRTC) validateInitParams() error {
 	return nil
 }
 
-func (w WebRTC) Init(
+func (w *WebRTC) Init(
 	rec recorder.Recorder,
 ) (webrtc.SessionDescription, error) {
 	if err := w.validateInitParams(); err != nil {
@@ -480,13 +480,13 @@ func (w WebRTC) Init(
 	return *peerConnection.LocalDescription(), nil
 }
 
-func (w WebRTC) RequestKeyframe() {
+func (w *WebRTC) RequestKeyframe() {
 	for _, ssrc := range w.videoTrackSSRCs {
 		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
 
-func (w WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	err := w.pc.WriteRTCP([]rtcp.Packet{&rtcp.PictureLossIndication{MediaSSRC: ssrc}})
 
 	if err != nil {
@@ -506,7 +506,7 @@ func (w WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 	w.pliStats[ssrc] = PLITracker{count: w.pliStats[ssrc].count + 1, timestamp: time.Now()}
 }
 
-func (w WebRTC) Close() error {
+func (w *WebRTC) Close() error {
 	return w.pc.Close()
 }
 
-- 
2.43.0


From 2f22ab883def166650d3fa977bde98c6b22971a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 02/29] fix: do not crash on messages that cannot be decoded

events.Decode returns nil for them, which HandlePubSub and the HTTP server
dereferenced.
---
 internal/pubsub/events/events.go | 14 +++++++++++++-
 internal/server/server.go        |  3 ++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/pubsub/events/events.go b/internal/pubsub/events/events.go
index eff67b3..10a4795 100644
--- a/internal/pubsub/events/events.go
+++ b/internal/pubsub/events/events.go
@@ -44,10 +44,13 @@ type LiveKitConfig struct {
 }
 
 func (e *Event) IsValid() bool {
-	return e.Id != ""
+	return e != nil && e.Id != ""
 }
 
 func (e *Event) StartRecording() *StartRecording {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*StartRecording); ok {
 		return ev
 	}
@@ -55,6 +58,9 @@ func (e *Event) StartRecording() *StartRecording {
 }
 
 func (e *Event) StartRecordingResponse() *StartRecordingResponse {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*StartRecordingResponse); ok {
 		return ev
 	}
@@ -62,6 +68,9 @@ func (e *Event) StartRecordingResponse() *StartRecordingResponse {
 }
 
 func (e *Event) StopRecording() *StopRecording {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*StopRecording); ok {
 		return ev
 	}
@@ -346,6 +355,9 @@ type GetRecorderStatus struct {
 }
 
 func (e *Event) GetRecorderStatus() *GetRecorderStatus {
+	if e == nil {
+		return nil
+	}
 	if ev, ok := e.Data.(*GetRecorderStatus); ok {
 		return ev
 	}
diff --git a/internal/server/server.go b/internal/server/server.go
index e5864fc..ebbc6bc 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -39,7 +39,8 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		e := event.StartRecording()
 
 		if e == nil {
-			s.PublishPubSub(e.Fail(fmt.Errorf("incorrect event")))
+			log.Error("incorrect startRecording event")
+			return
 		}
 
 		ctx = context.WithValue(ctx, "session", e.SessionId)
-- 
2.43.0


From a9d213c117495ff9a06cc5d22ec0b6821e554e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 03/29] fix: end a session exactly once and release everything
 it holds

A session can be ended by a stop request, an ICE failure or the end of a
track, possibly at once. Each published its own recordingStopped, the end
of a track left the recording open and the gauge up, and the peer or room
connection was never closed; losing the LiveKit room was ignored.
---
 internal/server/server.go          | 13 ++++--
 internal/server/session.go         | 74 +++++++++++++++++-------------
 internal/webrtc/livekit/livekit.go | 24 ++++++++--
 internal/webrtc/webrtc.go          |  4 ++
 4 files changed, 76 insertions(+), 39 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index ebbc6bc..625b2f4 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -133,9 +133,12 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		}
 
 		if sess, ok := s.sessions.Load(e.SessionId); ok {
-			ts := sess.(*Session).StopRecording() / time.Millisecond
-			s.PublishPubSub(e.Stopped("stopped", ts))
-			s.CloseSession(e.SessionId)
+			sess := sess.(*Session)
+
+			if ts, ok := sess.StopRecording(); ok {
+				s.PublishPubSub(e.Stopped("stopped", ts/time.Millisecond))
+				s.CloseSession(sess)
+			}
 		}
 
 	case "getRecorderStatus":
@@ -154,6 +157,6 @@ func (s *Server) OnStart() error {
 	return nil
 }
 
-func (s *Server) CloseSession(id string) {
-	s.sessions.Delete(id)
+func (s *Server) CloseSession(sess *Session) {
+	s.sessions.CompareAndDelete(sess.id, sess)
 }
diff --git a/internal/server/session.go b/internal/server/session.go
index ce47407..f102f92 100644
--- a/internal/server/session.go
+++ b/internal/server/session.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"sync/atomic"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/prometheus"
@@ -10,6 +11,7 @@ import (
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/signal"
 	pwebrtc "github.com/pion/webrtc/v3"
+	log "github.com/sirupsen/logrus"
 )
 
 type Session struct {
@@ -18,7 +20,7 @@ type Session struct {
 	webrtc   *webrtc.WebRTC
 	livekit  *livekit.LiveKitWebRTC
 	recorder recorder.Recorder
-	stopped  bool
+	stopped  atomic.Bool
 }
 
 func NewSession(id string, s *Server, wrtc *webrtc.WebRTC, lk *livekit.LiveKitWebRTC, recorder recorder.Recorder) *Session {
@@ -39,23 +41,13 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 		signal.Decode(e.GetSDP(), &offer)
 		s.webrtc.SetConnectionStateCallback(func(state pwebrtc.ICEConnectionState) {
 			if state > pwebrtc.ICEConnectionStateConnected {
-				if !s.stopped {
-					ts := s.StopRecording() / time.Millisecond
-					s.server.PublishPubSub(events.NewRecordingStopped(s.id, state.String(), ts))
-					s.server.CloseSession(s.id)
+				if ts, ok := s.StopRecording(); ok {
+					s.server.CloseSession(s)
+					s.server.PublishPubSub(events.NewRecordingStopped(s.id, state.String(), ts/time.Millisecond))
 				}
 			}
 		})
-		s.webrtc.SetFlowCallback(func(isFlowing bool, timestamp time.Duration, closed bool) {
-			var message interface{}
-			if !closed {
-				message = events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond)
-			} else {
-				s.server.CloseSession(s.id)
-				message = events.NewRecordingStopped(s.id, "closed", timestamp/time.Millisecond)
-			}
-			s.server.PublishPubSub(message)
-		})
+		s.webrtc.SetFlowCallback(s.onFlowChanged)
 		s.webrtc.SetSDPOffer(offer)
 		answer, err := s.webrtc.Init(s.recorder)
 
@@ -68,16 +60,7 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 
 	// For LiveKit, we don't need to return an SDP answer
 	if s.livekit != nil {
-		s.livekit.SetFlowCallback(func(isFlowing bool, timestamp time.Duration, closed bool) {
-			var message interface{}
-			if !closed {
-				message = events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond)
-			} else {
-				s.server.CloseSession(s.id)
-				message = events.NewRecordingStopped(s.id, "closed", timestamp/time.Millisecond)
-			}
-			s.server.PublishPubSub(message)
-		})
+		s.livekit.SetFlowCallback(s.onFlowChanged)
 
 		if err := s.livekit.Init(s.recorder); err != nil {
 			return "", err
@@ -87,11 +70,40 @@ func (s *Session) StartRecording(e *events.StartRecording) (string, error) {
 	return "", nil
 }
 
-func (s *Session) StopRecording() time.Duration {
-	if !s.stopped {
-		s.stopped = true
-		prometheus.Sessions.Dec()
-		return s.recorder.Close()
+func (s *Session) onFlowChanged(isFlowing bool, timestamp time.Duration, closed bool) {
+	if !closed {
+		s.server.PublishPubSub(events.NewRecordingRtpStatusChanged(s.id, isFlowing, timestamp/time.Millisecond))
+		return
+	}
+
+	if _, ok := s.StopRecording(); ok {
+		s.server.CloseSession(s)
+		s.server.PublishPubSub(events.NewRecordingStopped(s.id, "closed", timestamp/time.Millisecond))
+	}
+}
+
+// StopRecording finalises the recording and closes the transport. A session
+// can be ended from several places at once: only the first caller gets true,
+// and it's the one that has to announce it.
+func (s *Session) StopRecording() (time.Duration, bool) {
+	if !s.stopped.CompareAndSwap(false, true) {
+		return 0, false
 	}
-	return 0
+
+	prometheus.Sessions.Dec()
+	ts := s.recorder.Close()
+
+	if s.webrtc != nil {
+		if err := s.webrtc.Close(); err != nil {
+			log.WithField("session", s.id).Error(err)
+		}
+	}
+
+	if s.livekit != nil {
+		if err := s.livekit.Close(); err != nil {
+			log.WithField("session", s.id).Error(err)
+		}
+	}
+
+	return ts, true
 }
diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 33e6130..b8cdb75 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -140,10 +140,11 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 
 func (w *LiveKitWebRTC) Close() error {
 	w.m.Lock()
-	defer w.m.Unlock()
+	room := w.room
+	w.m.Unlock()
 
-	if w.room != nil {
-		w.room.Disconnect()
+	if room != nil {
+		room.Disconnect()
 	}
 
 	return nil
@@ -278,6 +279,21 @@ func (w *LiveKitWebRTC) updateFlowState(trackID string, seqNum uint16, timestamp
 	}
 }
 
+func (w *LiveKitWebRTC) latestTimestamp() time.Duration {
+	w.m.Lock()
+	defer w.m.Unlock()
+
+	var latest time.Duration
+
+	for _, s := range w.flowState {
+		if s.lastTimestamp > latest {
+			latest = s.lastTimestamp
+		}
+	}
+
+	return latest
+}
+
 func (w *LiveKitWebRTC) onTrackSubscribed(
 	track *webrtc.TrackRemote,
 	pub *lksdk.RemoteTrackPublication,
@@ -448,6 +464,8 @@ func (w *LiveKitWebRTC) onTrackMuted(
 func (w *LiveKitWebRTC) onDisconnected() {
 	log.WithField("session", w.ctx.Value("session")).
 		Infof("Disconnected from LiveKit room %s", w.roomId)
+
+	w.flowCallback(false, w.latestTimestamp(), true)
 }
 
 func (w *LiveKitWebRTC) validateInitParams() error {
diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 38c00f5..750d290 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -507,6 +507,10 @@ func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 }
 
 func (w *WebRTC) Close() error {
+	if w.pc == nil {
+		return nil
+	}
+
 	return w.pc.Close()
 }
 
-- 
2.43.0


From 0e2ace07b065641e031b72604b4b35df84a764c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 04/29] fix: answer a start request once and undo a failed
 start

A mediasoup start that failed was answered 'ok' and then 'failed', and with
either adapter the session stayed registered and counted.
---
 internal/server/server.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/server/server.go b/internal/server/server.go
index 625b2f4..1427d96 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -82,6 +82,8 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 			s.sessions.Store(e.SessionId, sess)
 
 			if _, err := sess.StartRecording(e); err != nil {
+				sess.StopRecording()
+				s.CloseSession(sess)
 				log.WithField("session", ctx.Value("session")).Error(err)
 				s.PublishPubSub(e.Fail(err))
 				return
@@ -99,6 +101,10 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 			}
 
 			var sdp string
+			wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
+			sess := NewSession(e.SessionId, s, wrtc, nil, rec)
+			s.sessions.Store(e.SessionId, sess)
+
 			func() {
 				defer func() {
 					if r := recover(); r != nil {
@@ -106,18 +112,19 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 					}
 				}()
 
-				wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
-				sess := NewSession(e.SessionId, s, wrtc, nil, rec)
-				s.sessions.Store(e.SessionId, sess)
 				sdp, err = sess.StartRecording(e)
-				s.PublishPubSub(e.Success(sdp, rec.GetFilePath()))
 			}()
 
 			if err != nil {
+				sess.StopRecording()
+				s.CloseSession(sess)
 				log.WithField("session", ctx.Value("session")).Error(err)
 				s.PublishPubSub(e.Fail(err))
+				return
 			}
 
+			s.PublishPubSub(e.Success(sdp, rec.GetFilePath()))
+
 		default:
 			err := fmt.Errorf("unknown adapter type: %s", e.Adapter)
 			log.WithField("session", ctx.Value("session")).Error(err)
-- 
2.43.0


From 5ac968288405015b5278aabd001c67676ac0c540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 05/29] fix: keep recordings inside of the configured directory

A file name with parent-directory components escaped it.
---
 internal/webrtc/recorder/recorder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index 5f1f2b5..0687d83 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -41,7 +41,8 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 	}
 
 	if !cfg.WriteToDevNull {
-		file = path.Clean(dir + string(os.PathSeparator) + file)
+		// Rooting the name before joining it keeps the file inside of the directory
+		file = path.Join(dir, path.Clean(string(os.PathSeparator)+file))
 		fileDir := path.Dir(file)
 
 		if _, err := os.Stat(fileDir); err != nil {
-- 
2.43.0


From cadd0a89e846ba21c71835107d333a97f9b79c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 06/29] fix: create the IVF copy like the recording it belongs
 to

It ignored the configured file mode, overwrote an existing file and was
created as /dev/null.ivf when recording to the null device.
---
 internal/webrtc/recorder/ivfwriter.go | 4 ++--
 internal/webrtc/recorder/recorder.go  | 2 +-
 internal/webrtc/recorder/webm.go      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/webrtc/recorder/ivfwriter.go b/internal/webrtc/recorder/ivfwriter.go
index a1d1108..99b2978 100644
--- a/internal/webrtc/recorder/ivfwriter.go
+++ b/internal/webrtc/recorder/ivfwriter.go
@@ -26,7 +26,7 @@ type RTPPacketWithMeta struct {
 }
 
 // VP8 only for now
-func NewIVFWriter(basePath string) (*IVFWriter, error) {
+func NewIVFWriter(basePath string, fileMode os.FileMode) (*IVFWriter, error) {
 	if basePath == "" {
 		return &IVFWriter{enabled: false}, nil
 	}
@@ -34,7 +34,7 @@ func NewIVFWriter(basePath string) (*IVFWriter, error) {
 	ext := filepath.Ext(basePath)
 	ivfPath := basePath[:len(basePath)-len(ext)] + ".ivf"
 
-	file, err := os.Create(ivfPath)
+	file, err := os.OpenFile(ivfPath, os.O_RDWR|os.O_CREATE|os.O_EXCL, fileMode)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index 0687d83..6be2d50 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -100,7 +100,7 @@ func NewRecorder(ctx context.Context, cfg config.Recorder, file string) (Recorde
 			cfg.VideoPacketQueueSize,
 			cfg.AudioPacketQueueSize,
 			cfg.UseCustomSampler,
-			cfg.WriteIVFCopy,
+			cfg.WriteIVFCopy && !cfg.WriteToDevNull,
 		)
 		r.WithContext(ctx)
 	default:
diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index dbffd08..3f1857a 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -897,7 +897,7 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 
 func (r *WebmRecorder) startIVFWriter() error {
 	if r.ivfWriter == nil {
-		ivf, err := NewIVFWriter(r.file)
+		ivf, err := NewIVFWriter(r.file, r.fileMode)
 
 		if err != nil {
 			return fmt.Errorf("failed to create RTP ivf: %w", err)
-- 
2.43.0


From c216a6bb7fe1bbedbb6bde3d3e46401e28a50d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 07/29] fix: do not accept two recordings for the same file

The file was only created when media arrived, so until then a second
request for it was accepted and truncated it.
---
 internal/webrtc/recorder/recorder.go | 41 ++++++++++++++++++----------
 internal/webrtc/recorder/webm.go     |  8 ++++++
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/internal/webrtc/recorder/recorder.go b/internal/webrtc/recorder/recorder.go
index 6be2d50..4125214 100644
--- a/internal/webrtc/recorder/recorder.go
+++ b/internal/webrtc/recorder/recorder.go
@@ -80,31 +80,42 @@ func ValidateAndPrepareFile(ctx context.Context, cfg config.Recorder, file strin
 		fileMode = os.FileMode(parsedFileMode)
 	}
 
+	if !cfg.WriteToDevNull {
+		// Take the name now, the recording is only opened when media arrives
+		f, err := os.OpenFile(file, os.O_WRONLY|os.O_CREATE|os.O_EXCL, fileMode)
+
+		if err != nil {
+			return "", 0, fmt.Errorf("file could not be created %s: %w", file, err)
+		}
+
+		f.Close()
+	}
+
 	return file, fileMode, nil
 }
 
 func NewRecorder(ctx context.Context, cfg config.Recorder, file string) (Recorder, error) {
 	ext := filepath.Ext(file)
+
+	if ext != ".webm" {
+		return nil, fmt.Errorf("unsupported file extension %s", ext)
+	}
+
 	file, fileMode, err := ValidateAndPrepareFile(ctx, cfg, file)
 
 	if err != nil {
 		return nil, err
 	}
 
-	var r Recorder
-	switch ext {
-	case ".webm":
-		r = NewWebmRecorder(
-			file,
-			fileMode,
-			cfg.VideoPacketQueueSize,
-			cfg.AudioPacketQueueSize,
-			cfg.UseCustomSampler,
-			cfg.WriteIVFCopy && !cfg.WriteToDevNull,
-		)
-		r.WithContext(ctx)
-	default:
-		return nil, fmt.Errorf("unsupported file extension %s", ext)
-	}
+	r := NewWebmRecorder(
+		file,
+		fileMode,
+		cfg.VideoPacketQueueSize,
+		cfg.AudioPacketQueueSize,
+		cfg.UseCustomSampler,
+		cfg.WriteIVFCopy && !cfg.WriteToDevNull,
+	)
+	r.WithContext(ctx)
+
 	return r, nil
 }
diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 3f1857a..8c3aafb 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -255,6 +255,14 @@ func (r *WebmRecorder) close() time.Duration {
 	} else {
 		log.WithField("session", r.ctx.Value("session")).
 			Info("webm writer closed without starting")
+
+		// Give back the name taken when the recording was accepted
+		if r.file != os.DevNull {
+			if err := os.Remove(r.file); err != nil {
+				log.WithField("session", r.ctx.Value("session")).
+					Warnf("Error removing unused file: %v", err)
+			}
+		}
 	}
 
 	if r.ivfWriter != nil {
-- 
2.43.0


From 71a4245c479e589f4934028ae399b35b02a46256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 08/29] fix: do not crash on VP8 packets with an empty or short
 payload

---
 internal/webrtc/recorder/webm.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 8c3aafb..f4afd91 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -461,7 +461,7 @@ func IsVP8KeyFrame(packet *rtp.Packet) bool {
 
 	vp8Packet := codecs.VP8Packet{}
 
-	if _, err := vp8Packet.Unmarshal(packet.Payload); err != nil {
+	if _, err := vp8Packet.Unmarshal(packet.Payload); err != nil || len(vp8Packet.Payload) == 0 {
 		return false
 	}
 
@@ -479,7 +479,7 @@ func GetVP8KFDimension(packet *rtp.Packet) (int, int) {
 		return 0, 0
 	}
 
-	if vp8Packet.S != 0 || vp8Packet.PID != 0 {
+	if vp8Packet.S == 0 || vp8Packet.PID != 0 || len(vp8Packet.Payload) < 10 {
 		return 0, 0
 	}
 
@@ -545,6 +545,17 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		return
 	}
 
+	// Nothing but a payload descriptor
+	if len(vp8Packet.Payload) == 0 {
+		log.WithField("session", r.ctx.Value("session")).
+			Debugf("Dropping VP8 packet without payload: seq=%d", p.SequenceNumber)
+		r.currentFrame = nil
+		r.currentFrameInfo = nil
+		r.hasKeyFrame = false
+		r.RequestKeyframe()
+		return
+	}
+
 	// Lifted from LK
 	isKeyFrame := vp8Packet.S != 0 && (vp8Packet.Payload[0]&0x1 == 0) && vp8Packet.PID == 0
 	pictureID := vp8Packet.PictureID
-- 
2.43.0


From 013e9e4060c88fd4bef3a0a5d0a3b5ad57600956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 09/29] fix: flag written video blocks as keyframes iff they
 are

The flag was taken from the last packet of a frame, so keyframes sent in
several packets were flagged as non-keyframes.
---
 internal/webrtc/recorder/webm.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index f4afd91..30c320d 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -320,11 +320,7 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			return
 		}
 
-		isKf := false
-
-		if r.currKeyFrame != nil {
-			isKf = ts == r.currKeyFrame.Timestamp
-		}
+		isKf := isVP8KeyFrameData(sample.Data)
 
 		if isKf && ((r.videoWriter == nil && r.hasVideo) ||
 			(r.audioWriter == nil && r.hasAudio) ||
@@ -468,6 +464,11 @@ func IsVP8KeyFrame(packet *rtp.Packet) bool {
 	return vp8Packet.S != 0 && (vp8Packet.Payload[0]&0x1 == 0) && vp8Packet.PID == 0
 }
 
+// isVP8KeyFrameData tells whether a whole VP8 frame is a keyframe (RFC 6386#9.1)
+func isVP8KeyFrameData(frame []byte) bool {
+	return len(frame) > 0 && frame[0]&0x1 == 0
+}
+
 func GetVP8KFDimension(packet *rtp.Packet) (int, int) {
 	if len(packet.Payload) == 0 {
 		return 0, 0
@@ -825,6 +826,9 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 	}
 
+	// The last packet of a frame doesn't tell whether it's a keyframe
+	isKeyFrame = isVP8KeyFrameData(r.currentFrame)
+
 	r.lastFrameSize = len(r.currentFrame)
 	r.corruptedFrameCount = 0 // Reset corruption counter on valid frame
 
-- 
2.43.0


From 22201e8ded1911048f5809847739cc57d0674010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 10/29] fix: wait for a keyframe after discarding a frame at a
 skip boundary

---
 internal/webrtc/recorder/webm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 30c320d..0dd02df 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -527,6 +527,8 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 					Warnf("Discarding partial frame after skip boundary: pkts=%v", logMsgPkts)
 				r.currentFrame = nil
 				r.currentFrameInfo = nil
+				r.hasKeyFrame = false
+				r.RequestKeyframe()
 			}
 		}
 
-- 
2.43.0


From 4d3669d4a1d3177543118641b23bef22bc459b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 11/29] fix: close every writer of a recording even if closing
 one fails

It panicked with the recorder locked and the other writers open.
---
 internal/webrtc/recorder/webm.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 0dd02df..e0cc433 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -241,12 +241,14 @@ func (r *WebmRecorder) close() time.Duration {
 
 	if r.audioWriter != nil {
 		if err := r.audioWriter.Close(); err != nil {
-			panic(err)
+			log.WithField("session", r.ctx.Value("session")).
+				Errorf("Error closing audio writer: %v", err)
 		}
 	}
 	if r.videoWriter != nil {
 		if err := r.videoWriter.Close(); err != nil {
-			panic(err)
+			log.WithField("session", r.ctx.Value("session")).
+				Errorf("Error closing video writer: %v", err)
 		}
 	}
 	if r.started {
@@ -282,10 +284,9 @@ func (r *WebmRecorder) close() time.Duration {
 
 func (r *WebmRecorder) Close() time.Duration {
 	r.m.Lock()
-	ts := r.close()
-	r.m.Unlock()
+	defer r.m.Unlock()
 
-	return ts
+	return r.close()
 }
 
 func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
-- 
2.43.0


From 1a77d003e1756e11f0d1819cd1b1982cd87b5d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 12/29] fix: guard the recorder's track flags and timestamps
 with its lock

---
 internal/webrtc/recorder/webm.go | 44 ++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index e0cc433..932c194 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -140,18 +140,30 @@ func (r *WebmRecorder) WithContext(ctx context.Context) {
 }
 
 func (r *WebmRecorder) SetHasAudio(hasAudio bool) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	r.hasAudio = hasAudio
 }
 
 func (r *WebmRecorder) GetHasAudio() bool {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	return r.hasAudio
 }
 
 func (r *WebmRecorder) SetHasVideo(hasVideo bool) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	r.hasVideo = hasVideo
 }
 
 func (r *WebmRecorder) GetHasVideo() bool {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	return r.hasVideo
 }
 
@@ -163,18 +175,20 @@ func (r *WebmRecorder) SetKeyframeRequester(requester KeyframeRequester) {
 }
 
 func (r *WebmRecorder) VideoTimestamp() time.Duration {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	return r.videoTimestamp
 }
 
 func (r *WebmRecorder) AudioTimestamp() time.Duration {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	return r.audioTimestamp
 }
 
 func (r *WebmRecorder) PushVideo(p *rtp.Packet) {
-	if !r.hasVideo {
-		return
-	}
-
 	if !r.useCustomSampler {
 		r.pushVP8Builtin(p)
 	} else {
@@ -183,10 +197,6 @@ func (r *WebmRecorder) PushVideo(p *rtp.Packet) {
 }
 
 func (r *WebmRecorder) PushAudio(p *rtp.Packet) {
-	if !r.hasAudio {
-		return
-	}
-
 	r.pushOpus(p)
 }
 
@@ -290,13 +300,13 @@ func (r *WebmRecorder) Close() time.Duration {
 }
 
 func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	if !r.hasVideo {
 		return
 	}
 
-	r.m.Lock()
-	defer r.m.Unlock()
-
 	if len(packet.Payload) == 0 || r.closed {
 		return
 	}
@@ -352,13 +362,13 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 }
 
 func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	if !r.hasAudio {
 		return
 	}
 
-	r.m.Lock()
-	defer r.m.Unlock()
-
 	if len(p.Payload) == 0 || r.closed {
 		return
 	}
@@ -493,13 +503,13 @@ func GetVP8KFDimension(packet *rtp.Packet) (int, int) {
 }
 
 func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
+	r.m.Lock()
+	defer r.m.Unlock()
+
 	if !r.hasVideo {
 		return
 	}
 
-	r.m.Lock()
-	defer r.m.Unlock()
-
 	if len(p.Payload) == 0 || r.closed {
 		return
 	}
-- 
2.43.0


From 950467c9fc63a4acc7c689be1ea3d8001e5fb593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 13/29] fix: guard the jitter buffer and receive log with a
 lock

They are used by the track's read loop and its retransmission goroutine.
---
 internal/webrtc/utils/jitter_buffer.go | 32 ++++++++++++++++++++++++--
 internal/webrtc/utils/receive_log.go   | 17 ++++++++++++++
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/internal/webrtc/utils/jitter_buffer.go b/internal/webrtc/utils/jitter_buffer.go
index 93d670f..3d3d86a 100644
--- a/internal/webrtc/utils/jitter_buffer.go
+++ b/internal/webrtc/utils/jitter_buffer.go
@@ -3,11 +3,13 @@ package utils
 import (
 	"context"
 	"github.com/pion/rtp"
+	"sync"
 	"time"
 	log "github.com/sirupsen/logrus"
 )
 
 type JitterBuffer struct {
+	m                    sync.Mutex
 	nextStart            int64
 	end                  int64
 	packets              []*rtp.Packet
@@ -37,6 +39,9 @@ func NewJitterBuffer(
 }
 
 func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	if s.end-seq >= s.size {
 		log.WithField("session", s.ctx.Value("session")).
 			Warnf("Jitter buffer overflow: seq=%d, end=%d, size=%d", seq, s.end, s.size)
@@ -87,6 +92,13 @@ func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
 }
 
 func (s *JitterBuffer) NextPackets() ([]*rtp.Packet, bool) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	return s.nextPackets()
+}
+
+func (s *JitterBuffer) nextPackets() ([]*rtp.Packet, bool) {
 	skippedPacket := false
 
 	if s.nextStart > s.end {
@@ -116,7 +128,7 @@ func (s *JitterBuffer) NextPackets() ([]*rtp.Packet, bool) {
 		s.nextStart++
 		skippedPacket = true
 
-		pkts, moreSkips := s.NextPackets()
+		pkts, moreSkips := s.nextPackets()
 
 		if pkts == nil {
 			return nil, skippedPacket
@@ -151,15 +163,25 @@ func (s *JitterBuffer) NextPackets() ([]*rtp.Packet, bool) {
 
 // SkipPacket forces the jitter buffer to skip waiting for a specific sequence number
 func (s *JitterBuffer) SkipPacket(seq int64) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	if seq == s.nextStart {
 		log.WithField("session", s.ctx.Value("session")).
 			Debugf("Skipping missing packet in jitter buffer: seq=%d", seq)
 				s.lastSkippedSeq = seq
-				s.SetNextPacketsStart(seq + 1)
+				s.setNextPacketsStart(seq + 1)
 	}
 }
 
 func (s *JitterBuffer) SetNextPacketsStart(nextPacketsStart int64) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	s.setNextPacketsStart(nextPacketsStart)
+}
+
+func (s *JitterBuffer) setNextPacketsStart(nextPacketsStart int64) {
 	if s.nextStart < nextPacketsStart {
 		log.WithField("session", s.ctx.Value("session")).
 			Debugf("Setting next packet start in jitter buffer: old=%d, new=%d", s.nextStart, nextPacketsStart)
@@ -173,10 +195,16 @@ func (s *JitterBuffer) SetNextPacketsStart(nextPacketsStart int64) {
 }
 
 func (s *JitterBuffer) GetNextStart() int64 {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	return s.nextStart
 }
 
 func (s *JitterBuffer) GetAndClearLastSkipped() (int64, bool) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	if s.lastSkippedSeq == 0 {
 		return 0, false
 	}
diff --git a/internal/webrtc/utils/receive_log.go b/internal/webrtc/utils/receive_log.go
index bef0e7a..29e3f12 100644
--- a/internal/webrtc/utils/receive_log.go
+++ b/internal/webrtc/utils/receive_log.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"errors"
 	"strconv"
+	"sync"
 )
 
 var allowedReceiveLogSizes map[uint16]bool
@@ -19,6 +20,7 @@ func init() {
 }
 
 type ReceiveLog struct {
+	m               sync.Mutex
 	packets         []uint64
 	size            uint16
 	end             uint16
@@ -38,6 +40,9 @@ func NewReceiveLog(size uint16) (*ReceiveLog, error) {
 }
 
 func (s *ReceiveLog) Add(seq uint16) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	if !s.started {
 		s.set(seq)
 		s.end = seq
@@ -75,6 +80,9 @@ func (s *ReceiveLog) Add(seq uint16) {
 }
 
 func (s *ReceiveLog) Get(seq uint16) bool {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	diff := s.end - seq
 	if diff >= uint16SizeHalf {
 		return false
@@ -88,6 +96,9 @@ func (s *ReceiveLog) Get(seq uint16) bool {
 }
 
 func (s *ReceiveLog) MissingSeqNumbers(skipLastN uint16) []uint16 {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	until := s.end - skipLastN
 	if until-s.lastConsecutive >= uint16SizeHalf {
 		// until < s.lastConsecutive (counting for rollover)
@@ -105,6 +116,9 @@ func (s *ReceiveLog) MissingSeqNumbers(skipLastN uint16) []uint16 {
 }
 
 func (s *ReceiveLog) IgnoreSeqNum(seq uint16) {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	// Forcefully mark this packet as received - used in scenarios where we
 	// we give up on NACKing a packet
 	s.set(seq)
@@ -117,6 +131,9 @@ func (s *ReceiveLog) IgnoreSeqNum(seq uint16) {
 }
 
 func (s *ReceiveLog) GetLastConsecutive() uint16 {
+	s.m.Lock()
+	defer s.m.Unlock()
+
 	return s.lastConsecutive
 }
 
-- 
2.43.0


From d942edc35dc7a13511ac32d50a886253a5dbf1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 14/29] fix: tell the recorder about every packet that was
 given up on

Skips were lost when no packet was available right after them, when the
window slid over missing packets, and when the retransmission goroutine
skipped a packet, which it addressed by its wrapped sequence number.
---
 internal/webrtc/utils/jitter_buffer.go |  1 +
 internal/webrtc/webrtc.go              | 23 ++++++++++++-----------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/internal/webrtc/utils/jitter_buffer.go b/internal/webrtc/utils/jitter_buffer.go
index 3d3d86a..00b0fa3 100644
--- a/internal/webrtc/utils/jitter_buffer.go
+++ b/internal/webrtc/utils/jitter_buffer.go
@@ -82,6 +82,7 @@ func (s *JitterBuffer) Add(seq int64, packet *rtp.Packet) bool {
 	if s.nextStart < s.end-s.size+1 {
 		oldStart := s.nextStart
 		s.nextStart = s.end - s.size + 1
+		s.lastSkippedSeq = s.nextStart - 1
 		log.WithField("session", s.ctx.Value("session")).
 			Debugf("Jitter buffer sli_wi: old_start=%d, new_start=%d, dropped=%d packets",
 				oldStart, s.nextStart, s.nextStart-oldStart)
diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 750d290..8d8fa24 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -255,7 +255,12 @@ func (w *WebRTC) Init(
 									Debugf("Giving up on packet: seq=%d, attempts=%d", seq, maxNackAttempts)
 
 								rl.IgnoreSeqNum(seq)
-								jb.SkipPacket(int64(seq))
+
+								// The jitter buffer works on unwrapped sequence numbers
+								if next := jb.GetNextStart(); uint16(next) == seq {
+									jb.SkipPacket(next)
+								}
+
 								nackedPackets[seq] = NACKTracker{count: tracker.count + 1, timestamp: now}
 							}
 						}
@@ -397,7 +402,7 @@ func (w *WebRTC) Init(
 				Tracef("Processed packet: track=%s, seq=%d, unwrapped=%d, timestamp=%d, size=%d",
 					track.ID(), rtp.SequenceNumber, seq, rtp.Timestamp, len(rtp.Payload))
 
-			packets, skipped := jb.NextPackets()
+			packets, _ := jb.NextPackets()
 
 			if packets == nil {
 				continue
@@ -407,15 +412,11 @@ func (w *WebRTC) Init(
 				Tracef("Got %d packets from jitter buffer: first=%d, last=%d",
 					len(packets), packets[0].SequenceNumber, packets[len(packets)-1].SequenceNumber)
 
-			// Signal packet skip to WebmRecorder to handle potential frame boundary issues
-			if skipped {
-				skippedSeq, ok := jb.GetAndClearLastSkipped()
-				if ok {
-					if rec != nil {
-						rec.NotifySkippedPacket(uint16(skippedSeq))
-						log.Debugf("Notified recorder of skipped packet: seq=%d", skippedSeq)
-					}
-				}
+			// Signal packet skip to WebmRecorder to handle potential frame boundary issues.
+			// The skip may have happened before this batch was available
+			if skippedSeq, ok := jb.GetAndClearLastSkipped(); ok {
+				rec.NotifySkippedPacket(uint16(skippedSeq))
+				log.Debugf("Notified recorder of skipped packet: seq=%d", skippedSeq)
 			}
 
 			for _, p := range packets {
-- 
2.43.0


From ca52b3120d855468796899c6c8247ed0dda88090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 15/29] fix: guard the state shared by a mediasoup connection's
 goroutines

Track handlers, monitors and keyframe requests used the SSRC list, the PLI
statistics, the peer connection and the flow state without any lock.
---
 internal/webrtc/webrtc.go | 53 +++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/internal/webrtc/webrtc.go b/internal/webrtc/webrtc.go
index 8d8fa24..e072f01 100644
--- a/internal/webrtc/webrtc.go
+++ b/internal/webrtc/webrtc.go
@@ -5,6 +5,8 @@ import (
 	"errors"
 	"io"
 	"math/rand"
+	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
@@ -30,13 +32,16 @@ type PLITracker struct {
 type WebRTC struct {
 	ctx context.Context
 	cfg config.WebRTC
-	pc  *webrtc.PeerConnection
 
 	connStateCallbackFn func(state webrtc.ICEConnectionState)
 	flowCallback        func(isFlowing bool, videoTimestamp time.Duration, closed bool)
-	videoTrackSSRCs     []uint32
-	pliStats            map[uint32]PLITracker
 	sdpOffer            webrtc.SessionDescription
+
+	// m guards the fields below
+	m               sync.Mutex
+	pc              *webrtc.PeerConnection
+	videoTrackSSRCs []uint32
+	pliStats        map[uint32]PLITracker
 }
 
 func NewWebRTC(ctx context.Context, cfg config.WebRTC) *WebRTC {
@@ -139,7 +144,9 @@ func (w *WebRTC) Init(
 	if err != nil {
 		panic(err)
 	}
+	w.m.Lock()
 	w.pc = peerConnection
+	w.m.Unlock()
 
 	for _, md := range sdpOffer.MediaDescriptions {
 		switch md.MediaName.Media {
@@ -172,8 +179,10 @@ func (w *WebRTC) Init(
 				track.SSRC(), track.RID())
 
 		if isVideo {
+			w.m.Lock()
 			w.videoTrackSSRCs = append(w.videoTrackSSRCs, uint32(track.SSRC()))
 			w.pliStats[uint32(track.SSRC())] = PLITracker{count: 0, timestamp: time.Now()}
+			w.m.Unlock()
 
 			if kfr, ok := rec.(interface {
 				SetKeyframeRequester(recorder.KeyframeRequester)
@@ -297,8 +306,9 @@ func (w *WebRTC) Init(
 			}()
 		}
 
-		var s1, s2 uint16
-		var lastTimestamp time.Duration
+		// Shared with the flow monitor
+		var lastSeq atomic.Uint32
+		var lastTimestamp atomic.Int64
 
 		if true {
 			done := make(chan bool)
@@ -308,12 +318,13 @@ func (w *WebRTC) Init(
 			go func() {
 				ticker := time.NewTicker(time.Millisecond * 100)
 				var wasFlowing, isFlowing bool
+				var s1 uint32
 				for {
 					select {
 					case <-done:
 						ticker.Stop()
 
-						ts := lastTimestamp
+						ts := time.Duration(lastTimestamp.Load())
 
 						// Use the most recent timestamp from video or audio since
 						// we can't differentiate them in status events right now.
@@ -329,6 +340,7 @@ func (w *WebRTC) Init(
 						w.flowCallback(false, ts, true)
 						return
 					case <-ticker.C:
+						s2 := lastSeq.Load()
 						if s1 == s2 {
 							isFlowing = false
 						} else {
@@ -336,7 +348,7 @@ func (w *WebRTC) Init(
 						}
 						s1 = s2
 						if isFlowing != wasFlowing {
-							ts := lastTimestamp
+							ts := time.Duration(lastTimestamp.Load())
 
 							// FIXME see comment above
 							if ts == 0 {
@@ -420,14 +432,14 @@ func (w *WebRTC) Init(
 			}
 
 			for _, p := range packets {
-				s2 = p.SequenceNumber
+				lastSeq.Store(uint32(p.SequenceNumber))
 				switch {
 				case isAudio:
 					rec.PushAudio(p)
-					lastTimestamp = rec.AudioTimestamp()
+					lastTimestamp.Store(int64(rec.AudioTimestamp()))
 				case isVideo:
 					rec.PushVideo(p)
-					lastTimestamp = rec.VideoTimestamp()
+					lastTimestamp.Store(int64(rec.VideoTimestamp()))
 				}
 			}
 		}
@@ -482,12 +494,23 @@ func (w *WebRTC) Init(
 }
 
 func (w *WebRTC) RequestKeyframe() {
-	for _, ssrc := range w.videoTrackSSRCs {
+	w.m.Lock()
+	ssrcs := append([]uint32{}, w.videoTrackSSRCs...)
+	w.m.Unlock()
+
+	for _, ssrc := range ssrcs {
 		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
 
 func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+	w.m.Lock()
+	defer w.m.Unlock()
+
+	if w.pc == nil {
+		return
+	}
+
 	err := w.pc.WriteRTCP([]rtcp.Packet{&rtcp.PictureLossIndication{MediaSSRC: ssrc}})
 
 	if err != nil {
@@ -508,11 +531,15 @@ func (w *WebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 }
 
 func (w *WebRTC) Close() error {
-	if w.pc == nil {
+	w.m.Lock()
+	pc := w.pc
+	w.m.Unlock()
+
+	if pc == nil {
 		return nil
 	}
 
-	return w.pc.Close()
+	return pc.Close()
 }
 
 var _ recorder.KeyframeRequester = (*WebRTC)(nil)
-- 
2.43.0


From 40bae8ab77ce642c7314f97d89646f6dc041fc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 16/29] fix: keep LiveKit track monitors running while their
 track is read

They were stopped as soon as onTrackSubscribed returned. The flow monitor
would also have locked up on its own lock or crashed before the first
packet.
---
 internal/webrtc/livekit/livekit.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index b8cdb75..498beac 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -279,6 +279,17 @@ func (w *LiveKitWebRTC) updateFlowState(trackID string, seqNum uint16, timestamp
 	}
 }
 
+func (w *LiveKitWebRTC) getFlowState(trackID string) (TrackFlowState, bool) {
+	w.m.Lock()
+	defer w.m.Unlock()
+
+	if state, exists := w.flowState[trackID]; exists {
+		return *state, true
+	}
+
+	return TrackFlowState{}, false
+}
+
 func (w *LiveKitWebRTC) latestTimestamp() time.Duration {
 	w.m.Lock()
 	defer w.m.Unlock()
@@ -334,6 +345,9 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 		// TODO: plug logger
 	)
 
+	// Closed when the track isn't read anymore, stops its monitors
+	done := make(chan struct{})
+
 	w.m.Lock()
 	w.jitterBuffers[trackID] = buffer
 
@@ -349,10 +363,6 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 
 		// Start periodic PLI requests - 3s to be similar to the other adapter,
 		// but LK is smarter than this. TODO remove later
-		done := make(chan bool)
-		defer func() {
-			done <- true
-		}()
 		go func() {
 			ticker := time.NewTicker(time.Second * 3)
 			for {
@@ -368,21 +378,16 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 	}
 	w.m.Unlock()
 
-	flowCheckDone := make(chan bool)
-	defer func() {
-		flowCheckDone <- true
-	}()
 	go func() {
 		ticker := time.NewTicker(time.Millisecond * 100)
 		var lastSeqNum uint16
 		for {
 			select {
-			case <-flowCheckDone:
+			case <-done:
 				ticker.Stop()
 				return
 			case <-ticker.C:
-				w.m.Lock()
-				state, exists := w.flowState[trackID]
+				state, exists := w.getFlowState(trackID)
 
 				if exists && state.lastSeqNum == lastSeqNum {
 					// No new packets received == not flowing
@@ -396,12 +401,13 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 				}
 
 				lastSeqNum = state.lastSeqNum
-				w.m.Unlock()
 			}
 		}
 	}()
 
 	go func() {
+		defer close(done)
+
 		for {
 			packet, _, err := track.ReadRTP()
 
-- 
2.43.0


From 8b064782e72acd98e66a3fd49a5b30dfdba82e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 17/29] fix: locking of the LiveKit adapter

The room, its participants and the PLI statistics were used without the
lock by some goroutines, and the lock was held while calling the recorder,
which calls back with its own lock held, and the flow callback.
---
 internal/webrtc/livekit/livekit.go | 51 +++++++++++++++++-------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 498beac..60c0cd1 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -124,12 +124,14 @@ func (w *LiveKitWebRTC) Init(rec recorder.Recorder) error {
 		return fmt.Errorf("failed to connect to LiveKit room: %w", err)
 	}
 
+	w.m.Lock()
 	w.room = roomClient
+	w.m.Unlock()
 
 	log.WithField("session", w.ctx.Value("session")).
 		Infof("Connected to LiveKit room %s", w.roomId)
 
-	if _, err := w.subscribeToTracks(); err != nil {
+	if _, err := w.subscribeToTracks(roomClient); err != nil {
 		log.WithField("session", w.ctx.Value("session")).
 			Errorf("Failed to subscribe to tracks: %v", err)
 		return err
@@ -150,11 +152,11 @@ func (w *LiveKitWebRTC) Close() error {
 	return nil
 }
 
-func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPublication, err error) {
+func (w *LiveKitWebRTC) subscribeToTracks(room *lksdk.Room) (subscribedTracks []lksdk.TrackPublication, err error) {
 	subscribedTracks = make([]lksdk.TrackPublication, 0)
 	remoteParticipants := make(map[string]*lksdk.RemoteParticipant)
 
-	for _, remoteParticipant := range w.room.GetRemoteParticipants() {
+	for _, remoteParticipant := range room.GetRemoteParticipants() {
 		for _, trackPublication := range remoteParticipant.TrackPublications() {
 			if slices.Contains(w.trackIds, trackPublication.SID()) {
 				kind := TrackKind(trackPublication.Kind())
@@ -179,7 +181,10 @@ func (w *LiveKitWebRTC) subscribeToTracks() (subscribedTracks []lksdk.TrackPubli
 		}
 	}
 
+	w.m.Lock()
 	w.remoteParticipants = remoteParticipants
+	w.m.Unlock()
+
 	return subscribedTracks, nil
 }
 
@@ -200,23 +205,27 @@ func (w *LiveKitWebRTC) subscribe(track lksdk.TrackPublication) error {
 
 func (w *LiveKitWebRTC) RequestKeyframe() {
 	w.m.Lock()
-	defer w.m.Unlock()
-
+	ids := make([]uint32, 0, len(w.pliStats))
 	ssrcs := make([]string, 0, len(w.pliStats))
 
 	for ssrc := range w.pliStats {
+		ids = append(ids, ssrc)
 		ssrcs = append(ssrcs, fmt.Sprintf("%d", ssrc))
 	}
+	w.m.Unlock()
 
 	log.WithField("session", w.ctx.Value("session")).
 		Tracef("Requesting keyframe for SSRCs %s", strings.Join(ssrcs, ", "))
 
-	for ssrc := range w.pliStats {
-		w.RequestKeyframeForSSRC(uint32(ssrc))
+	for _, ssrc := range ids {
+		w.RequestKeyframeForSSRC(ssrc)
 	}
 }
 
 func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
+	w.m.Lock()
+	defer w.m.Unlock()
+
 	if w.room == nil {
 		return
 	}
@@ -243,7 +252,6 @@ func (w *LiveKitWebRTC) RequestKeyframeForSSRC(ssrc uint32) {
 
 func (w *LiveKitWebRTC) updateFlowState(trackID string, seqNum uint16, timestamp time.Duration) {
 	w.m.Lock()
-	defer w.m.Unlock()
 
 	state, exists := w.flowState[trackID]
 
@@ -254,28 +262,24 @@ func (w *LiveKitWebRTC) updateFlowState(trackID string, seqNum uint16, timestamp
 			isFlowing:     false,
 		}
 		w.flowState[trackID] = state
+		w.m.Unlock()
 
 		return
 	}
 
-	wasFlowing := state.isFlowing
-	state.isFlowing = state.lastSeqNum != seqNum
+	isFlowing := state.lastSeqNum != seqNum
+	changed := isFlowing != state.isFlowing
+	state.isFlowing = isFlowing
 	state.lastSeqNum = seqNum
 	state.lastTimestamp = timestamp
+	w.m.Unlock()
 
-	if state.isFlowing != wasFlowing && w.flowCallback != nil {
-		var latestTimestamp time.Duration
-
-		for _, s := range w.flowState {
-			if s.lastTimestamp > latestTimestamp {
-				latestTimestamp = s.lastTimestamp
-			}
-		}
-
-		w.flowCallback(state.isFlowing, latestTimestamp, false)
+	if changed && w.flowCallback != nil {
+		latestTimestamp := w.latestTimestamp()
+		w.flowCallback(isFlowing, latestTimestamp, false)
 		log.WithField("session", w.ctx.Value("session")).
 			Tracef("Flow state changed for track %s: flowing=%v latestTimestamp=%s",
-				trackID, state.isFlowing, latestTimestamp)
+				trackID, isFlowing, latestTimestamp)
 	}
 }
 
@@ -350,11 +354,15 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 
 	w.m.Lock()
 	w.jitterBuffers[trackID] = buffer
+	w.m.Unlock()
 
 	if isVideo {
 		ssrc := uint32(track.SSRC())
+		w.m.Lock()
 		w.pliStats[ssrc] = PLITracker{count: 0, timestamp: time.Now()}
+		w.m.Unlock()
 
+		// The recorder calls back with its lock held, so don't hold ours here
 		if kfr, ok := w.handler.(interface {
 			SetKeyframeRequester(interfaces.KeyframeRequester)
 		}); ok {
@@ -376,7 +384,6 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 			}
 		}()
 	}
-	w.m.Unlock()
 
 	go func() {
 		ticker := time.NewTicker(time.Millisecond * 100)
-- 
2.43.0


From 044b8e71fb14544b76ad0f5f4854b60af5782173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 18/29] fix: LiveKit media times were a thousand times too
 small

---
 internal/webrtc/livekit/livekit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/webrtc/livekit/livekit.go b/internal/webrtc/livekit/livekit.go
index 60c0cd1..2fc12a5 100644
--- a/internal/webrtc/livekit/livekit.go
+++ b/internal/webrtc/livekit/livekit.go
@@ -435,7 +435,7 @@ func (w *LiveKitWebRTC) onTrackSubscribed(
 				w.updateFlowState(
 					trackID,
 					p.SequenceNumber,
-					time.Duration(p.Timestamp)*time.Millisecond/time.Duration(clockRate),
+					time.Duration(p.Timestamp)*time.Second/time.Duration(clockRate),
 				)
 
 				switch trackKind {
-- 
2.43.0


From 0e98c4d4fe77a35d54512094ee35b90748f22e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 19/29] fix: always answer test page requests

A failed start left the request hanging, responses for sessions it did not
start crashed the process, the answer channels were used without a lock,
requests within the same second shared one, and the answer was used as a
format string.
---
 internal/server/http.go | 59 ++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/internal/server/http.go b/internal/server/http.go
index 666d7f8..b74c2b4 100644
--- a/internal/server/http.go
+++ b/internal/server/http.go
@@ -3,21 +3,27 @@ package server
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"io/fs"
 	"net/http"
 	"path"
 	"strconv"
+	"sync"
 	"time"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/events"
 	"github.com/bigbluebutton/bbb-webrtc-recorder/web"
+	"github.com/google/uuid"
 	log "github.com/sirupsen/logrus"
 )
 
+// Longest wait for the answer to a recording started from the test page
+const answerTimeout = 30 * time.Second
+
 type HTTPServer struct {
 	cfg       *config.Config
 	port      int
@@ -37,13 +43,20 @@ func NewHTTPServer(cfg *config.Config, ps pubsub.PubSub) *HTTPServer {
 }
 
 func (s *HTTPServer) Serve() {
-	answerChannels := make(map[string]*chan string)
+	var m sync.Mutex
+	answerChannels := make(map[string]chan *events.StartRecordingResponse)
 	go s.pubsub.Subscribe(s.cfg.PubSub.Channels.Publish,
 		func(ctx context.Context, msg []byte) {
 			event := events.Decode(msg)
 			if e := event.StartRecordingResponse(); e != nil {
-				if e.SDP != nil {
-					*answerChannels[e.SessionId] <- *e.SDP
+				m.Lock()
+				answerChan, ok := answerChannels[e.SessionId]
+				delete(answerChannels, e.SessionId)
+				m.Unlock()
+
+				// Only sessions started from here are waited for
+				if ok {
+					answerChan <- e
 				}
 			}
 		},
@@ -51,11 +64,13 @@ func (s *HTTPServer) Serve() {
 			return nil
 		},
 	)
-	go s.serve(func(sdp string) string {
+	go s.serve(func(sdp string) (string, error) {
 		t := time.Now()
-		sessId := t.Format("20060102150405")
-		answerChan := make(chan string)
-		answerChannels[sessId] = &answerChan
+		sessId := uuid.New().String()
+		answerChan := make(chan *events.StartRecordingResponse, 1)
+		m.Lock()
+		answerChannels[sessId] = answerChan
+		m.Unlock()
 		e := events.StartRecording{
 			Id:        "startRecording",
 			SessionId: sessId,
@@ -69,13 +84,26 @@ func (s *HTTPServer) Serve() {
 		}
 		j, _ := json.Marshal(e)
 		s.pubsub.Publish(s.cfg.PubSub.Channels.Subscribe, j)
-		answer := <-answerChan
-		delete(answerChannels, sessId)
-		return answer
+
+		select {
+		case answer := <-answerChan:
+			if answer.Status != "ok" || answer.SDP == nil {
+				if answer.Error != nil {
+					return "", errors.New(*answer.Error)
+				}
+				return "", errors.New("recording failed to start")
+			}
+			return *answer.SDP, nil
+		case <-time.After(answerTimeout):
+			m.Lock()
+			delete(answerChannels, sessId)
+			m.Unlock()
+			return "", errors.New("timed out waiting for an answer")
+		}
 	})
 }
 
-func (s *HTTPServer) serve(handler func(string) string) {
+func (s *HTTPServer) serve(handler func(string) (string, error)) {
 
 	http.HandleFunc("/sdp", func(w http.ResponseWriter, r *http.Request) {
 		body, _ := io.ReadAll(r.Body)
@@ -84,8 +112,13 @@ func (s *HTTPServer) serve(handler func(string) string) {
 			fmt.Fprintf(w, "Post SDP offer in body")
 			return
 		}
-		response := handler(string(body))
-		fmt.Fprintf(w, response)
+		response, err := handler(string(body))
+		if err != nil {
+			log.Error(err)
+			http.Error(w, err.Error(), http.StatusInternalServerError)
+			return
+		}
+		fmt.Fprint(w, response)
 	})
 
 	http.Handle("/media/", http.StripPrefix("/media", http.FileServer(http.Dir(s.mediaRoot))))
-- 
2.43.0


From ef1b4f97e56bab39baf6e6dc37bddb1b850317be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 20/29] fix: do not serve metrics and the test page from each
 other's listener

Both used the default mux.
---
 internal/prometheus/prometheus.go |  8 ++++++--
 internal/server/http.go           | 11 ++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/internal/prometheus/prometheus.go b/internal/prometheus/prometheus.go
index e050c4e..f64a277 100644
--- a/internal/prometheus/prometheus.go
+++ b/internal/prometheus/prometheus.go
@@ -48,8 +48,12 @@ func ServePromMetrics(cfg config.Prometheus) {
 	}
 
 	go func() {
-		http.Handle("/metrics", promhttp.Handler())
-		http.ListenAndServe(cfg.ListenAddress, nil)
+		mux := http.NewServeMux()
+		mux.Handle("/metrics", promhttp.Handler())
+
+		if err := http.ListenAndServe(cfg.ListenAddress, mux); err != nil {
+			log.Errorf("failed to export prometheus metrics: %s", err)
+		}
 	}()
 
 	log.Infof("Prometheus metrics exported on %s", cfg.ListenAddress)
diff --git a/internal/server/http.go b/internal/server/http.go
index b74c2b4..ac7da82 100644
--- a/internal/server/http.go
+++ b/internal/server/http.go
@@ -105,7 +105,8 @@ func (s *HTTPServer) Serve() {
 
 func (s *HTTPServer) serve(handler func(string) (string, error)) {
 
-	http.HandleFunc("/sdp", func(w http.ResponseWriter, r *http.Request) {
+	mux := http.NewServeMux()
+	mux.HandleFunc("/sdp", func(w http.ResponseWriter, r *http.Request) {
 		body, _ := io.ReadAll(r.Body)
 		if len(body) == 0 || r.Method != http.MethodPost {
 			w.WriteHeader(422)
@@ -121,15 +122,15 @@ func (s *HTTPServer) serve(handler func(string) (string, error)) {
 		fmt.Fprint(w, response)
 	})
 
-	http.Handle("/media/", http.StripPrefix("/media", http.FileServer(http.Dir(s.mediaRoot))))
+	mux.Handle("/media/", http.StripPrefix("/media", http.FileServer(http.Dir(s.mediaRoot))))
 
 	public, _ := fs.Sub(s.publicFS, "public")
-	http.Handle("/", http.FileServer(http.FS(public)))
-	http.HandleFunc("/favicon.ico", func(rw http.ResponseWriter, r *http.Request) {})
+	mux.Handle("/", http.FileServer(http.FS(public)))
+	mux.HandleFunc("/favicon.ico", func(rw http.ResponseWriter, r *http.Request) {})
 
 	addr := ":" + strconv.Itoa(s.port)
 	log.Printf("starting http server on %s", addr)
-	if err := http.ListenAndServe(addr, nil); err != nil {
+	if err := http.ListenAndServe(addr, mux); err != nil {
 		log.Fatal(err)
 	}
 }
-- 
2.43.0


From 6fc73fae3d9778032f12ec8121affc421e195bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 21/29] fix: do not lose the message bus silently

When the subscription failed or ended the process exited with status 0, so
it was not restarted, and messages that could not be published were dropped
without a trace.
---
 internal/pubsub/redis.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/pubsub/redis.go b/internal/pubsub/redis.go
index b90fdf4..d47c7c5 100644
--- a/internal/pubsub/redis.go
+++ b/internal/pubsub/redis.go
@@ -19,16 +19,18 @@ type Redis struct {
 
 func (r *Redis) Subscribe(channel string, handler PubSubHandler, onStart func() error) {
 	log.Printf("subscribing to pubsub %s on redis %s", channel, r.config.Address)
-	r.pubsub.ListenChannels(r.ctx,
-		func() error {
-			onStart()
-			return nil
-		},
+	err := r.pubsub.ListenChannels(r.ctx,
+		onStart,
 		func(channel string, message []byte) error {
 			handler(r.ctx, message)
 			return nil
 		},
 		channel)
+
+	// Without the bus there is nothing left to do: let the supervisor restart us
+	if r.ctx.Err() == nil {
+		log.Fatalf("lost subscription to pubsub %s on redis %s: %v", channel, r.config.Address, err)
+	}
 }
 
 func (r *Redis) Unsubscribe() {
@@ -36,7 +38,9 @@ func (r *Redis) Unsubscribe() {
 }
 
 func (r *Redis) Publish(channel string, message []byte) {
-	r.pubsub.Publish(channel, message)
+	if err := r.pubsub.Publish(channel, message); err != nil {
+		log.Errorf("failed to publish to pubsub %s: %s", channel, err)
+	}
 }
 
 func NewRedis(cfg config.Redis) *Redis {
-- 
2.43.0


From 04836b415be1ef6f3568a3e3e94580f4d9b839af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 22/29] fix: keep the defaults of a partly configured redis
 adapter

With just an address configured the network was empty and the connection
failed.
---
 internal/config/config.go | 17 ++++++++++++-----
 internal/pubsub/pubsub.go |  2 +-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/config/config.go b/internal/config/config.go
index 75f8b43..d71797e 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -54,11 +54,8 @@ func (cfg *Config) SetDefaults() {
 	}
 	cfg.PubSub.Adapter = "redis"
 	cfg.PubSub.Adapters = make(map[string]interface{})
-	cfg.PubSub.Adapters["redis"] = &Redis{
-		Address:  ":6379",
-		Network:  "tcp",
-		Password: "",
-	}
+	redis := DefaultRedis()
+	cfg.PubSub.Adapters["redis"] = &redis
 	cfg.WebRTC.RTCMinPort = 24577
 	cfg.WebRTC.RTCMaxPort = 32768
 	cfg.WebRTC.JitterBuffer = 512
@@ -95,6 +92,16 @@ type Redis struct {
 	Password string `yaml:"password,omitempty"`
 }
 
+// DefaultRedis returns the redis adapter's default values. Loading an adapter's
+// configuration replaces it as a whole, so they are also needed to decode it.
+func DefaultRedis() Redis {
+	return Redis{
+		Address:  ":6379",
+		Network:  "tcp",
+		Password: "",
+	}
+}
+
 type PubSub struct {
 	Channels Channels `yaml:"channels,omitempty"`
 	Adapter  string   `yaml:"adapter,omitempty"`
diff --git a/internal/pubsub/pubsub.go b/internal/pubsub/pubsub.go
index 0e15258..078e27c 100644
--- a/internal/pubsub/pubsub.go
+++ b/internal/pubsub/pubsub.go
@@ -21,7 +21,7 @@ func NewPubSub(cfg config.PubSub) PubSub {
 	var ps PubSub
 	switch cfg.Adapter {
 	case "redis":
-		c := config.Redis{}
+		c := config.DefaultRedis()
 		if err = mapstructure.Decode(cfg.Adapters[cfg.Adapter], &c); err != nil {
 			break
 		}
-- 
2.43.0


From 8e69c59aa3a6a0b1490549488782ff15fae73ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 23/29] fix: do not read the configuration while it is being
 reloaded

---
 internal/app/app.go       | 14 ++++++++------
 internal/app/config.go    |  2 +-
 internal/app/log.go       |  1 +
 internal/config/config.go | 20 ++++++++++++++++++++
 internal/server/http.go   | 10 ++++++----
 internal/server/server.go | 19 +++++++++++--------
 6 files changed, 47 insertions(+), 19 deletions(-)

diff --git a/internal/app/app.go b/internal/app/app.go
index 78c5e09..a7a859a 100644
--- a/internal/app/app.go
+++ b/internal/app/app.go
@@ -73,19 +73,21 @@ func Init() {
 }
 
 func Run() {
-	if cfg.Prometheus.Enable {
+	c := cfg.Snapshot()
+
+	if c.Prometheus.Enable {
 		prometheus.Init()
-		prometheus.ServePromMetrics(cfg.Prometheus)
+		prometheus.ServePromMetrics(c.Prometheus)
 	}
 
-	if cfg.HTTP.Enable {
-		ps := pubsub.NewPubSub(cfg.PubSub)
+	if c.HTTP.Enable {
+		ps := pubsub.NewPubSub(c.PubSub)
 		h := server.NewHTTPServer(cfg, ps)
 		h.Serve()
 	}
-	ps := pubsub.NewPubSub(cfg.PubSub)
+	ps := pubsub.NewPubSub(c.PubSub)
 	s := server.NewServer(cfg, ps)
-	ps.Subscribe(cfg.PubSub.Channels.Subscribe, s.HandlePubSub, s.OnStart)
+	ps.Subscribe(c.PubSub.Channels.Subscribe, s.HandlePubSub, s.OnStart)
 }
 
 func sighupHandler() {
diff --git a/internal/app/config.go b/internal/app/config.go
index 3234eaa..09c7292 100644
--- a/internal/app/config.go
+++ b/internal/app/config.go
@@ -17,7 +17,7 @@ func initConfig() *config.Config {
 func loadConfig() {
 	newCfg := initConfig()
 	newCfg.Load(app, flags.config)
-	*cfg = *newCfg
+	cfg.Replace(newCfg)
 }
 
 func dumpConfig() {
diff --git a/internal/app/log.go b/internal/app/log.go
index ca3add4..4fb8056 100644
--- a/internal/app/log.go
+++ b/internal/app/log.go
@@ -30,6 +30,7 @@ func configureLog() {
 		}})
 	}
 
+	cfg := cfg.Snapshot()
 	level, err := log.ParseLevel(cfg.Log.Level)
 
 	if err != nil {
diff --git a/internal/config/config.go b/internal/config/config.go
index d71797e..0db9142 100644
--- a/internal/config/config.go
+++ b/internal/config/config.go
@@ -2,6 +2,7 @@ package config
 
 import (
 	"os"
+	"sync"
 
 	"github.com/pion/webrtc/v3"
 	log "github.com/sirupsen/logrus"
@@ -26,6 +27,25 @@ type Config struct {
 	Log        LogConfig  `yaml:"log"`
 }
 
+// A configuration in use is replaced when it's reloaded
+var inUse sync.RWMutex
+
+// Snapshot returns a copy of a configuration in use
+func (cfg *Config) Snapshot() Config {
+	inUse.RLock()
+	defer inUse.RUnlock()
+
+	return *cfg
+}
+
+// Replace replaces a configuration in use
+func (cfg *Config) Replace(newCfg *Config) {
+	inUse.Lock()
+	defer inUse.Unlock()
+
+	*cfg = *newCfg
+}
+
 func (cfg *Config) GetDefaults() *Config {
 	cfg.SetDefaults()
 	return cfg
diff --git a/internal/server/http.go b/internal/server/http.go
index ac7da82..9962615 100644
--- a/internal/server/http.go
+++ b/internal/server/http.go
@@ -33,10 +33,12 @@ type HTTPServer struct {
 }
 
 func NewHTTPServer(cfg *config.Config, ps pubsub.PubSub) *HTTPServer {
+	c := cfg.Snapshot()
+
 	return &HTTPServer{
 		cfg:       cfg,
-		port:      cfg.HTTP.Port,
-		mediaRoot: path.Clean(cfg.Recorder.Directory),
+		port:      c.HTTP.Port,
+		mediaRoot: path.Clean(c.Recorder.Directory),
 		publicFS:  web.PublicEmbedFS,
 		pubsub:    ps,
 	}
@@ -45,7 +47,7 @@ func NewHTTPServer(cfg *config.Config, ps pubsub.PubSub) *HTTPServer {
 func (s *HTTPServer) Serve() {
 	var m sync.Mutex
 	answerChannels := make(map[string]chan *events.StartRecordingResponse)
-	go s.pubsub.Subscribe(s.cfg.PubSub.Channels.Publish,
+	go s.pubsub.Subscribe(s.cfg.Snapshot().PubSub.Channels.Publish,
 		func(ctx context.Context, msg []byte) {
 			event := events.Decode(msg)
 			if e := event.StartRecordingResponse(); e != nil {
@@ -83,7 +85,7 @@ func (s *HTTPServer) Serve() {
 			},
 		}
 		j, _ := json.Marshal(e)
-		s.pubsub.Publish(s.cfg.PubSub.Channels.Subscribe, j)
+		s.pubsub.Publish(s.cfg.Snapshot().PubSub.Channels.Subscribe, j)
 
 		select {
 		case answer := <-answerChan:
diff --git a/internal/server/server.go b/internal/server/server.go
index 1427d96..37ffd1b 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -34,6 +34,8 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		return
 	}
 
+	cfg := s.cfg.Snapshot()
+
 	switch event.Id {
 	case "startRecording":
 		e := event.StartRecording()
@@ -64,7 +66,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 		switch e.Adapter {
 		case "livekit":
-			rec, err = recorder.NewRecorder(ctx, s.cfg.Recorder, e.FileName)
+			rec, err = recorder.NewRecorder(ctx, cfg.Recorder, e.FileName)
 
 			if err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
@@ -74,7 +76,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 
 			wrtc := livekit.NewLiveKitWebRTC(
 				ctx,
-				s.cfg.LiveKit,
+				cfg.LiveKit,
 				e.AdapterOptions.LiveKit.Room,
 				e.AdapterOptions.LiveKit.TrackIDs,
 			)
@@ -92,7 +94,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 			s.PublishPubSub(e.Success("", rec.GetFilePath()))
 
 		case "mediasoup", "":
-			rec, err = recorder.NewRecorder(ctx, s.cfg.Recorder, e.FileName)
+			rec, err = recorder.NewRecorder(ctx, cfg.Recorder, e.FileName)
 
 			if err != nil {
 				log.WithField("session", ctx.Value("session")).Error(err)
@@ -101,7 +103,7 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 			}
 
 			var sdp string
-			wrtc := webrtc.NewWebRTC(ctx, s.cfg.WebRTC)
+			wrtc := webrtc.NewWebRTC(ctx, cfg.WebRTC)
 			sess := NewSession(e.SessionId, s, wrtc, nil, rec)
 			s.sessions.Store(e.SessionId, sess)
 
@@ -149,18 +151,19 @@ func (s *Server) HandlePubSub(ctx context.Context, msg []byte) {
 		}
 
 	case "getRecorderStatus":
-		s.PublishPubSub(events.NewRecorderStatus(s.cfg.App.Version, s.cfg.App.InstanceId))
+		s.PublishPubSub(events.NewRecorderStatus(cfg.App.Version, cfg.App.InstanceId))
 	}
 }
 
 func (s *Server) PublishPubSub(msg interface{}) {
 	j, _ := json.Marshal(msg)
-	s.pubsub.Publish(s.cfg.PubSub.Channels.Publish, j)
+	s.pubsub.Publish(s.cfg.Snapshot().PubSub.Channels.Publish, j)
 }
 
 func (s *Server) OnStart() error {
-	log.Info("Application started. Version=", s.cfg.App.Version, " InstanceId=", s.cfg.App.InstanceId)
-	s.PublishPubSub(events.NewRecorderStatus(s.cfg.App.Version, s.cfg.App.InstanceId))
+	cfg := s.cfg.Snapshot()
+	log.Info("Application started. Version=", cfg.App.Version, " InstanceId=", cfg.App.InstanceId)
+	s.PublishPubSub(events.NewRecorderStatus(cfg.App.Version, cfg.App.InstanceId))
 	return nil
 }
 
-- 
2.43.0


From 19d878a389f28d919ca1fc6854d008e7f35edc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 24/29] fix: finalise recordings in progress when terminated

SIGINT exited right away and SIGTERM, which the service is stopped with, was
not handled at all.
---
 internal/app/app.go       | 10 +++++++++-
 internal/server/server.go | 23 +++++++++++++++++++++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/internal/app/app.go b/internal/app/app.go
index a7a859a..8d08408 100644
--- a/internal/app/app.go
+++ b/internal/app/app.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"os"
 	"os/signal"
+	"sync/atomic"
 	"syscall"
 
 	"github.com/bigbluebutton/bbb-webrtc-recorder/internal"
@@ -27,6 +28,9 @@ var (
 	}
 
 	cfg *config.Config
+
+	// The running server, once there is one
+	srv atomic.Pointer[server.Server]
 )
 
 func init() {
@@ -87,6 +91,7 @@ func Run() {
 	}
 	ps := pubsub.NewPubSub(c.PubSub)
 	s := server.NewServer(cfg, ps)
+	srv.Store(s)
 	ps.Subscribe(c.PubSub.Channels.Subscribe, s.HandlePubSub, s.OnStart)
 }
 
@@ -107,9 +112,12 @@ func sighupHandler() {
 
 func sigintHandler() {
 	sigint := make(chan os.Signal, 1)
-	signal.Notify(sigint, os.Interrupt)
+	signal.Notify(sigint, os.Interrupt, syscall.SIGTERM)
 	go func() {
 		<-sigint
+		if s := srv.Load(); s != nil {
+			s.Shutdown()
+		}
 		os.Exit(0)
 	}()
 }
diff --git a/internal/server/server.go b/internal/server/server.go
index 37ffd1b..541c43e 100644
--- a/internal/server/server.go
+++ b/internal/server/server.go
@@ -170,3 +170,26 @@ func (s *Server) OnStart() error {
 func (s *Server) CloseSession(sess *Session) {
 	s.sessions.CompareAndDelete(sess.id, sess)
 }
+
+// Shutdown finalises all recordings in progress
+func (s *Server) Shutdown() {
+	var stopped []*events.RecordingStopped
+
+	s.sessions.Range(func(_, value interface{}) bool {
+		sess := value.(*Session)
+
+		if ts, ok := sess.StopRecording(); ok {
+			stopped = append(stopped, events.NewRecordingStopped(sess.id, "shutdown", ts/time.Millisecond))
+			s.CloseSession(sess)
+		} else {
+			// Being ended by someone else, wait for the recording to be finalised
+			sess.recorder.Close()
+		}
+
+		return true
+	})
+
+	for _, e := range stopped {
+		s.PublishPubSub(e)
+	}
+}
-- 
2.43.0


From 8aa74a7a1ffbdd611c513e131e0cdebab329fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:22 +0000
Subject: [PATCH 25/29] fix: do not start the file over while a track is silent

---
 internal/webrtc/recorder/webm.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 932c194..d2015cc 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -334,8 +334,7 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 		isKf := isVP8KeyFrameData(sample.Data)
 
 		if isKf && ((r.videoWriter == nil && r.hasVideo) ||
-			(r.audioWriter == nil && r.hasAudio) ||
-			(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio))) {
+			(r.audioWriter == nil && r.hasAudio)) {
 			width, height := GetVP8KFDimension(packet)
 			log.WithField("session", r.ctx.Value("session")).
 				Tracef("Frame dimensions: %dx%d", width, height)
@@ -861,10 +860,9 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 	// Initialize writer if either:
 	// 1. We don't have a video writer yet and we have video
 	// 2. We don't have an audio writer yet and we have audio
-	// 3. We have both tracks but haven't received valid samples from both yet
+	// Doing so starts the file over: a track that is merely silent is no reason
 	if (r.videoWriter == nil && r.hasVideo) ||
-		(r.audioWriter == nil && r.hasAudio) ||
-		(r.hasVideo && r.hasAudio && (!r.hasValidVideo || !r.hasValidAudio)) {
+		(r.audioWriter == nil && r.hasAudio) {
 
 		raw := uint(r.currentFrame[6]) | uint(r.currentFrame[7])<<8 | uint(r.currentFrame[8])<<16 | uint(r.currentFrame[9])<<24
 		width := int(raw & 0x3FFF)
-- 
2.43.0


From 9f30ec1253218ab72069350b38638ae858118c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:02 +0000
Subject: [PATCH 26/29] fix: survive errors of the disk while recording

---
 internal/webrtc/recorder/webm.go | 52 +++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index d2015cc..dfbd946 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -347,7 +347,8 @@ func (r *WebmRecorder) pushVP8Builtin(packet *rtp.Packet) {
 			r.videoTimestamp += sample.Duration
 
 			if _, err := r.videoWriter.Write(isKf, int64(r.videoTimestamp/time.Millisecond), sample.Data); err != nil {
-				panic(err)
+				log.WithField("session", r.ctx.Value("session")).
+					Errorf("Error writing video frame: %v", err)
 			}
 
 			log.WithField("session", r.ctx.Value("session")).
@@ -389,7 +390,8 @@ func (r *WebmRecorder) pushOpus(p *rtp.Packet) {
 		if r.audioWriter != nil {
 			r.audioTimestamp += sample.Duration
 			if _, err := r.audioWriter.Write(true, int64(r.audioTimestamp/time.Millisecond), sample.Data); err != nil {
-				panic(err)
+				log.WithField("session", r.ctx.Value("session")).
+					Errorf("Error writing audio frame: %v", err)
 			}
 
 			log.WithField("session", r.ctx.Value("session")).
@@ -923,6 +925,10 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		}
 
 		r.hasValidVideo = true
+	} else {
+		// The file could not be started with this frame
+		r.hasKeyFrame = false
+		r.RequestKeyframe()
 	}
 
 	r.currentFrame = nil
@@ -973,6 +979,30 @@ func (r *WebmRecorder) pushToIVFWriter(frame []byte, p *rtp.Packet) {
 	}
 }
 
+// diskWriter keeps errors of the disk (e.g. a full one) from the muxer, which
+// would panic because of them. What was written until then remains.
+type diskWriter struct {
+	file    *os.File
+	session any
+	failed  bool
+}
+
+func (d *diskWriter) Write(b []byte) (int, error) {
+	if !d.failed {
+		if _, err := d.file.Write(b); err != nil {
+			d.failed = true
+			log.WithField("session", d.session).
+				Errorf("Error writing to %s, recording no further: %v", d.file.Name(), err)
+		}
+	}
+
+	return len(b), nil
+}
+
+func (d *diskWriter) Close() error {
+	return d.file.Close()
+}
+
 func (r *WebmRecorder) initWriter(width, height int) {
 	if !r.hasAudio && !r.hasVideo {
 		log.WithField("session", r.ctx.Value("session")).
@@ -983,7 +1013,9 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	log.WithField("file", r.file).WithField("fileMode", r.fileMode).Debug("Opening file for writing")
 	w, err := os.OpenFile(r.file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, r.fileMode)
 	if err != nil {
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Error opening %s: %v", r.file, err)
+		return
 	}
 
 	info := &webm.Info{
@@ -1038,20 +1070,24 @@ func (r *WebmRecorder) initWriter(width, height int) {
 	)
 
 	if err != nil {
-		// TODO review - panic is not the best choice here.
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Error creating block sorter: %v", err)
+		w.Close()
+		return
 	}
 
 	writers, err := webm.NewSimpleBlockWriter(
-		w,
+		&diskWriter{file: w, session: r.ctx.Value("session")},
 		tracks,
 		mkvcore.WithSegmentInfo(info),
 		mkvcore.WithBlockInterceptor(interceptor),
 	)
 
 	if err != nil {
-		// TODO review - panic is not the best choice here.
-		panic(err)
+		log.WithField("session", r.ctx.Value("session")).
+			Errorf("Error starting webm writers: %v", err)
+		w.Close()
+		return
 	}
 
 	log.WithField("session", r.ctx.Value("session")).
-- 
2.43.0


From 42ef0120347724964d89f7dd45a5c7dd2802ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:57 +0000
Subject: [PATCH 27/29] fix: accept media options for the default adapter

---
 internal/pubsub/events/events.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pubsub/events/events.go b/internal/pubsub/events/events.go
index 10a4795..9ef2663 100644
--- a/internal/pubsub/events/events.go
+++ b/internal/pubsub/events/events.go
@@ -117,7 +117,7 @@ func (e *StartRecording) Validate() error {
 		if len(e.AdapterOptions.LiveKit.TrackIDs) == 0 {
 			return fmt.Errorf("livekit adapter requires at least one track ID")
 		}
-	case AdapterMediasoup:
+	case AdapterMediasoup, "":
 		// TODO remove legacy SDP field later on - prlanzarin
 		if e.AdapterOptions != nil && e.AdapterOptions.Mediasoup != nil && e.AdapterOptions.Mediasoup.SDP != "" {
 			return nil
-- 
2.43.0


From f1220657788751233dd515a9bfe17320923c90b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:50 +0000
Subject: [PATCH 28/29] fix: drop the frame of a lost packet in every case

---
 internal/webrtc/recorder/webm.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index dfbd946..9d9a80a 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -515,14 +515,16 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		return
 	}
 
-	if r.expectedNextSeq > 0 && p.SequenceNumber != r.expectedNextSeq {
+	// Zero means that nothing was processed so far - or that numbers wrap around
+	if (r.expectedNextSeq > 0 || r.currentFrame != nil) && p.SequenceNumber != r.expectedNextSeq {
 		if !r.skipSignaled {
 			log.WithField("session", r.ctx.Value("session")).
 				Debugf("Sequence discontinuity detected: expected=%d, got=%d",
 					r.expectedNextSeq, p.SequenceNumber)
 		}
 
-		if r.skipSignaled && r.lastSkippedSeq+1 == p.SequenceNumber {
+		// Not necessarily the very next one, packets without payload don't get here
+		if r.skipSignaled {
 			log.WithField("session", r.ctx.Value("session")).
 				Debugf("Processing first packet after skip: seq=%d, last_skipped=%d",
 					p.SequenceNumber, r.lastSkippedSeq)
-- 
2.43.0


From fda85dcde02c636d4d0a45d406cc2df97413bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:20 +0000
Subject: [PATCH 29/29] fix: start the video track at zero even if the first
 keyframe is lost

---
 internal/webrtc/recorder/webm.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/webrtc/recorder/webm.go b/internal/webrtc/recorder/webm.go
index 9d9a80a..6b0634c 100644
--- a/internal/webrtc/recorder/webm.go
+++ b/internal/webrtc/recorder/webm.go
@@ -853,6 +853,12 @@ func (r *WebmRecorder) pushVP8Custom(p *rtp.Packet) {
 		Tracef("Assembled complete VP8 frame: keyframe=%v, size=%d",
 			isKeyFrame, frameSize)
 
+	if r.videoWriter == nil {
+		// The track starts with this frame, no matter how many keyframes were
+		// lost or discarded before it
+		r.packetTimestamp = p.Timestamp
+	}
+
 	duration := time.Duration((float64(p.Timestamp-r.packetTimestamp)/float64(vp8SampleRate))*secondToNanoseconds) * time.Nanosecond
 	newVideoTs := r.videoTimestamp + duration
 	newPts := int64(newVideoTs / time.Millisecond)
-- 
2.43.0

