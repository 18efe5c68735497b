p("C01","Every start request gets exactly one start response",
 "Every start request taken from the bus is answered with exactly one start response carrying that request's session id, whatever the request contains and however the set-up ends, including when setting up the media transport panics. The answer is \"ok\" only if every set-up step succeeded, and \"failed\" whenever one did not; no other kind of message causes a start response.",
 ["inputs","fault_sequences"],"every inbound message and every combination of set-up step failures (recorder, transport, signalling, panics)",
 "the server package has no tests at all; a test would sample a few failures, while the claim is about every return path of the request handler",
 [SRV,SES,EV],[("request handler: one publish per path","internal/server/server.go HandlePubSub"),("response constructors","internal/pubsub/events/events.go Success/Fail")],
 [("session registry","sessions by id","internal/server/server.go Server.sessions")],["messages published on the outbound channel"])
p("C02","A failed start leaves nothing behind",
 "When a start request is answered \"failed\" after work on it began, its session id is free again (a retry is not refused as a duplicate), the active-session gauge is where it was, the recorder made for it is closed, and any peer connection or room connection opened for it is closed.",
 ["inputs","fault_sequences"],"every point at which the set-up of either adapter can fail, by error or by panic",
 "no test exercises the handler; the failures sit deep in third-party transports that tests do not reach",
 [SRV,SES,RTC,LK],[("clean-up on the error paths of the request handler",SRV),("idempotent session stop",SES)],
 [("session registry","sessions by id","internal/server/server.go Server.sessions"),("sessions gauge","number of live sessions","internal/prometheus/prometheus.go Sessions")],["registry","gauge","transport Close/Disconnect"])
p("C03","Rejected start requests have no side effects",
 "A start request is acted on only if its session id is not active and it satisfies the protocol's own validation: a mediasoup request carries an SDP offer; a LiveKit request names a room and at least one track. Otherwise, before any directory, file, recorder or transport is created and without touching the active session of that id, it is answered \"failed\".",
 ["inputs","histories"],"every start request against every set of active sessions",
 "unit tests check a dozen literal requests against the validator and never the handler that must obey it",
 [SRV,EV],[("duplicate-id test before anything else",SRV),("StartRecording.Validate",EV)],[("session registry","sessions by id",SRV)],["file system, transport and registry effects"])
p("C04","A stop request finalises, announces once, and frees the session",
 "A stop request for an active session finalises its recording before it announces recordingStopped for that same session id, announces it exactly once (unless the session was already ended some other way), and frees the id. A stop request for an id that is not active changes nothing and announces nothing.",
 ["inputs","histories"],"every stop request in every registry state",
 "no test covers the handler; ordering of finalise/announce on all paths is not observable by sampling",
 [SRV,SES],[("stop branch of the request handler",SRV),("session stop",SES)],[("session registry","sessions by id",SRV)],["order of file close, publish and registry delete"])
p("C05","At most one recordingStopped per session, whatever ends it",
 "However the causes that can end a session coincide - a stop request, the media connection failing, a track ending, the room closing - at most one recordingStopped message is published for it and its recording is finalised by exactly one of them.",
 ["schedules","histories"],"every interleaving of the stop request with connection-state, track-end and room-disconnect callbacks",
 "needs concurrent callbacks from two third-party stacks; no test creates a session",
 [SRV,SES],[("one-shot end of session",SES)],[("stopped flag","session already ended","internal/server/session.go Session.stopped")],["published recordingStopped messages"])
p("C06","Ending a session releases everything it holds",
 "Whatever ends a session (stop request, media connection lost, last packet of a track, room disconnected), the recording is finalised, the peer connection or room connection is closed, the id is removed from the active sessions and the active-session gauge goes down by exactly one for the one it went up at start.",
 ["schedules","histories","fault_sequences"],"every cause that can end a session",
 "no test creates a session; leaks and missed finalisation show only after real transports fail",
 [SRV,SES,RTC,LK],[("session stop",SES),("connection state / flow callbacks",RTC),("LiveKit disconnect callback",LK)],
 [("sessions gauge","number of live sessions",PROM)],["recorder Close, transport Close, registry Delete, gauge Dec"])
p("C07","No bus message can crash the recorder",
 "No message received on any subscribed channel - malformed, not an object, without an id, of an unknown kind, with fields missing, or about a session this process does not know - dereferences a missing value, fails a type conversion or panics out of the handler; a message that cannot be decoded causes no reply.",
 ["inputs"],"every byte string delivered on a subscribed channel",
 "tests feed only well-formed structs to Validate; no test decodes a message",
 [SRV,HTTP,EV,DEC],[("decode failure is checked before use",SRV),("typed accessors",EV)],(),["process survival"])
p("C08","Messages keep the documented wire vocabulary",
 "Every message published carries the documented id for its kind, the documented field names, one of the documented status values, and the session id it is about; a failed start response carries an error and an ok one none; every documented inbound kind decodes to its own message type, and start, stop and status requests are each acted on. A status request is answered with one recorderStatus carrying this process's version and instance id, which is also announced when the subscription starts.",
 ["inputs","programs"],"every message kind in either direction and every publishing site",
 "tests validate a few response structs; nothing ties field tags, ids and handler cases to the documented protocol",
 [EV,DEC,SRV,SES,"README.md"],[("message structs, tags and constructors",EV),("decoder table",DEC),("handler table",SRV)],(),["published JSON"])
p("C09","Media timestamps on the wire are milliseconds",
 "Every timestampHR published in a recordingStopped or recordingRtpStatusChanged message is a media time converted to whole milliseconds exactly once, wherever the message is published from, and media times derived from RTP timestamps use the track's clock rate in ticks per second.",
 ["inputs","programs"],"every publishing site and every media time",
 "no test looks at published timestamps; a unit slip compiles and passes",
 [SRV,SES,EV,LK],[("division by the millisecond unit at each publisher",SES),("RTP ticks to duration",LK)],(),["timestampHR"])
p("C10","Recordings stay inside the configured directory",
 "Whatever file name a start request supplies - absolute, with parent-directory components, with redundant separators - every directory and file the recorder creates or opens for that recording lies inside the configured recording directory (or is the null device).",
 ["inputs","configurations"],"every requested file name and every configured directory",
 "no test covers file preparation; path traversal needs adversarial names",
 [REC,WEBM,IVF],[("file name confinement","internal/webrtc/recorder/recorder.go ValidateAndPrepareFile")],[("output path","where the container is written","internal/webrtc/recorder/webm.go WebmRecorder.file")],["paths given to the file system"])
p("C11","An existing file is never taken over by a new recording",
 "A start request naming a file that already exists is refused, and between accepting a request and writing the recording no other recording can be accepted for the same file; no file that existed before the request is truncated or overwritten, including side files such as the IVF copy.",
 ["inputs","histories"],"every sequence of start requests against every directory content",
 "needs two sessions interleaved with media arrival; no test opens a recorder",
 [REC,WEBM,IVF],[("exclusive creation of the output file",REC)],[("output path","where the container is written",WEBM)],["open flags and existence checks"])
p("C12","Files and directories get exactly the configured permissions",
 "Every file the recorder creates, including copies in other formats, is created with the configured file mode and every directory with the configured directory mode; a mode that does not parse refuses the recording instead of falling back to another one.",
 ["configurations","inputs"],"every configured pair of modes and every file the recorder can create",
 "no test creates files",
 [REC,WEBM,IVF],[("mode parsing",REC),("creating opens",WEBM)],(),["mode argument of every creating call"])
p("C13","Null-device mode writes nothing to disk",
 "With writing to the null device configured, a recording creates no directory and no file at all - not even the optional IVF copy - and the null device is the only path opened.",
 ["configurations","inputs"],"every combination of recorder settings and every file name",
 "no test enables the mode",
 [REC,WEBM,IVF],[("null device substitution",REC),("IVF copy switched off",WEBM)],(),["paths given to the file system"])
p("C14","A recording in progress is never truncated",
 "Once the container of a recording has been opened and media written, it is not opened again with truncation and its writers are not replaced, so media already recorded is not lost.",
 ["histories"],"every order in which audio and video tracks and their packets can arrive",
 "needs specific track arrival orders; no test writes a container",
 [WEBM],[("writer initialisation guards","internal/webrtc/recorder/webm.go pushVP8Builtin/pushVP8Custom/pushOpus/initWriter")],[("writers","audio/video block writers",WEBM)],["container opens"])
p("C15","Nothing is written after a recording is finalised",
 "Once a recording has been finalised, no packet that arrives later opens, truncates or writes any of its files, even if the packet was being handled concurrently with the finalisation.",
 ["schedules","histories"],"every interleaving of packet delivery with finalisation",
 "needs a race between the media goroutine and a stop; no test closes a recorder",
 [WEBM,IVF],[("closed flag tested under the recorder lock",WEBM)],[("closed","recording finalised","internal/webrtc/recorder/webm.go WebmRecorder.closed")],["writes and opens"])
p("C16","Finalising closes every writer exactly once",
 "The first finalisation closes every writer that was opened - audio, video and copy - even if closing one of them fails, returns the last video time, and never panics; any later finalisation has no effect; the recorder's lock is free again afterwards in every case. No file opened for the recording stays open: each is closed, or owned by a writer that is closed, including when setting up the container fails after opening it.",
 ["fault_sequences","histories"],"every failure of every writer's close and every repetition of the call",
 "close errors cannot be provoked by the existing tests, which never open a recorder",
 [WEBM,IVF],[("close",WEBM)],[("closed","recording finalised",WEBM)],["writer Close calls"])
p("C17","No media payload can crash the recorder",
 "No content of a media packet - empty, truncated, or with any header bits - makes the recorder's own packet inspection or frame assembly read beyond the bytes it has been given.",
 ["inputs"],"every payload of every length",
 "no test pushes a packet; crashing needs 1- to 12-byte payloads with particular bits",
 [WEBM],[("length checks before indexing",WEBM)],(),["slice indexing of payload and frame bytes"])
p("C18","Video resumes only at a keyframe after a damaged frame",
 "With the default video assembler, the first video frame written is a keyframe, and after a frame had to be discarded (loss, damage, timeout, size) no frame is written until a new keyframe has started, whose sending is requested from the publisher. A frame is assembled only from its first packet on and never mixed with one written before; a packet signalled as lost while a frame is being assembled discards that frame whatever the sequence numbers (also at their wrap-around) and whatever kind of packet comes next; and a jump of the picture ids counts as loss.",
 ["inputs","histories"],"every sequence of packets, losses and loss notifications",
 "needs specific loss patterns; no test pushes packets",
 [WEBM],[("keyframe gate","internal/webrtc/recorder/webm.go pushVP8Custom/NotifySkippedPacket")],[("hasKeyFrame","a decodable chain is being recorded",WEBM),("currentFrame","frame being assembled",WEBM)],["frames written","keyframe requests"])
p("C19","Written video blocks are flagged keyframe iff they are",
 "A video block is written with the keyframe flag if and only if the frame in it is a keyframe, regardless of how many packets the frame was carried in.",
 ["inputs"],"every frame in every packetisation",
 "no test writes a container; single-packet keyframes hide the difference",
 [WEBM],[("keyframe flag argument of the block writer",WEBM)],(),["keyframe flag of written blocks"])
p("C20","Media times only move forward",
 "Within a recording, the media time given to each written audio or video block is never smaller than that of the block written before it on the same track, it is in milliseconds, and the time reported for the track is that of its last written block.",
 ["inputs","histories"],"every sequence of RTP timestamps, including wrap-around and reordering",
 "no test writes blocks; wrap-around and backwards timestamps are rare",
 [WEBM],[("unsigned tick difference added to the last time",WEBM)],[("videoTimestamp/audioTimestamp","time of the last block",WEBM)],["timestamp argument of the block writer"])
p("C21","Every abandoned packet is signalled before later media",
 "When packets of a mediasoup track are given up on - timed out, overrun by the window, or abandoned after repeated retransmission requests - the recorder is told about the gap before it is handed any later packet of that track.",
 ["histories","inputs"],"every loss and reordering pattern",
 "the jitter buffer test never skips; the hand-over loop has no test",
 [RTC,JB],[("skip signal on hand-over",RTC),("skip record",JB)],[("lastSkippedSeq","skip not yet reported",JB)],["NotifySkippedPacket before PushVideo/PushAudio"])
p("C22","Audio and video go to their own sinks",
 "Packets of an audio track only ever reach the audio path and those of a video track the video path, for both adapters; a track is declared to the recorder before its packets are handed over; and Opus samples are written to the block track declared as Opus and VP8 frames to the one declared as VP8, whichever of them exist.",
 ["inputs","configurations"],"every combination of tracks in either adapter",
 "no test runs either adapter or opens a container",
 [RTC,LK,WEBM],[("kind dispatch",RTC),("kind dispatch",LK),("track table",WEBM)],(),["PushAudio/PushVideo/SetHas*, block writers"])
p("C23","Shared state is never accessed without its lock",
 "No two goroutines - bus handler, media callbacks, retransmission, flow and keyframe monitors, HTTP handlers - access the same mutable in-memory state concurrently with one of them writing, unless every such access is protected by a common lock or is atomic.",
 ["schedules"],"every interleaving of all goroutines the process starts",
 "the tests are single-threaded and the race detector only sees executed schedules",
 [RTC,LK,JB,RL,WEBM,SES,HTTP],[("locks of recorder, session, transports, buffers","respective types")],(),["memory accesses"])
p("C24","Locks are released on every exit and cannot deadlock",
 "Every lock taken is released on every way out of the operation that took it, no goroutine re-acquires a lock it already holds, and no two code paths acquire two locks in opposite orders, including through callbacks between recorder, transports and sessions.",
 ["schedules","fault_sequences"],"every path and every interleaving",
 "deadlocks need particular interleavings of media, loss and control events",
 [WEBM,IVF,RTC,LK,JB,RL,SU,SES],[("lock/unlock pairs and lock order","all lock-holding types")],(),["lock operations"])
p("C25","Per-track monitors live exactly as long as their track",
 "Every background activity started for a media track (retransmission, flow monitoring, periodic keyframe requests) keeps running while the track is being read and is stopped when reading ends, on every way out; when a mediasoup track ends this is reported once as closed.",
 ["schedules","histories"],"every way a track can end",
 "no test runs a track",
 [RTC,LK],[("stop channels signalled when the read loop ends",RTC)],(),["goroutine starts, stop signals"])
p("C26","Losing the message bus is never silent",
 "If subscribing fails or the subscription ends with an error, the process does not stay up deaf or exit as if successful: the failure is logged and the process ends with a non-zero status so that its supervisor restarts it; a message that could not be published is logged; a dead connection is noticed because reads time out later than the health-check period.",
 ["fault_sequences"],"every failure of the bus connection, at any time",
 "no test uses the bus",
 [RED,RED2,APP],[("error results of bus operations",RED),("health check",RED2)],(),["process exit status, log"])
p("C27","Configuration precedence and reload are all-or-nothing",
 "The effective configuration is the defaults, overridden by the file, overridden by the environment, in that order, for start-up and reload alike; a configuration that cannot be read is never partly applied, and no loader ever writes into the configuration in use.",
 ["configurations","histories"],"every configuration source and every reload",
 "no test loads a configuration",
 [ACFG,LOAD,CFG,APP],[("load order",LOAD),("swap after load",ACFG)],[("cfg","configuration in use","internal/app/app.go cfg")],["effective configuration"])
p("C28","Every setting reaches the component it configures",
 "Each configuration value is used for the component and role it is documented for: RTP port range, jitter buffer size and timeout, ICE servers, audio and video queue sizes, sampler choice, IVF copy, bus address, credentials and channels, LiveKit host and keys, HTTP port, metrics address, log level.",
 ["configurations"],"every configuration",
 "no test builds components from a configuration; swapped same-typed settings compile",
 [SRV,REC,WEBM,RTC,LK,RED,"internal/pubsub/pubsub.go",HTTP,PROM,APP],[("constructor arguments","each component's constructor")],(),["arguments given to third-party components"])
p("C29","Optional listeners serve only what they are for, when enabled",
 "No HTTP listener is opened unless its own section is enabled; the metrics listener serves metrics and nothing else, and the test page's listener serves the page, the signalling endpoint and media from the recording directory, but not metrics.",
 ["configurations"],"every combination of the two enable switches",
 "no test starts a listener; the leak needs both enabled",
 [PROM,HTTP,APP],[("separate request multiplexers",PROM)],(),["routes reachable on each listener"])
p("C30","Unwrapped sequence numbers stay congruent and non-negative",
 "For every order of arrival, an unwrapped sequence number is congruent to the received number modulo the size of the sequence space and is never negative, so it always maps to a valid position of the buffer it indexes.",
 ["inputs","histories"],"every sequence of received numbers",
 "the test samples one ascending run and one poked state",
 [SU,JB],[("wrap-around accounting",SU)],[("wrapArounds","multiples of the space already passed",SU)],["return value"])
p("C31","The jitter buffer never goes back and never indexes outside itself",
 "Whatever is added, skipped or taken, the position from which the jitter buffer releases packets never moves backwards, a released packet is forgotten so that it is not released twice, the slots of all the positions that a newer packet jumps over are emptied so that nothing of an earlier round is released in their place, and slots are only addressed modulo the buffer's size.",
 ["inputs","histories"],"every sequence of operations",
 "one scripted run of 8 slots",
 [JB],[("release position and slot clearing",JB)],[("nextStart","next position to release",JB)],["released packets"])
p("C32","Missing-packet detection reports exactly the gaps",
 "The receive log reports as missing exactly those sequence numbers inside its window that were not received, across wrap-around.",
 ["inputs","histories"],"every arrival order",
 "a few scripted arrivals; the claim is about all orders and sizes",
 [RL],[("bitmap arithmetic",RL)],(),["missing list"])
p("C33","Recovered media is complete, in order and in sync",
 "For every loss and reordering pattern within the retransmission window, the recording contains every received frame in order and audio and video stay aligned to their capture times.",
 ["inputs","schedules","histories"],"every network behaviour",
 "end-to-end behaviour over time; no test records media",
 [RTC,WEBM,JB],[("jitter buffer, sample assembly, muxing",WEBM)],(),["recorded file"])
p("C34","A test-page request is always answered and never hangs",
 "Every signalling request posted to the HTTP test page gets an answer: the SDP of the ok response to its own start request, or an error if that request failed; responses belonging to sessions the page did not start are ignored, and concurrent requests never receive each other's answers.",
 ["schedules","inputs"],"every order of bus responses and concurrent requests",
 "no test uses the HTTP server",
 [HTTP],[("answer table",HTTP)],[("answer channels","pending requests by session id",HTTP)],["HTTP responses"])
p("C35","Terminating the process finalises recordings in progress",
 "When the process is asked to terminate (SIGINT or SIGTERM), every recording in progress is finalised before the process exits.",
 ["crash_points","schedules"],"termination at any time",
 "no test runs the process",
 [APP],[("signal handlers",APP)],(),["recorder Close before exit"])
p("C36","Storage failures never crash the process",
 "An error while opening, creating, writing or closing a recording's files (missing directory, full disk, ...), or reported by the container library, stays confined to that recording: no media packet, loss notification or finalisation makes the process panic or exit because of it, and the container library is never given a write error, on which it would panic in a goroutine of its own.",
 ["fault_sequences","histories"],"every failure of every storage operation at any point of a recording",
 "no test opens a container, and the failures come from the disk",
 [WEBM],[("writer set-up and writes",WEBM)],(),["panics and exits"])
p("C37","Acceptable start requests are attempted",
 "A start request for a session id that is not active, with a file name, that names livekit with a room and at least one track, or names mediasoup (or no adapter, which means mediasoup) with an SDP offer in either documented place, is refused only because setting up the recorder or the transport failed - never as invalid, unsupported or incomplete.",
 ["inputs","histories"],"every combination of request fields and every registry state",
 "tests sample a few requests against Validate alone; the rule is a disjunction over optional nested fields spread over Validate, the SDP lookup and the handler's dispatch",
 [EV,SRV,"README.md"],[("StartRecording.Validate",EV),("adapter dispatch",SRV)],[("request fields","decoded message",EV)],["startRecordingResponse status"])
p("C38","Media time follows the RTP clock",
 "From one block of a track to the next the media time advances by exactly the time between them by their RTP timestamps - at 90 kHz for video and 48 kHz for audio, across the wrap-around of the timestamps and whatever was lost, skipped or discarded in between - so that the tracks stay in step; time before a track's first written block is not counted, so with the default video assembler the video track begins at zero even if earlier keyframes were lost.",
 ["inputs","histories"],"every sequence of RTP timestamps, losses and discarded frames",
 "no test writes blocks; drift needs particular losses or long recordings",
 [WEBM],[("duration from p.Timestamp-r.packetTimestamp; sample.Duration",WEBM)],[("packetTimestamp","RTP timestamp of the last written frame",WEBM),("videoTimestamp/audioTimestamp","time of the last block",WEBM)],["timestamp argument of the block writer"])
p("C39","Keyframe requests reach every publisher of video",
 "With either transport, before any packet of a video track is handed to the recorder, the recorder has been given the transport to ask for keyframes and the track's SSRC is among those that requests go to. While there is a connection, every request made of the transport sends a picture loss indication for every video track so far, naming its SSRC, to every publisher known. One is also sent at every tick of a timer while a video track is read, and the LiveKit transport requests one whenever its jitter buffer gives up on packets of a video track.",
 ["schedules","histories","inputs"],"every number, order and kind of tracks, every request and loss",
 "no test sets up a transport; a request that leaves out a second track only shows as a video frozen until the next natural keyframe",
 [RTC,LK],[("OnTrack, RequestKeyframe, RequestKeyframeForSSRC",RTC),("onTrackSubscribed, RequestKeyframe, RequestKeyframeForSSRC",LK)],[("videoTrackSSRCs","tracks to ask for",RTC),("pliStats","tracks to ask for",LK)],["PeerConnection.WriteRTCP","RemoteParticipant.WritePLI"])
p("C40","Media that starts or stops flowing is announced once each time",
 "While a track is read, its transport looks from time to time whether packets were handed over since the last look. Every time a track's media is found to have started or stopped flowing, this is reported, as what it is; a report never repeats the status reported before for that track. For each such report the server publishes exactly one recordingRtpStatusChanged message for the session, and none for the report that a track ended.",
 ["schedules","histories","inputs"],"every sequence of packets, pauses and looks",
 "no test lets a track pause; a status that is repeated, missed or stuck needs particular pauses",
 [RTC,LK,SES],[("flow monitor in OnTrack",RTC),("updateFlowState and its monitor",LK),("onFlowChanged",SES)],[("wasFlowing/isFlowing, s1, lastSeq","status and packet number of the last look",RTC),("TrackFlowState","status and packet number of the last look",LK)],["flow callback","recordingRtpStatusChanged"])
p("C41","Exactly the requested media is asked for",
 "A start by LiveKit joins the room that the request names, without subscribing to all its tracks, and subscribes to every publication found there whose id is among the requested track ids, and to no other; it fails if subscribing to one does. A start by mediasoup sets the offer of the request (that among the adapter's options before the old field) as it is, with one transceiver of its kind for each audio and each video media description of the offer, and its answer is the local description once candidate gathering is complete.",
 ["inputs","histories"],"every request, room content and offer",
 "no test sets up a transport; a publication that is left out or let in by mistake needs particular participants, tracks and requests",
 [LK,RTC,SRV,SES],[("Init, subscribeToTracks, subscribe",LK),("Init",RTC),("start handling",SRV),("StartRecording",SES)],[("roomId, trackIds","what the request names",LK),("sdpOffer","the offer of the request",RTC)],["lksdk.ConnectToRoom","RemoteTrackPublication.SetSubscribed","AddTransceiverFromKind","SetRemoteDescription","returned answer"])
p("C42","What is missing is asked for again, all of it and nothing else",
 "The mediasoup transport enters every packet that it reads into its receive log, and at every tick of its retransmission timer goes over all that this log reports missing: each of these is named in a request that is sent in the same round for the SSRC of the track, or was asked for as often as is allowed before; a packet is given up only after it was asked for. Packing sequence numbers into the pairs of a request loses none and adds none: each becomes the number of a pair or its own bit of one that begins at most 16 before it, the other bits are kept, a new pair begins without any, and every pair is handed back.",
 ["inputs","histories"],"every list of missing sequence numbers and every history of requests",
 "one literal list is packed by the tests, and no test sets up a transport; a number that is dropped or added needs a particular distance to those before it",
 [RTC,NK],[("retransmission timer, packet reader",RTC),("NackPairs",NK)],[("nackedPackets","how often each packet was asked for",RTC)],["PeerConnection.WriteRTCP","NackPairs' result"])
