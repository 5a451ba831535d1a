PROPS=[]
def P(id,title,statement,over,text,tests,files,mech,technique=None,level='other',note='',na=None,state=None,observe=None):
    PROPS.append(dict(id=id,title=title,statement=statement,
      quantifier={'over':over.split(),'text':text},why_tests_cant=tests,
      anchors={'files':files.split(),'mechanism':[{'name':n,'where':w} for n,w in mech],
               **({'state':[{'name':a,'meaning':b,'where':c} for a,b,c in state]} if state else {}),
               'observe_at':observe or [],'hook_needed':None},
      check={'na':na} if na else dict(technique=technique,level=level,note=note)))

BN="Proof over an abstraction: every run-time bounds check in the group is an obligation and all are discharged. Trusts go/ssa, the checker's linear-inequality domain and its contracts for the standard library and Athena; assumes no data race corrupts slice headers."
BT="abstract interpretation over SSA (linear inequalities over integers and slice lengths, path facts, loop/field invariants, interprocedural on demand)"
P('C01','RTMP, FLV, AMF and WebSocket input never crashes the server on bounds',
 "Whatever bytes an RTMP, HTTP-FLV or WebSocket peer sends, in whatever chunking, decoding them never indexes or slices a buffer out of range, never allocates a negative or absurd length, never divides by zero and never decodes a fixed-width field from too few bytes. Malformed input ends in an error for that one connection, not in a crash of the process.",
 'inputs','all byte sequences and chunkings a peer can send on an RTMP, HTTP-FLV or WebSocket connection',
 "The tests feed a handful of well-formed messages; a crash needs one particular truncated or inconsistent length among all inputs.",
 'librtmp/chunk.go librtmp/message.go librtmp/control_message.go librtmp/command_message.go librtmp/aggregate_message.go librtmp/handshake.go librtmp/websocket.go libflv/audio.go libflv/video.go libamf/amf0.go',
 [('length checks before fixed-width decodes','librtmp/control_message.go Parse methods'),('chunk payload sized from the remaining message length','librtmp/chunk.go ParseChunk'),('sub-message end checked against the payload','librtmp/aggregate_message.go Do'),('frame length limit','librtmp/websocket.go readFrame')],
 BT,'proof',BN)
P('C02','RTSP and RTP input never crashes the server on bounds',
 "Whatever RTSP requests, SDP bodies and RTP packets a peer sends over TCP or UDP, parsing, depacketising and packetising them never indexes or slices a buffer out of range, never allocates a negative or absurd length and never divides by zero. Malformed input is rejected or dropped.",
 'inputs','all RTSP requests, SDP bodies and RTP packets a peer can send',
 "The tests cover a few valid packets and one or two truncations; the property quantifies over every length and header combination.",
 'librtsp/message.go librtsp/rtp.go librtsp/rtp_unpack.go librtsp/h264.go librtsp/hevc.go librtsp/aac.go librtsp/opus.go librtsp/sdp_parse.go librtmp/rtsp_server.go librtmp/rtsp_ingest.go',
 [('Content-Length validation','librtsp/message.go ReadRequest'),('RTP header length checks','librtsp/rtp_unpack.go ParseRTP'),('AU-header walk bounded by the payload','librtsp/rtp_unpack.go AACAUExtract'),('decoder configuration record walks','librtmp/rtsp_server.go parseAVCDCRForRTSP, parseHEVCDCRForRTSP')],
 BT,'proof',BN)
P('C03','SRT datagrams and MPEG-TS payloads never crash the server on bounds',
 "Whatever datagrams arrive on an SRT listener, and whatever transport-stream packets they carry, decoding them never indexes or slices a buffer out of range and never decodes a field from too few bytes. Malformed packets are ignored.",
 'inputs','all UDP datagrams and all MPEG-TS packet contents inside them',
 "The tests send well-formed handshakes and streams; the property quantifies over every datagram length, pointer field, adaptation length and PES header length.",
 'libsrt/packet.go libsrt/handshake.go libsrt/control.go libsrt/listener.go libsrt/tsdemux.go libsrt/crypto.go librtmp/srt_server.go',
 [('minimum header size','libsrt/packet.go ParseHeader'),('pointer field and section length checks','libsrt/tsdemux.go parsePAT, parsePMT'),('PES header length checks','libsrt/tsdemux.go parsePESHeader'),('start-code scan bounds','librtmp/srt_server.go splitAnnexB')],
 BT,'proof',BN)
P('C04','No published media can crash the HLS, DASH, TS or MP4 output on bounds',
 "Whatever audio, video and metadata a publisher pushes, converting it to transport-stream segments, playlists, MP4 fragments and manifests, including reading the codec configuration records, never indexes or slices out of range and never divides by zero. One stream's malformed media cannot take the process down.",
 'inputs','all tag payloads, codec configuration records and timestamps a publisher can push',
 "The tests push a few valid frames; the property quantifies over every payload length and every field of the configuration records.",
 'libhls/hls.go libhls/m3u8.go libdash/dash.go libdash/mpd.go libmpeg/ts.go libmpeg/pes.go libmpeg/psi.go libmp4/box.go libmp4/init_segment.go libmp4/media_segment.go libavc/avc.go libaac/aac.go',
 [('record length checks','libavc/avc.go ParseSpecificInfo, libdash/dash.go parseAVCDCR'),('packet budget arithmetic','libmpeg/ts.go Mux'),('bit reader bounds','libdash/dash.go readBits')],
 BT,'proof',BN)
TS="path-sensitive interprocedural typestate analysis over SSA (summaries per entry state to a fixpoint, every goroutine and HTTP handler as a root)"
TN="Explores every control-flow path of the SSA program from every goroutine root; branch feasibility is over-approximated outside nil tests, constants, tracked fields and comma-ok results, so it can only err towards reporting. Fields are abstracted once per type along a path; trusts go/ssa, the call graph and the stated contracts of sync.Map and Athena's Broadcast."
P('C07','A stream has at most one publisher',
 "However RTMP, pull, RTSP and SRT publishers race for the same stream, at most one of them owns it: claiming is a single atomic step, an existing publisher's entry is never overwritten, and media of an endpoint is accepted only after its claim succeeded. The loser is refused and none of its media reaches the stream.",
 'schedules histories','all interleavings of publish attempts over all ingests and all command sequences on one connection',
 "Tests publish once or twice in sequence; a check-then-store race or a path that ignores a lost claim shows only in particular interleavings or command orders.",
 'librtmp/app.go librtmp/command_message.go librtmp/client.go librtmp/rtsp_ingest.go librtmp/srt_server.go librtmp/audio.go librtmp/video.go librtmp/data_message.go',
 [('atomic claim','librtmp/app.go Claim'),('claim before media','PUBLISH in librtmp/command_message.go, pullClient.Run, handleAnnounce, srtBridge.onData')],
 TS,'other',TN)
P('C08','A departed publisher leaves nothing behind',
 "Whenever a publisher goes away, on whatever path (disconnect, parse error, refused command, lost SRT session, failed RTSP recording), its stream is removed from the room table under the name and app it was claimed in, the broadcast is closed so that every subscriber's loop ends, and the HLS and DASH segmenters attached to it are stopped and unregistered. The name can be published again, no media is accepted on the room afterwards and no segmenter slips in between.",
 'histories crash_points schedules','all exits of all publisher goroutines, after all command histories',
 "Tests close a connection at one point; the leak is on one error path or after one unusual order of commands.",
 'librtmp/rtmp.go librtmp/app.go librtmp/room.go librtmp/client.go librtmp/rtsp_server.go librtmp/srt_server.go libsrt/listener.go',
 [('cleanup on every exit','librtmp/rtmp.go cleanup, rtspSession.cleanup, srtBridge.onClose'),('teardown of room and segmenters','librtmp/app.go Delete'),('closing the broadcast','librtmp/room.go Close')],
 TS,'other',TN)
P('C09','Only its publisher can change a stream',
 "Media, metadata and sequence headers reach a stream, and the stream is closed or removed, only through the endpoint that published it. A player, a refused publisher, a second connection or an HTTP client can neither inject media into a room nor tear it down.",
 'histories inputs','all message sequences on all connections',
 "Tests never send media on a playing or refused connection; the property quantifies over every order of commands and media messages.",
 'librtmp/audio.go librtmp/video.go librtmp/data_message.go librtmp/rtmp.go librtmp/rtsp_ingest.go librtmp/srt_server.go librtmp/command_message.go',
 [('role check before writing media','Do methods of audio, video and data messages'),('role check before teardown','librtmp/rtmp.go cleanup')],
 TS,'other',TN)
P('C10','Every ingest feeds the same outputs',
 "Whichever way a stream is ingested (RTMP publish, pull, RTSP ANNOUNCE, SRT), when the server is configured to segment from the start, its HLS and DASH segmenters are registered and running before its first media is accepted. A segmenter is started once per stream and never for a stream whose publisher has already left.",
 'histories schedules','all ingests, all configurations of HLS mode and DASH, all interleavings of requests with a publisher leaving',
 "Tests cover RTMP publishing in one configuration; a missing call in one ingest or an unlocked registration shows only there.",
 'librtmp/app.go librtmp/command_message.go librtmp/client.go librtmp/rtsp_ingest.go librtmp/srt_server.go librtmp/server.go',
 [('start of segmenters','librtmp/app.go startSegmenters, startHLS, startDASH'),('call in every ingest','PUBLISH, pullClient.Run, handleAnnounce, srtBridge.onData')],
 TS,'other',TN)
P('C11','A subscriber loop ends with its stream or its subscriber',
 "Every loop that forwards a broadcast (to an RTMP player, an HTTP-FLV or WebSocket viewer, an RTSP player, a segmenter) ends once the broadcast is closed, never touches the absent packet that signals the end, and, when it writes to a subscriber, ends once a write to that subscriber failed. A departed publisher or viewer never leaves a goroutine spinning or crashing.",
 'histories schedules','all ways a publisher or subscriber can leave while its loop is running',
 "Tests stop a stream cleanly once; the property quantifies over every exit of every forwarding loop, including failed writes in nested helpers.",
 'librtmp/room.go librtmp/server.go librtmp/websocket.go librtmp/rtsp_server.go libhls/hls.go libdash/dash.go',
 [('check of the alive flag','RTMPJoin, FLVJoin, WSFLVJoin in librtmp/room.go; rtspSession.streamMedia; Start in libhls and libdash'),('return on a failed write','same loops')],
 TS,'other',TN)
P('C15','Nobody waits for a segmenter that is gone',
 "A request that waits for the first segment is released when a segment is ready, when the segmenter ends on any path (including failure to create its directory or files), or when the stream is torn down; a blocking low-latency playlist request is woken by every new segment or part and at the latest by its deadline. The release signal is given at most once.",
 'histories schedules crash_points','all exits of the segmenters, all interleavings of playlist requests with segment production and teardown',
 "Tests wait for a segment that does arrive; the hang is on an error exit or after a missed wake-up.",
 'libhls/hls.go libdash/dash.go librtmp/server.go',
 [('ready channel','Start, Stop, finaliseCurrent in libhls/hls.go; Start, Stop, flushCurrent in libdash/dash.go'),('condition variable','WaitForPlaylist, closeCurrentPart, finaliseCurrent in libhls/hls.go')],
 TS,'other',TN)
P('C16','A playlist names complete segments only, and none is left behind',
 "Whatever media arrives and whenever the stream ends: a segment enters the HLS or DASH list only once its file is completely written and closed, under the lock and never after the stream was stopped; the list never exceeds its window, its numbering advances by one per segment, the file removed on eviction is the evicted one; stopping removes every listed file; every segment starts at a key frame. No file is left open, unlisted or orphaned.",
 'histories schedules crash_points','all tag sequences, all file-system errors, all interleavings of segment completion with stopping',
 "Tests cut a couple of segments from a clean stream; the property quantifies over every point at which a stream can stop or a file operation can fail.",
 'libhls/hls.go libdash/dash.go',
 [('segment completion','finaliseCurrent in libhls/hls.go, flushCurrent in libdash/dash.go'),('window and eviction','same functions'),('teardown','Stop in both'),('rotation at key frames','Start in both')],
 TS,'other',TN)
P('C17','No peer-chosen name leaves the configured directories',
 "Whatever names publishers give their streams and whatever URLs HTTP clients request, every file the server creates, writes, serves or removes lies directly in a directory its operator configured: a name taken from a peer is reduced to a single path component that contains no separator and is not a parent reference.",
 'inputs','all stream names, application names and URLs, in every encoding',
 "Tests request one or two traversal URLs; the property quantifies over every name on every path from a peer to a file operation.",
 'libhls/hls.go libdash/dash.go librtmp/server.go',
 [('escaping of stream names','fileName in libhls/hls.go and libdash/dash.go'),('URL splitting','parseHlsURL in librtmp/server.go'),('relative-path check','handleHls, serveDASH in librtmp/server.go')],
 "interprocedural backward data-flow over SSA from every file operation, with a lattice of path kinds, dominating-test facts and an exact byte-value flow analysis of sanitisers",'other',
 "Every path argument of every file operation is an obligation and is proven; the analysis is a may-analysis over all sources and errs towards reporting. Trusts go/ssa, the call graph and the listed models of path/filepath, strings and fmt; assumes parameters of exported functions without callers and never-written fields are operator configuration.")
P('C12','No lock deadlocks or stalls the server',
 "Whatever order requests, publishers and players arrive in: a goroutine never takes a mutex it already holds, releases every mutex it took on every path and none it does not hold, nested mutexes are always taken in the same order, condition variables are waited on with their own lock, and no goroutine waits for a peer, a timer, a channel or another goroutine while it holds a lock others need. One slow or silent peer therefore cannot stall the others.",
 'schedules histories','all paths of all goroutines and HTTP handlers, all interleavings of their critical sections',
 "A deadlock or a stall needs one error path, one interleaving or one silent peer; tests run the happy path with fast peers.",
 'libhls/hls.go libdash/dash.go librtmp/room.go librtmp/app.go librtmp/websocket.go librtmp/rtsp_server.go librtmp/srt_server.go libsrt/listener.go',
 [('critical sections','every Lock and Unlock in libhls, libdash, librtmp and libsrt'),('condition variable','WaitForPlaylist in libhls/hls.go'),('write mutexes','writeFrame in librtmp/websocket.go, writeResponse and writeInterleaved in librtmp/rtsp_server.go')],
 "typestate analysis over SSA with one automaton per mutex along every interprocedural path, plus a lock-order graph",'other',TN)
P('C13','No two goroutines race on shared state',
 "Whatever the interleaving of publishers, players, segmenters, HTTP handlers and protocol listeners: two goroutines never access the same field of a shared object, or the elements of the same slice or map, with one of them writing, unless a common mutex, atomic operations or a hand-over orders them. An RTSP session's state is not touched by its request loop while its streaming or receiving goroutines use it.",
 'schedules','all interleavings of all goroutines the program starts, over all objects they share',
 "Tests are single-threaded or sample a few interleavings; a race corrupts state only in a particular one and the race detector reports only what a run happened to execute.",
 'librtmp/room.go librtmp/app.go librtmp/server.go librtmp/rtsp_server.go librtmp/rtsp_ingest.go librtmp/rtmp.go librtmp/srt_server.go libhls/hls.go libdash/dash.go libsrt/listener.go librtsp/rtp_unpack.go librtsp/rtp.go',
 [('guarded state','libhls.HLS.mu, libdash.DASH.mu, librtmp.Room.mu'),('state of a playing session','handleSetup, handlePlay, streamLoop in librtmp/rtsp_server.go'),('state of a recording session','runIngestLoop, runUDPReader, handleInterleaved in librtmp/rtsp_ingest.go'),('immutable media','every tag after GOP.Write')],
 "whole-program static lockset analysis (escape, ownership and publication inference) with typestate exploration of goroutine hand-overs",'other',
 "Every pair of conflicting accesses of every pair of goroutine roots is an obligation. Objects are told apart by type, freshness and ownership; hand-overs are explored path by path over the session's flags, pointers and channel numbers. Trusts go/ssa, the call graph and that the standard library and Athena synchronise themselves.")
P('C14','Frames of different goroutines never mix on one connection',
 "Whenever two goroutines send on one connection (RTMP control and media, WebSocket media and pongs, RTSP responses and interleaved RTP), each frame arrives whole: it is handed over in one write or written under one lock that every other sender of the connection holds, and RTMP messages sent by different goroutines use different chunk streams, so that their chunks may interleave.",
 'schedules','all interleavings of the goroutines that share a connection',
 "A mixed-up frame needs a ping or a request at the instant a media frame is half written; tests have one writer.",
 'librtmp/websocket.go librtmp/chunk.go librtmp/rtsp_server.go librtmp/control_message.go librtmp/room.go',
 [('frame lock','writeFrame in librtmp/websocket.go'),('one write per chunk','Send in librtmp/chunk.go'),('response and interleaved frames','writeResponse, run, writeInterleaved in librtmp/rtsp_server.go'),('chunk stream partition','csid constants in librtmp/control_message.go')],
 "lockset and atomicity analysis over SSA: frame fragments, the locks held across them, and constant propagation of chunk stream ids per goroutine",'other',
 "Every pair of writes of one activation and every write site of a connection shared by two goroutines is an obligation. Trusts go/ssa, the call graph and that one net.Conn Write is atomic.")
P('C19','Every segment stands alone',
 "A transport-stream segment is opened only for a key frame and carries program tables (PAT, then PMT) and restarted continuity counters before its first media; every frame is written whole, from its own start, before the next frame is read or the segment ends, each packet numbered from the segment's counters; only a frame's first packet is marked as its start, and only the first packet of a key frame as a random access point. The fragmented-MP4 output collects frames only once it has an initialisation segment, takes that as written only when it is on disk, and gives a manifest out only then.",
 'inputs histories','every sequence of tags a publisher can send, every path through both segmenters, including failing writes',
 "Tests segment one short H.264 stream; a player may start at any segment, of either codec, after any failure.",
 'libhls/hls.go libdash/dash.go libmpeg/ts.go libmpeg/psi.go',
 [('segment start','openSegment and writePSI in libhls/hls.go'),('packetising loop','Start in libhls/hls.go, NewTs and Mux in libmpeg/ts.go'),('per-frame reset of the packetiser','toPES in libhls/hls.go'),('initialisation segment','handleSequenceHeader, handleHEVCSequenceHeader and Manifest in libdash/dash.go')],
 "typestate analysis of both segmenters over SSA, across calls",'other',
 "What the bytes of a packet, box or table say is not decided here, only which are written when. A frame whose packetising fails ends there, as the code intends.")
P('C21','Nothing incomplete or unparsed is acted upon',
 "When a read from a peer fails, at any byte of any message, the loop that serves that peer ends or goes through its error exit: it neither spins on the dead connection nor acts on what did not arrive. When a message, request, frame or packet does not parse, the server performs no effect on its behalf: it does not publish media, change a room, answer as if it had been understood, or dispatch it.",
 'inputs crash_points','every byte at which a connection can break and every malformed message, on every path from a read or decoder to an effect',
 "Tests decode well-formed messages from memory; the property quantifies over every truncation point and over the path taken after each failure.",
 'librtmp/chunk.go librtmp/rtmp.go librtmp/message.go librtmp/websocket.go librtmp/rtsp_server.go libsrt/listener.go librtsp/message.go libamf/amf.go',
 [('error exits of the receive loops','HandlerServer, HandlerClient in librtmp; servePings in librtmp/websocket.go; rtspSession.run; Listener.Run in libsrt'),('parse before Do','ParseMessage in librtmp/message.go'),('decoders that can fail','all functions returning an error that read from a peer')],
 TS,'other',TN+" A read counts as a read from a peer unless its source provably is memory; a failure is the non-nil error of the call.")
P('C24','Each protocol step is taken only after the one it depends on',
 "No RTMP message is read or sent before the whole handshake: the peer's version was found equal, exactly its 3073 bytes were read, and the part the peer waits for was sent. A pull sends createStream only after the upstream accepted connect and play only after it accepted createStream; only a command's result counts as acceptance, and a refusal (_error, or a status of level error) ends the pull. A WebSocket connection is taken over only when the request's Upgrade, Connection and key headers ask for it. An SRT session is concluded only by the peer that returns the cookie it was sent, for a stream nobody else publishes, and only a concluded session delivers data. RTSP media flows to a player only after SETUP and at most once at a time, is recorded only after ANNOUNCE and SETUP, and over UDP is accepted only from the publisher's address.",
 'inputs histories','every order of messages, requests and datagrams a peer can send, well-formed or not',
 "Tests follow each protocol's ordinary order; the property is about every other order, and about peers that skip, repeat or refuse a step.",
 'librtmp/handshake.go librtmp/rtmp.go librtmp/client.go librtmp/command_message.go librtmp/websocket.go libsrt/listener.go librtmp/rtsp_server.go librtmp/rtsp_ingest.go',
 [('handshakes','HandshakeServer and HandshakeClient in librtmp/handshake.go'),('pacing of a pull','expectResult and runClientCommands in librtmp/client.go, CommandMessage.Do in librtmp/command_message.go'),('upgrade tests','upgradeWebSocket in librtmp/websocket.go'),('cookie and conclusion','handleHandshake and handlePacket in libsrt/listener.go'),('state tests','handlePlay in librtmp/rtsp_server.go, handleRecord and runUDPReader in librtmp/rtsp_ingest.go')],
 "typestate analysis of connections over SSA, across calls, from every goroutine and HTTP handler",'other',
 "What the digests of a complex handshake contain, and whether the peer's own answers are right, is not decided. A server does not refuse a wrong C2, as the code intends. That a datagram's address is compared with the publisher's is recognised by the comparison of the two addresses.")

P('C28','Media times keep their meaning and their unit across every protocol',
 "A frame leaves the server with the times it arrived with. Each protocol is given a time of the kind and in the unit it is defined in: decoding times in milliseconds in RTMP messages and FLV tags, decoding and presentation times on the 90 kHz clock in MPEG-TS, presentation times on the 90 kHz clock in RTP video, samples of the announced rate in RTP audio, the announced timescale in DASH, seconds in HLS playlists. Decoding time, presentation time and the offset between them are never taken for one another, the offset keeps its sign, no conversion wraps or drops a remainder it still needs, and a frame is written with its own times and not with those of the frame before it.",
 'inputs histories','every timestamp, offset, clock rate and order of frames, on every path between protocols',
 "Tests use small timestamps without offsets, for which most wrong conversions agree with the right one.",
 'libhls/hls.go libhls/m3u8.go libhls/align.go libhls/audio_cache.go librtmp/srt_server.go librtmp/rtsp_server.go librtmp/rtsp_ingest.go librtmp/room.go librtmp/message.go librtmp/aggregate_message.go libdash/dash.go libsrt/tsdemux.go librtsp/sdp.go libflv/flv.go',
 [('to MPEG-TS','toPES and Start in libhls/hls.go'),('from MPEG-TS','parsePESHeader and flushVideo in libsrt/tsdemux.go, onVideo and onAudio in librtmp/srt_server.go'),('to and from RTP','sendVideo and sendAudio in librtmp/rtsp_server.go, handleVideoRTP and handleAudioRTP in librtmp/rtsp_ingest.go'),('to playlists and manifests','libhls/m3u8.go, buildMPD and the segment writer in libdash/dash.go'),('messages to tags and back','librtmp/video.go, librtmp/audio.go, librtmp/room.go')],
 "units-of-measure inference (kind, scale, sign and wrap of every time) over SSA, context-sensitive for small helpers; typestate analysis of a frame's times up to its write",'other',
 "Where the bits of a time lie in a header is not decided here, and neither is whether two clocks agree in value (drift, smoothing of audio times, the length of a segment). RTP and PES times wrap as their width demands.")

P('C27','Every descriptor a goroutine opens is closed',
 "Every connection the server accepts, dials or hijacks, every UDP socket it binds for a session and every file it creates is closed on every path on which its owner ends: after a failed handshake, a failed write, a refused SETUP, a second SETUP, a rotation error or a normal end. No sequence of sessions exhausts the descriptors of the process.",
 'histories crash_points','all paths of all goroutines, including every failing call between opening and closing',
 "Tests end sessions cleanly and never count descriptors; the leak needs a failing call at a particular point.",
 'librtmp/server.go librtmp/rtsp_server.go librtmp/client.go librtmp/websocket.go libhls/hls.go libdash/dash.go',
 [('accept and dial','server.Handler, handleRTSP in librtmp/server.go, PullClient.Run'),('UDP pairs','openUDPPair, handleSetup, cleanup in librtmp/rtsp_server.go'),('hijack','upgradeWebSocket in librtmp/websocket.go'),('segment files','openSegment, finaliseCurrent in libhls/hls.go; flushCurrent in libdash/dash.go')],
 TS+' with ownership transfer','other',TN+" Excludes the listening sockets that live as long as the process. Use after close is not covered.")
P('C05','No peer can make the server panic on a nil value, a failed assertion or an explicit panic',
 "Whatever peers send and in whatever order, and whichever file, socket or library call fails: no goroutine of the server dereferences a nil pointer, calls through a nil interface or function, stores into a nil map, closes a nil channel, makes a type assertion that fails, or runs into an explicit panic. A missing or half-initialised value ends one request or one connection, never the process.",
 'inputs histories crash_points','all messages, command orders and failures of calls, over every function the server can reach',
 "A nil value appears only after one unusual order of commands, one failed call or one absent field; tests build complete objects and see calls succeed.",
 'librtmp/rtmp.go librtmp/chunk.go librtmp/message.go librtmp/command_message.go librtmp/rtsp_server.go librtmp/rtsp_ingest.go librtmp/srt_server.go librtmp/server.go libhls/hls.go libdash/dash.go libsrt/listener.go libflv/tag.go libmpeg/ts.go libmp4/box.go',
 [('errors tested before results are used','every call returning a pointer and an error'),('session roles tested before their state is used','handleRecord, handlePlay, streamLoop in librtmp/rtsp_server.go'),('track presence tested before use','emitVideo, emitAudio in librtmp/rtsp_ingest.go'),('segment writer present while writing','openSegment, closeCurrentSegment in libhls/hls.go')],
 "abstract interpretation over SSA: nil-ness of every reference with path facts, type-state of fields, paired-field and constructor invariants, interprocedural on demand",'proof',
 "Proof over an abstraction: every dereference, call, unchecked assertion and explicit panic in the functions the server can reach is an obligation and all are discharged. Functions only an embedding program calls (configuration, never called by the server) are not examined. Trusts go/ssa, the call graph, non-nil results of library calls that return a nil error, and the assumptions the evidence lists (each backed by its own obligations).")
P('C06','No peer can make the server hold unlimited memory',
 "No single allocation made on behalf of a peer exceeds a fixed limit or the data already received, whatever length fields the peer announces. A message, chunk, request line, header block, WebSocket frame, fragmented NAL unit, RTP access unit or PES packet that is begun and never completed is buffered up to a fixed limit; past it the connection or the unit is given up.",
 'inputs histories','all length fields and all sequences of messages, fragments and packets a peer can send, including endless ones',
 "Tests send small complete messages; the property is about announced lengths near the top of their range and about sequences that never end.",
 'librtmp/chunk.go librtmp/message.go librtmp/websocket.go librtsp/message.go librtsp/h264.go librtsp/rtp_unpack.go libsrt/tsdemux.go libamf/amf0.go',
 [('message length field limits','ParseChunk in librtmp/chunk.go, readFrame in librtmp/websocket.go, ReadRequest in librtsp/message.go'),('line and header limits','readLine and ReadRequest in librtsp'),('fragment reassembly limits','H264Reassembler in librtsp, Demuxer in libsrt'),('chunk clamped to what remains of its message','ParseChunk in librtmp/chunk.go')],
 "abstract interpretation over SSA (bounds on every allocation size) plus typestate analysis of accumulating buffers (no extension without a limit test since the last read)",'other',
 "Every make, ReadN, Repeat and Grow of the server and every append that extends a buffer kept between reads is an obligation. Not covered: what many peers hold together (tables keyed by room, session or chunk stream), the GOP cache of Athena, and the output segmenters' samples between two key frames.")

P('C22','Every request is answered once and truthfully',
 "Every RTSP request that is read gets exactly one response carrying the CSeq of that request; every RTMP command that expects an answer is answered with its own transaction id (or the connection ends); every HTTP and WebSocket request gets one status, set before the body, and never an empty 200. An answer that reports success is given only when the lookup, the claim of the stream name and the parsing it depends on succeeded; a refusal is given only when nothing took effect. A successful SETUP, PLAY and RECORD carries the session id, a successful DESCRIBE carries a description and its type, and served media, playlists and segments carry their content type and the cross-origin header.",
 'inputs histories','every path through a request handler of every protocol, with every outcome of the lookups, claims and decodes in it',
 "Tests send the requests that work and a few that do not; the property is about every way a handler can be left, including the rare outcomes (a stream that vanishes between two requests, a name taken meanwhile).",
 'librtmp/rtsp_server.go librtmp/rtsp_ingest.go librtmp/server.go librtmp/websocket.go librtmp/command_message.go',
 [('one response per RTSP request','rtspSession.run and dispatch in librtmp/rtsp_server.go'),('HTTP status and headers','handleHTTPFlv and handleHls in librtmp/server.go'),('RTMP command answers','CommandMessage.Do in librtmp/command_message.go')],
 "typestate analysis of requests, lookups, effects and answers over SSA, across calls",'other',
 "The outcomes of lookups, claims and decodes are branched on as the code tests them. Not covered: the text of the answers beyond status, CSeq, session, content type and cross-origin header; requests on a connection that fails while the answer is written.")

P('C18','A joining player can decode at once and misses nothing',
 "Every publishing path (RTMP, pull, RTSP, SRT) keeps the video and audio sequence headers and the metadata of its stream for later players and passes them on to present ones; a key frame, and nothing else, restarts the cached group of pictures, before it is stored; every media message of a publisher is passed on exactly once. An RTMP, HTTP-FLV or WebSocket player is sent every header that is kept before the first media packet, and every packet read for it is sent to it exactly once.",
 'inputs histories','every message kind a publisher can send and every combination of kept headers a player can meet',
 "Tests join one player to one publisher; the property is about every kind of message on every publishing path and every combination of headers.",
 'librtmp/room.go librtmp/video.go librtmp/audio.go librtmp/data_message.go librtmp/rtsp_ingest.go librtmp/srt_server.go librtmp/client.go librtmp/websocket.go',
 [('kept headers','setVideoSequenceHeader, setAudioSequenceHeader and metadata in librtmp/room.go'),('restart of the cached group','VideoMessage.Do in librtmp/video.go, handleVideoRTP in librtmp/rtsp_ingest.go, onVideo in librtmp/srt_server.go'),('what a player is sent first','RTMPJoin and FLVJoin in librtmp/room.go')],
 "typestate analysis of publishing and joining paths over SSA, across calls",'other',
 "Delivery from the broadcast to the reader is Athena's and assumed (it delivers nothing before three headers were written). An RTSP player's packets are not counted. Whether a frame is a key frame is taken from the tag the code tests.")
P('C26','Packets are numbered without gaps or repeats and taken in order, each on its own track',
 "Every RTP packet a player is sent carries the track's sequence number, which rises by exactly one per packet; a packet that took a number is sent exactly once, on the channel, socket and address of its own track, and what arrives on a publisher's track becomes media of that track. A NAL unit is put together from RTP fragments only when each follows the one before it. An SRT payload is delivered at most once and in sequence order, a gap is reported from the first to the last missing packet, the acknowledged number is the next one expected, sequence numbers wrap at 31 bits, and a repeated handshake packet changes nothing. Every MPEG-TS packet carries the continuity counter of its PID, which rises by one modulo 16 and starts over only in a new segment.",
 'inputs histories','every sequence of packets, losses, repetitions and reorderings, at every position of the number space including its wrap',
 "Tests send a few packets in order from small numbers; gaps, repeats and wraps need a history, and two tracks need to run side by side.",
 'librtsp/rtp.go librtsp/rtp_unpack.go librtmp/rtsp_server.go librtmp/rtsp_ingest.go libsrt/listener.go libsrt/control.go libmpeg/ts.go libhls/hls.go',
 [('RTP numbering','RTPPacker.Pack in librtsp/rtp.go'),('sending on a track','sendVideo, sendAudio and writeInterleaved in librtmp/rtsp_server.go'),('reassembly','H264Reassembler.Push in librtsp/rtp_unpack.go'),('receiver state','handleDataPacket, handleHandshake and maybeSendACK in libsrt/listener.go, SeqDiff in libsrt/control.go'),('continuity counters','NewTs in libmpeg/ts.go, openSegment in libhls/hls.go')],
 "typestate analysis over SSA with terms for the sequence numbers and the comparison classes of their distance; interval analysis of the distance itself",'other',
 "Whether the payload placed in a packet is right is not decided. Packets lost on the way to a player are the network's. The tracks are told apart by the session fields of each (video…, audio…).")

P('C29','Headers and boxes are laid out and read bit for bit as their formats define',
 "Every RTMP chunk and control message, FLV tag, MPEG-TS packet, adaptation field, table and PES header, ADTS header, RTP packet and payload (single, fragmented, aggregated, AAC), interleaved frame, WebSocket frame, SRT packet and fragmented-MP4 box is written with each field at its place, in its width and byte order, with the constants and lengths its specification demands, for every value the fields can take, and what is read of such a header is each field's own bits. Length, size, offset and count fields say what follows; optional parts are present exactly when their flags or ranges (an extended timestamp, a long length, a chunk stream id above 63, stuffing, a presentation time of its own) call for them; the media itself is carried unchanged between them.",
 'inputs','every value of every field of every format, case by case of the format',
 "Tests round-trip a few headers with small values; a wrong shift, mask or byte order agrees with the right one for those, and a writer and a reader that share a mistake agree for all.",
 'librtmp/chunk.go librtmp/control_message.go librtmp/websocket.go librtmp/rtsp_ingest.go libflv/tag.go libflv/flv.go libmpeg/ts.go libmpeg/pes.go libmpeg/psi.go libaac/aac.go librtsp/rtp.go librtsp/rtp_unpack.go librtsp/h264.go librtsp/hevc.go librtsp/aac.go libsrt/packet.go libsrt/handshake.go libsrt/control.go libsrt/tsdemux.go libmp4/box.go libmp4/init_segment.go libmp4/init_segment_hevc.go libmp4/media_segment.go',
 [('RTMP','ParseChunk and Chunk.Send in librtmp/chunk.go'),('FLV','Marshal, ParseVideoTag and ParseAudioTag in libflv'),('MPEG-TS and PES','TS.Mux, AdaptationField.Marshal and PES.Marshal in libmpeg'),('RTP','RTPPacker.Pack, PackNAL, PackHEVCNAL, PackAACFrame, ParseRTP in librtsp'),('SRT','Marshal and Parse functions in libsrt'),('fragmented MP4','BuildInitSegment, BuildHEVCInitSegment, BuildMediaSegment in libmp4')],
 "bit-provenance dataflow analysis over SSA: abstract interpretation in which every bit written or read is a constant or a named bit of an input field, with trace partitioning by the cases of the format",'other',
 "Each format is cut into the cases its specification distinguishes; within a case all values are covered. Lists are examined for the lengths of the cases (one and two samples, given numbers of fragments). A case the interpretation cannot follow after a rewrite is reported in the evidence as not decided, never as a violation. AMF values, the digests of the RTMP handshake and the key material of SRT are not covered.")

P('C30','RTMP messages are cut into chunks and put together again exactly',
 "Every RTMP message the server sends, command, media or metadata, is written as chunks of one chunk stream: the first announces the whole length, its type and its time, each further one continues it, none carries more than the chunk size in force, and their payloads, joined in order, are the message. What a peer sends is put together the same way, whatever the chunk size it chose and however the chunks of several messages are interleaved: a message is complete exactly when all its bytes have arrived, is handled exactly once as what its type says with its own time, leaves nothing behind, and takes no byte of the next; a message whose chunks are still arriving is kept, and given up when the peer aborts it. The tags of an aggregate message are each handled once, in order, with their own bytes and their time moved to the time of the aggregate.",
 'inputs histories','every content of a message, in the cases of its length against the chunk size, of its timestamp and of the interleaving of chunk streams',
 "Tests use messages shorter than a chunk, small timestamps and one message at a time; the cuts, the extended timestamps of later chunks and interleaved messages are exactly what they leave out.",
 'librtmp/chunk.go librtmp/message.go librtmp/video.go librtmp/audio.go librtmp/data_message.go librtmp/command_message.go librtmp/client.go librtmp/control_message.go librtmp/aggregate_message.go',
 [('cutting','Send of VideoMessage, AudioMessage, DataMessage and CommandMessageResponse, sendCommandRaw in librtmp/client.go'),('putting together','ParseMessage in librtmp/message.go, ParseChunk in librtmp/chunk.go'),('chunk size and abort','SetChunkSizeMessage.Do and AbortMessage.Do in librtmp/control_message.go'),('aggregates','AggregateMessage.Do in librtmp/aggregate_message.go')],
 "bit-provenance dataflow analysis over SSA with trace partitioning: the chunk stream written or read, and every message handed on, as pieces of the input, compared with the protocol",'other',
 "Contents, times and ids are symbolic; lengths and chunk sizes are taken at and around the multiples of the chunk size (1 to 4097 bytes), and interleavings of up to three chunk streams. A case the interpretation cannot follow after a rewrite is reported in the evidence as not decided, never as a violation. Window acknowledgements are not covered.")
P('C31','The digests of the complex handshake and the key material of SRT are numerically right',
 "The HMAC digests a client checks in S1 and S2, and the wrapped keys and decrypted payloads of an encrypted SRT stream, have the values their algorithms define, for every key and every random handshake.",
 'inputs','every key, salt and random block',
 "Tests check a few vectors.",
 'librtmp/handshake.go libsrt/crypto.go',
 [('digests','librtmp/handshake.go'),('key unwrapping and decryption','libsrt/crypto.go')],
 "none",'other',"",na="The values are those of SHA-256, AES key wrap and AES-CTR over symbolic keys; no static argument in reach relates such a computation to its definition. Which bytes are compared and when is covered by C24, the layout of the packets by C29.")
P('C32','Every AMF value that is encoded decodes to the same value',
 "Whatever numbers, strings, objects and arrays the server encodes, a conforming decoder reads the same value back, and what the server decodes is what the peer encoded, to any depth.",
 'inputs','every value of every type, nested to any depth',
 "Tests round-trip a few objects.",
 'libamf/amf.go libamf/amf0.go',
 [('encoding and decoding','libamf/amf0.go')],
 "none",'other',"",na="Encoding goes through reflection over run-time types and recurses over unbounded structures; equality of the decoded value is a property of run-time values that the analyses here cannot bound. That decoding neither panics, over-allocates nor recurses without limit is covered by C01 to C06.")
P('C33','Playlists and manifests announce durations that are the durations of the media',
 "No segment is longer than the target duration announced, parts of a low-latency playlist arrive within the hold-back announced, and the sum of announced durations follows the clock of the stream.",
 'histories schedules','every spacing of key frames and every schedule of segment writers and readers',
 "Tests cut a few synthetic segments.",
 'libhls/hls.go libhls/m3u8.go libdash/dash.go',
 [('cutting','Start in libhls/hls.go'),('announcing','libhls/m3u8.go, buildMPD in libdash/dash.go')],
 "none",'other',"",na="Where segments end depends on the distance of the publisher's key frames and on the wall clock; both are run-time quantities without static bound. The units of every announced duration are covered by C28, the order of writing and listing by C16.")
P('C34','A slow or stalled player delays nobody else',
 "Media reaches every other player in time whatever one player, one segment writer or one upstream does.",
 'schedules','every speed of every reader and every schedule of the goroutines',
 "Tests run one player.",
 'librtmp/room.go librtmp/server.go',
 [('distribution','RTMPJoin and FLVJoin in librtmp/room.go')],
 "none",'other',"",na="Throughput and fairness are quantities of a running system (scheduler, sockets, the broadcast of Athena, which is outside the repository). What static analysis can decide of it, that no lock is held across a blocking call and that waits have wakers, is C12 and C15.")
P('C35','A frame that changes its container keeps its NAL units and AAC frames',
 "Whichever way a stream comes in and goes out, each frame carries the same media: in a transport stream the data of a packet is the access unit delimiter, the parameter sets in front of an IDR slice (those of the access unit, else the stored ones) and every slice and SEI behind a start code, and six AAC frames behind their ADTS headers; in RTP every NAL unit goes out whole or in fragments that join to it, in order, with the marker on the last packet of the frame only; a DASH sample is the frame with its size, duration, composition offset and key flag. What arrives by SRT or RTSP becomes one FLV tag with every NAL unit behind its length, parameter sets and AAC configuration first, and the key-frame flag set exactly for frames with an IDR slice.",
 'inputs histories','every frame: every number, size and content of its NAL units and AAC frames, every container it comes from and goes to',
 "Tests convert a few frames and look at a few bytes.",
 'libavc/avc.go libhls/hls.go libhls/audio_cache.go librtmp/srt_server.go librtmp/rtsp_server.go librtmp/rtsp_ingest.go libdash/dash.go librtsp/rtp_unpack.go librtsp/h264.go librtsp/hevc.go librtsp/aac.go',
 [('Annex B and PES data','GetAnnexbH264 in libavc/avc.go, toPES and avccToAnnexB in libhls/hls.go'),('frames from SRT','onVideo, onAudio and splitAnnexB in librtmp/srt_server.go'),('frames to RTP','sendVideo, sendVideoSeqHeader and sendAudio in librtmp/rtsp_server.go'),('frames from RTP','handleVideoRTP and handleAudioRTP in librtmp/rtsp_ingest.go'),('samples','Start and flushCurrent in libdash/dash.go')],
 "bit-provenance dataflow analysis over SSA with trace partitioning: every byte of a converted frame traced to the byte of the input it is a copy of, and compared with what the two containers demand",'other',
 "Contents are symbolic; the number, kinds and sizes of NAL units are taken from a list of cases (one to five units of 1 to 3000 bytes). NAL types other than slices, SEI, parameter sets and delimiters are not covered, nor ADTS headers with a CRC. A case the interpretation cannot follow after a rewrite is reported in the evidence as not decided, never as a violation.")
