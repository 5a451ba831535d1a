package main

// Written by ggverif -fields.
var baseFields = map[string][][2]string{
	"libaac.AACHeader":                     {{"ObjectType", "uint8"}, {"SampleRate", "uint8"}, {"Channel", "uint8"}},
	"libamf.pair":                          {{"key", "string"}, {"value", "interface{}"}},
	"libavc.Parser":                        {{"SpecificInfo", "[]byte"}, {"Pps", "*bytes.Buffer"}},
	"libavc.sequenceHeader":                {{"configVersion", "byte"}, {"avcProfileIndication", "byte"}, {"profileCompatility", "byte"}, {"avcLevelIndication", "byte"}, {"reserved1", "byte"}, {"naluLen", "byte"}, {"reserved2", "byte"}, {"spsNum", "byte"}, {"ppsNum", "byte"}, {"spsLen", "int"}, {"ppsLen", "int"}},
	"libdash.DASH":                         {{"streamID", "string"}, {"dir", "string"}, {"targetDur", "time.Duration"}, {"windowSize", "int"}, {"timescale", "uint32"}, {"mu", "sync.Mutex"}, {"cond", "*sync.Cond"}, {"codec", "string"}, {"isHEVC", "bool"}, {"sps", "[]byte"}, {"pps", "[]byte"}, {"hvccRecord", "[]byte"}, {"width", "uint16"}, {"height", "uint16"}, {"initBytes", "[]byte"}, {"initWritten", "bool"}, {"segments", "[]github.com/sbraveyoung/GGmpeg/libdash.segmentInfo"}, {"nextSeq", "int"}, {"currentSamples", "[]github.com/sbraveyoung/GGmpeg/libdash.sampleWithTime"}, {"availabilityStart", "time.Time"}, {"ready", "chan struct{}"}, {"readyOnce", "sync.Once"}, {"stopped", "int32"}},
	"libdash.bitReader":                    {{"buf", "[]byte"}, {"pos", "int"}},
	"libdash.manifestInputs":               {{"streamID", "string"}, {"availabilityStart", "time.Time"}, {"timescale", "uint32"}, {"targetDur", "time.Duration"}, {"width", "uint16"}, {"height", "uint16"}, {"codecStr", "string"}, {"segments", "[]github.com/sbraveyoung/GGmpeg/libdash.segmentInfo"}},
	"libdash.sampleWithTime":               {{"dts", "uint64"}, {"cts", "int32"}, {"data", "[]byte"}, {"key", "bool"}},
	"libdash.segmentInfo":                  {{"seq", "int"}, {"filename", "string"}, {"startTime", "uint64"}, {"duration", "uint64"}},
	"libflv.AudioTag":                      {{"TagBase", "github.com/sbraveyoung/GGmpeg/libflv.TagBase"}, {"SoundFormat", "uint8"}, {"SoundRate", "uint8"}, {"SoundSize", "uint8"}, {"SoundType", "uint8"}, {"SoundData", "[]byte"}, {"AACPacketType", "uint8"}},
	"libflv.FLV":                           {{"FLVHeader", "github.com/sbraveyoung/GGmpeg/libflv.FLVHeader"}, {"writer", "github.com/SmartBrave/Athena/easyio.EasyWriter"}},
	"libflv.FLVHeader":                     {{"Version", "int8"}, {"TypeFlagsAudio", "bool"}, {"TypeFlagsVideo", "bool"}},
	"libflv.MetaTag":                       {{"TagBase", "github.com/sbraveyoung/GGmpeg/libflv.TagBase"}, {"FirstField", "string"}, {"SecondField", "string"}, {"AudioChannels", "string"}, {"AudioCodecID", "float64"}, {"AudioDataRate", "int"}, {"AudioSampleRate", "int"}, {"AudioSampleSize", "int"}, {"Author", "string"}, {"Company", "string"}, {"DisplayHeight", "string"}, {"DisplayWidth", "string"}, {"Duration", "int"}, {"Encoder", "string"}, {"FileSize", "int"}, {"Fps", "string"}, {"FrameRate", "int"}, {"Height", "int"}, {"Level", "string"}, {"Profile", "string"}, {"Stereo", "bool"}, {"Version", "string"}, {"VideoCodecID", "float64"}, {"VideoDataRate", "float64"}, {"Width", "int"}},
	"libflv.TagBase":                       {{"TagType", "uint8"}, {"DataSize", "uint32"}, {"TimeStamp", "uint32"}, {"StreamID", "uint32"}},
	"libflv.VideoTag":                      {{"TagBase", "github.com/sbraveyoung/GGmpeg/libflv.TagBase"}, {"FrameType", "uint8"}, {"CodecID", "uint8"}, {"VideoData", "[]byte"}, {"AVCPacketType", "uint8"}, {"Cts", "uint32"}},
	"libhls.HLS":                           {{"Version", "int"}, {"streamID", "string"}, {"dir", "string"}, {"targetDur", "time.Duration"}, {"windowSize", "int"}, {"llEnabled", "bool"}, {"partTargetDur", "time.Duration"}, {"Pat", "*github.com/sbraveyoung/GGmpeg/libmpeg.PAT"}, {"Cc", "map[uint16]uint8"}, {"Ah", "*github.com/sbraveyoung/GGmpeg/libaac.AACHeader"}, {"AvcParser", "*github.com/sbraveyoung/GGmpeg/libavc.Parser"}, {"audioCache", "*github.com/sbraveyoung/GGmpeg/libhls.audioCache"}, {"align", "*github.com/sbraveyoung/GGmpeg/libhls.align"}, {"currentFile", "*os.File"}, {"currentWriter", "github.com/SmartBrave/Athena/easyio.EasyWriter"}, {"currentStartDTS", "uint64"}, {"currentEndDTS", "uint64"}, {"partStartDTS", "uint64"}, {"partStartOffset", "int64"}, {"currentBytes", "int64"}, {"lastPSI", "time.Time"}, {"mu", "sync.Mutex"}, {"cond", "*sync.Cond"}, {"segments", "[]github.com/sbraveyoung/GGmpeg/libhls.segmentInfo"}, {"nextSeq", "int"}, {"currentParts", "[]github.com/sbraveyoung/GGmpeg/libhls.partInfo"}, {"currentSegName", "string"}, {"ready", "chan struct{}"}, {"readyOnce", "sync.Once"}, {"stopped", "int32"}},
	"libhls.align":                         {{"frameNum", "uint64"}, {"frameBase", "uint64"}},
	"libhls.audioCache":                    {{"soundFormat", "byte"}, {"num", "byte"}, {"offset", "int"}, {"pts", "uint64"}, {"buf", "*bytes.Buffer"}},
	"libhls.countingWriter":                {{"w", "io.Writer"}, {"n", "*int64"}},
	"libhls.partInfo":                      {{"duration", "float64"}, {"independent", "bool"}, {"byteOffset", "int64"}, {"byteLength", "int64"}},
	"libhls.playlistInputs":                {{"segments", "[]github.com/sbraveyoung/GGmpeg/libhls.segmentInfo"}, {"nextSeq", "int"}, {"currentParts", "[]github.com/sbraveyoung/GGmpeg/libhls.partInfo"}, {"currentName", "string"}, {"partTargetDur", "time.Duration"}},
	"libhls.segmentInfo":                   {{"filename", "string"}, {"seq", "int"}, {"duration", "float64"}, {"startDTS", "uint64"}, {"parts", "[]github.com/sbraveyoung/GGmpeg/libhls.partInfo"}},
	"libmp4.Box":                           {{"Type", "[4]byte"}, {"Body", "[]byte"}},
	"libmp4.HEVCInitParams":                {{"TrackID", "uint32"}, {"Timescale", "uint32"}, {"Width", "uint16"}, {"Height", "uint16"}, {"HVCCRecord", "[]byte"}},
	"libmp4.InitSegmentParams":             {{"TrackID", "uint32"}, {"Timescale", "uint32"}, {"Width", "uint16"}, {"Height", "uint16"}, {"SPS", "[]byte"}, {"PPS", "[]byte"}},
	"libmp4.MediaSegmentParams":            {{"TrackID", "uint32"}, {"SequenceNumber", "uint32"}, {"BaseDecodeTime", "uint64"}, {"Samples", "[]github.com/sbraveyoung/GGmpeg/libmp4.Sample"}},
	"libmp4.Sample":                        {{"Duration", "uint32"}, {"Size", "uint32"}, {"IsKey", "bool"}, {"CompositionTimeOffset", "int32"}, {"Data", "[]byte"}},
	"libmpeg.AdaptationField":              {{"AdaptationFieldLength", "uint8"}, {"DiscontinuityIndicator", "uint8"}, {"RandomAccessIndicator", "uint8"}, {"ElementaryStreamPriority", "uint8"}, {"PCRFlag", "uint8"}, {"OPCRFlag", "uint8"}, {"SplicingPointFlag", "uint8"}, {"TransportPrivateDataFlag", "uint8"}, {"AdaptationFieldExtensionFlag", "uint8"}, {"ProgramClockReferenceBase", "uint64"}, {"ProgramClockReferenceExtension", "uint16"}, {"OriginalProgramClockReferenceBase", "uint64"}, {"OriginalProgramClockReferenceExtension", "uint16"}, {"SpliceCountdown", "int8"}, {"TransportPrivateDataLength", "uint8"}, {"TransportPrivateData", "[]byte"}, {"AdaptationFieldExtensionLength", "uint8"}, {"LTWFlag", "uint8"}, {"PiecewiseRateFlag", "uint8"}, {"SeamlessSpliceFlag", "uint8"}, {"LTWValidFlag", "uint8"}, {"LTWOffset", "uint16"}, {"PiecewiseRate", "uint32"}, {"SpliceType", "uint8"}, {"DTSNextAccessUnit", "uint64"}},
	"libmpeg.PAT":                          {{"TableID", "uint8"}, {"SectionSyntaxIndicator", "uint8"}, {"SectionLength", "uint16"}, {"TransportStreamID", "uint16"}, {"VersionNumber", "uint8"}, {"CurrentNextIndicator", "uint8"}, {"SectionNumber", "uint8"}, {"LastSectionNumber", "uint8"}, {"PMTs", "map[uint16]*github.com/sbraveyoung/GGmpeg/libmpeg.PMT"}, {"CRC32", "uint32"}},
	"libmpeg.PES":                          {{"PacketStartCodePrefix", "uint32"}, {"StreamID", "uint8"}, {"StreamType", "uint8"}, {"PESPacketLength", "uint16"}, {"PESScramblingControl", "uint8"}, {"PESPriority", "uint8"}, {"DataAlignmentIndicator", "uint8"}, {"Copyright", "uint8"}, {"OriginalORCopy", "uint8"}, {"PTS_DTSFlag", "uint8"}, {"ESCRFlag", "uint8"}, {"ESRateFlag", "uint8"}, {"DSMTrickModeFlag", "uint8"}, {"AdditionalCopyInfoFlag", "uint8"}, {"PESCRCFlag", "uint8"}, {"PESExtensionFlag", "uint8"}, {"PESHeaderDataLength", "uint8"}, {"PTS", "uint64"}, {"DTS", "uint64"}, {"ESCRBase", "uint64"}, {"ESCRExtension", "uint16"}, {"ESRate", "uint32"}, {"Data", "[]byte"}, {"Index", "int"}, {"HeaderData", "[]byte"}, {"HeaderIndex", "int"}},
	"libmpeg.PMT":                          {{"TableID", "uint8"}, {"SectionSyntaxIndicator", "uint8"}, {"SectionLength", "uint16"}, {"ProgramNumber", "uint16"}, {"VersionNumber", "uint8"}, {"CurrentNextIndicator", "uint8"}, {"SectionNumber", "uint8"}, {"LastSectionNumber", "uint8"}, {"PCR_PID", "uint16"}, {"ProgramInfoLength", "uint16"}, {"Streams", "map[uint16]*github.com/sbraveyoung/GGmpeg/libmpeg.PES"}, {"CRC32", "uint32"}},
	"libmpeg.TS":                           {{"SyncByte", "byte"}, {"TransportErrorIndicator", "uint8"}, {"PayloadUnitStartIndicator", "uint8"}, {"TransportPriority", "uint8"}, {"PID", "uint16"}, {"TransportScramblingControl", "byte"}, {"AdaptationFieldExist", "byte"}, {"ContinuityCounter", "byte"}, {"AdaptationField", "*github.com/sbraveyoung/GGmpeg/libmpeg.AdaptationField"}, {"PayloadPointer", "uint8"}},
	"librtmp.AbortMessage":                 {{"MessageBase", "github.com/sbraveyoung/GGmpeg/librtmp.MessageBase"}, {"ChunkStreamID", "uint32"}},
	"librtmp.AcknowledgeMessage":           {{"MessageBase", "github.com/sbraveyoung/GGmpeg/librtmp.MessageBase"}, {"SequenceNumber", "uint32"}},
	"librtmp.AggregateMessage":             {{"MessageBase", "github.com/sbraveyoung/GGmpeg/librtmp.MessageBase"}},
	"librtmp.App":                          {{"appName", "string"}, {"rooms", "*sync.Map"}, {"hlsMode", "github.com/sbraveyoung/GGmpeg/libhls.HLS_MODE"}, {"hlsDir", "string"}, {"hls", "*sync.Map"}, {"dashEnabled", "bool"}, {"dashDir", "string"}, {"dash", "*sync.Map"}, {"segMu", "sync.Mutex"}},
	"librtmp.AudioMessage":                 {{"MessageBase", "github.com/sbraveyoung/GGmpeg/librtmp.MessageBase"}, {"audioTag", "*github.com/sbraveyoung/GGmpeg/libflv.AudioTag"}},
	"librtmp.Chunk":                        {{"ChunkBasicHeader", "github.com/sbraveyoung/GGmpeg/librtmp.ChunkBasicHeader"}, {"ChunkMessageHeader", "github.com/sbraveyoung/GGmpeg/librtmp.ChunkMessageHeader"}, {"Payload", "[]byte"}},
	"librtmp.ChunkBasicHeader":             {{"Fmt", "github.com/sbraveyoung/GGmpeg/librtmp.MessageHeaderType"}, {"CsID", "uint32"}},
	"librtmp.ChunkMessageHeader":           {{"MessageTimeStamp", "uint32"}, {"MessageTimeDelta", "uint32"}, {"MessageLength", "uint32"}, {"MessageType", "github.com/sbraveyoung/GGmpeg/librtmp.MessageType"}, {"MessageStreamID", "uint32"}, {"ExtendedTimestamp", "bool"}},
	"librtmp.CommandMessage":               {{"MessageBase", "github.com/sbraveyoung/GGmpeg/librtmp.MessageBase"}, {"CommandName", "string"}, {"TranscationID", "int"}, {"CommandObject", "github.com/sbraveyoung/GGmpeg/librtmp.ConnectReqCommandObject"}, {"PublishingName", "string"}, {"PublishingType", "string"}, {"StreamName", "string"}, {"Start", "float64"}, {"Duration", "float64"}, {"Reset", "bool"}, {"PauseFlag", "bool"}, {"MilliSeconds", "float64"}, {"BoolFlag", "bool"}, {"StatusLevel", "string"}, {"StatusCode", "string"}},
	"librtmp.CommandMessageResponse":       {{"MessageBase", "github.com/sbraveyoung/GGmpeg/librtmp.MessageBase"}, {"CommandName", "string"}, {"CommandRespName", "string"}, {"TranscationID", "int"}, {"CommandObject", "github.com/sbraveyoung/GGmpeg/librtmp.ConnectRespCommandObject"}, {"StreamID", "uint32"}, {"NullValue", "bool"}},
	"librtmp.ConnectReqCommandObject":      {{"App", "string"}, {"FlashVer", "string"}, {"SwfURL", "string"}, {"TcURL", "string"}, {"Fpad", "bool"}, {"AudioCodecs", "github.com/sbraveyoung/GGmpeg/librtmp.AudioCodec"}, {"VideoCodecs", "github.com/sbraveyoung/GGmpeg/librtmp.VideoCodec"}, {"VideoFunction", "github.com/sbraveyoung/GGmpeg/librtmp.VideoFunction"}, {"PageURL", "string"}, {"ObjectEncoding", "float64"}, {"Type", "string"}, {"Capabilities", "float64"}},
	"librtmp.ConnectRespCommandObject":     {{"FmsVer", "string"}, {"Level", "string"}, {"Code", "string"}, {"Description", "string"}, {"Capabilities", "float64"}, {"ObjectEncoding", "float64"}},
	"librtmp.DataMessage":                  {{"MessageBase", "github.com/sbraveyoung/GGmpeg/librtmp.MessageBase"}, {"metaTag", "*github.com/sbraveyoung/GGmpeg/libflv.MetaTag"}},
	"librtmp.DiscardMessage":               {{"MessageBase", "github.com/sbraveyoung/GGmpeg/librtmp.MessageBase"}},
	"librtmp.MessageBase":                  {{"rtmp", "*github.com/sbraveyoung/GGmpeg/librtmp.RTMP"}, {"messageTime", "uint32"}, {"messageLength", "uint32"}, {"messageType", "github.com/sbraveyoung/GGmpeg/librtmp.MessageType"}, {"messageStreamID", "uint32"}, {"amf", "github.com/sbraveyoung/GGmpeg/libamf.AMF"}, {"messagePayload", "[]byte"}},
	"librtmp.Peer":                         {{"handshakeMode", "github.com/sbraveyoung/GGmpeg/librtmp.HandshakeMode"}, {"clientVersion", "uint8"}, {"serverVersion", "uint8"}, {"clientTimeStamp", "uint32"}, {"serverTimeStamp", "uint32"}, {"clientZero", "uint32"}, {"serverZero", "uint32"}, {"clientRandom", "[]byte"}, {"serverRandom", "[]byte"}, {"clientDigest", "[]byte"}, {"serverDigest", "[]byte"}, {"clientKey", "[]byte"}, {"serverKey", "[]byte"}},
	"librtmp.PullClient":                   {{"spec", "github.com/sbraveyoung/GGmpeg/librtmp.pullSpec"}, {"server", "*github.com/sbraveyoung/GGmpeg/librtmp.server"}},
	"librtmp.RTMP":                         {{"readerConn", "github.com/SmartBrave/Athena/easyio.EasyReader"}, {"writerConn", "github.com/SmartBrave/Athena/easyio.EasyWriter"}, {"lastChunk", "map[uint32]*github.com/sbraveyoung/GGmpeg/librtmp.Chunk"}, {"partial", "map[uint32]github.com/sbraveyoung/GGmpeg/librtmp.Message"}, {"peerMaxChunkSize", "uint32"}, {"ownMaxChunkSize", "int"}, {"peer", "string"}, {"app", "string"}, {"room", "*github.com/sbraveyoung/GGmpeg/librtmp.Room"}, {"server", "*github.com/sbraveyoung/GGmpeg/librtmp.server"}, {"playType", "string"}, {"role", "github.com/sbraveyoung/GGmpeg/librtmp.connRole"}, {"peerWindowAckSize", "uint32"}, {"peerBandwidth", "uint32"}, {"peerBandwidthLimit", "github.com/sbraveyoung/GGmpeg/librtmp.LimitType"}, {"ownWindowAckSize", "uint32"}, {"bytesReceived", "uint32"}, {"lastAcked", "uint32"}, {"connectApp", "string"}, {"tcURL", "string"}, {"resultCount", "uint32"}},
	"librtmp.Room":                         {{"RoomID", "string"}, {"Publisher", "*github.com/sbraveyoung/GGmpeg/librtmp.RTMP"}, {"GOP", "*github.com/SmartBrave/Athena/broadcast.Broadcast"}, {"mu", "sync.RWMutex"}, {"videoSeqHdr", "*github.com/sbraveyoung/GGmpeg/libflv.VideoTag"}, {"audioSeqHdr", "*github.com/sbraveyoung/GGmpeg/libflv.AudioTag"}, {"metaTag", "*github.com/sbraveyoung/GGmpeg/libflv.MetaTag"}, {"closed", "bool"}},
	"librtmp.SetChunkSizeMessage":          {{"MessageBase", "github.com/sbraveyoung/GGmpeg/librtmp.MessageBase"}, {"NewChunkSize", "uint32"}},
	"librtmp.SetPeerBandWidthMessage":      {{"MessageBase", "github.com/sbraveyoung/GGmpeg/librtmp.MessageBase"}, {"AcknowledgementWindowSize", "uint32"}, {"LimitType", "github.com/sbraveyoung/GGmpeg/librtmp.LimitType"}},
	"librtmp.UserControlMessage":           {{"MessageBase", "github.com/sbraveyoung/GGmpeg/librtmp.MessageBase"}, {"EventType", "github.com/sbraveyoung/GGmpeg/librtmp.EventType"}, {"EventData", "[]byte"}},
	"librtmp.VideoMessage":                 {{"MessageBase", "github.com/sbraveyoung/GGmpeg/librtmp.MessageBase"}, {"videoTag", "*github.com/sbraveyoung/GGmpeg/libflv.VideoTag"}},
	"librtmp.WindowAcknowledgeSizeMessage": {{"MessageBase", "github.com/sbraveyoung/GGmpeg/librtmp.MessageBase"}, {"AcknowledgementWindowSize", "uint32"}},
	"librtmp.flushingWriter":               {{"w", "net/http.ResponseWriter"}, {"f", "net/http.Flusher"}},
	"librtmp.pullSpec":                     {{"remoteURL", "string"}, {"app", "string"}, {"streamID", "string"}},
	"librtmp.rtspIngest":                   {{"room", "*github.com/sbraveyoung/GGmpeg/librtmp.Room"}, {"parsed", "*github.com/sbraveyoung/GGmpeg/librtsp.ParsedSDP"}, {"videoCh", "int"}, {"audioCh", "int"}, {"videoRA", "*github.com/sbraveyoung/GGmpeg/librtsp.H264Reassembler"}},
	"librtmp.rtspSession":                  {{"conn", "net.Conn"}, {"br", "*bufio.Reader"}, {"server", "*github.com/sbraveyoung/GGmpeg/librtmp.server"}, {"sessionID", "string"}, {"app", "string"}, {"streamID", "string"}, {"playing", "int32"}, {"recording", "int32"}, {"wmu", "sync.Mutex"}, {"videoChan", "int"}, {"audioChan", "int"}, {"videoSSRC", "uint32"}, {"audioSSRC", "uint32"}, {"videoRTP", "*github.com/sbraveyoung/GGmpeg/librtsp.RTPPacker"}, {"audioRTP", "*github.com/sbraveyoung/GGmpeg/librtsp.RTPPacker"}, {"videoUDP", "*net.UDPConn"}, {"audioUDP", "*net.UDPConn"}, {"videoUDPRTCP", "*net.UDPConn"}, {"audioUDPRTCP", "*net.UDPConn"}, {"peerVideoRTP", "*net.UDPAddr"}, {"peerAudioRTP", "*net.UDPAddr"}, {"ingest", "*github.com/sbraveyoung/GGmpeg/librtmp.rtspIngest"}, {"publishRTMP", "*github.com/sbraveyoung/GGmpeg/librtmp.RTMP"}},
	"librtmp.server":                       {{"rtmpAddress", "string"}, {"flvAddress", "string"}, {"hlsAddress", "string"}, {"rtspAddress", "string"}, {"apps", "map[string]*github.com/sbraveyoung/GGmpeg/librtmp.App"}, {"pulls", "[]github.com/sbraveyoung/GGmpeg/librtmp.pullSpec"}, {"srtSpecs", "[]github.com/sbraveyoung/GGmpeg/librtmp.srtSpec"}},
	"librtmp.srtBridge":                    {{"spec", "github.com/sbraveyoung/GGmpeg/librtmp.srtSpec"}, {"server", "*github.com/sbraveyoung/GGmpeg/librtmp.server"}, {"mu", "sync.Mutex"}, {"room", "*github.com/sbraveyoung/GGmpeg/librtmp.Room"}, {"demux", "*github.com/sbraveyoung/GGmpeg/libsrt.Demuxer"}, {"emittedVideoSeqHdr", "bool"}, {"emittedAudioSeqHdr", "bool"}, {"cachedSPS", "[]byte"}, {"cachedPPS", "[]byte"}},
	"librtmp.srtSpec":                      {{"address", "string"}, {"app", "string"}, {"streamID", "string"}},
	"librtmp.wsConn":                       {{"conn", "net.Conn"}, {"br", "*bufio.Reader"}, {"wmu", "sync.Mutex"}},
	"librtmp.wsWriter":                     {{"ws", "*github.com/sbraveyoung/GGmpeg/librtmp.wsConn"}},
	"librtsp.H264Reassembler":              {{"fuBuf", "[]byte"}, {"fuSeq", "uint16"}, {"pending", "[][]byte"}, {"pendingTS", "uint32"}, {"size", "int"}},
	"librtsp.ParsedSDP":                    {{"HasVideo", "bool"}, {"VideoControl", "string"}, {"VideoPayloadType", "uint8"}, {"SPS", "[]byte"}, {"PPS", "[]byte"}, {"HasAudio", "bool"}, {"AudioControl", "string"}, {"AudioPayloadType", "uint8"}, {"AudioConfig", "[]byte"}, {"AudioRate", "int"}, {"AudioChans", "int"}},
	"librtsp.RTPPacker":                    {{"PayloadType", "uint8"}, {"SSRC", "uint32"}, {"seq", "uint16"}},
	"librtsp.RTPPacket":                    {{"PayloadType", "uint8"}, {"SequenceNum", "uint16"}, {"Timestamp", "uint32"}, {"SSRC", "uint32"}, {"Marker", "bool"}, {"Payload", "[]byte"}},
	"librtsp.Request":                      {{"Method", "string"}, {"URL", "string"}, {"Version", "string"}, {"Headers", "github.com/sbraveyoung/GGmpeg/librtsp.Headers"}, {"Body", "[]byte"}},
	"librtsp.Response":                     {{"Version", "string"}, {"StatusCode", "int"}, {"Reason", "string"}, {"Headers", "github.com/sbraveyoung/GGmpeg/librtsp.Headers"}, {"Body", "[]byte"}},
	"librtsp.SDPParams":                    {{"StreamID", "string"}, {"HasVideo", "bool"}, {"HasAudio", "bool"}, {"IsHEVC", "bool"}, {"VPS", "[]byte"}, {"SPS", "[]byte"}, {"PPS", "[]byte"}, {"IsOpus", "bool"}, {"AudioConfig", "[]byte"}, {"AudioRate", "int"}, {"AudioChans", "int"}},
	"libsrt.ACKBody":                       {{"LastAckedSeq", "uint32"}, {"RTT", "uint32"}, {"RTTVariance", "uint32"}, {"AvailableBuffer", "uint32"}, {"ReceivingRate", "uint32"}, {"LinkCapacity", "uint32"}, {"ReceivingBytes", "uint32"}},
	"libsrt.AccessUnit":                    {{"PTS", "uint64"}, {"DTS", "uint64"}, {"Key", "bool"}, {"NAL", "[]byte"}},
	"libsrt.AudioFrame":                    {{"PTS", "uint64"}, {"Data", "[]byte"}},
	"libsrt.CryptoState":                   {{"EvenSEK", "[16]byte"}, {"OddSEK", "[16]byte"}, {"Salt", "[16]byte"}, {"Active", "bool"}},
	"libsrt.Demuxer":                       {{"pmtPID", "uint16"}, {"videoPID", "uint16"}, {"audioPID", "uint16"}, {"videoBuf", "[]byte"}, {"videoTS", "uint64"}, {"videoDTS", "uint64"}, {"audioBuf", "[]byte"}, {"audioTS", "uint64"}, {"OnVideo", "func(github.com/sbraveyoung/GGmpeg/libsrt.AccessUnit)"}, {"OnAudio", "func(github.com/sbraveyoung/GGmpeg/libsrt.AudioFrame)"}},
	"libsrt.Handshake":                     {{"Version", "uint32"}, {"EncryptionField", "uint16"}, {"ExtensionField", "uint16"}, {"InitialSequence", "uint32"}, {"MaxPacketSize", "uint32"}, {"MaxFlowWindow", "uint32"}, {"HandshakeType", "int32"}, {"SrtSocketID", "uint32"}, {"SyncCookie", "uint32"}, {"PeerIP", "[16]byte"}},
	"libsrt.Header":                        {{"Kind", "github.com/sbraveyoung/GGmpeg/libsrt.PacketKind"}, {"ControlType", "github.com/sbraveyoung/GGmpeg/libsrt.ControlType"}, {"SubType", "uint16"}, {"TypeInfo", "uint32"}, {"SeqNumber", "uint32"}, {"MessageInfo", "uint32"}, {"Timestamp", "uint32"}, {"DestSocketID", "uint32"}},
	"libsrt.Listener":                      {{"conn", "*net.UDPConn"}, {"streamID", "string"}, {"onData", "github.com/sbraveyoung/GGmpeg/libsrt.DataHandler"}, {"onClose", "func(streamID string)"}, {"mu", "sync.Mutex"}, {"sessions", "map[string]*github.com/sbraveyoung/GGmpeg/libsrt.session"}, {"socketID", "uint32"}},
	"libsrt.LossRange":                     {{"From", "uint32"}, {"To", "uint32"}},
	"libsrt.session":                       {{"peerAddr", "*net.UDPAddr"}, {"peerSocketID", "uint32"}, {"ourSocketID", "uint32"}, {"cookie", "uint32"}, {"concluded", "bool"}, {"concludedCookie", "uint32"}, {"startTime", "time.Time"}, {"lastSeen", "time.Time"}, {"streamID", "string"}, {"expectedSeq", "uint32"}, {"mu", "sync.Mutex"}, {"lastACKedSeq", "uint32"}, {"ackNum", "uint32"}, {"lastACK", "time.Time"}, {"receivedSeqs", "uint64"}},
}
