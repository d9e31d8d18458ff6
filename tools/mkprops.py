#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (single source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=hook)))
U="internal/webrtc/utils/"; R="internal/webrtc/recorder/"; S="internal/server/"; E="internal/pubsub/events/"

p("C01","Malformed or unexpected command messages are harmless",
 "Whatever arrives on the recorder's command channel - text that is not JSON, JSON that is not an object, a missing, non-string or unknown id, fields of the wrong type, or missing fields - handling it never crashes the recorder. A message that is not a recognised, well-typed command publishes nothing and leaves every existing recording session untouched.",
 ["inputs"],"for every message shape (malformed, non-object, id absent/non-string/unknown/known, every field absent, null, wrong type or an arbitrary string) delivered with or without a running session",
 "the server package has no tests at all; the event tests only build well-typed Go structs and never decode a wire message",
 [S+"server.go",E+"decode.go",E+"events.go"],
 [("decode and dispatch of a command","HandlePubSub in "+S+"server.go"),("typed decoding","Decode in "+E+"decode.go")],obs=["messages published","panics","live sessions"])
p("C02","Every startRecording command gets exactly one truthful response",
 "Each well-typed startRecording command produces exactly one startRecordingResponse, carrying the same recording session id. Its status is \"ok\" exactly when the recording was set up, and then it carries the full path of the recording file, no error and - for mediasoup - the SDP answer; otherwise its status is \"failed\" with an error text and neither file path nor SDP.",
 ["inputs","fault_sequences"],"for every combination of adapter, option fields, file name kind and set-up failure (bad SDP, peer connection or room failure, missing directory, existing file, id collision)",
 "no test drives the command handler; the response tests check hand-built structs only",
 [S+"server.go",S+"session.go",E+"events.go"],
 [("start handling","HandlePubSub in "+S+"server.go"),("response constructors","Success/Fail in "+E+"events.go")],obs=["startRecordingResponse messages"])
p("C03","A refused or failed start leaves nothing behind",
 "A startRecording command that is answered \"failed\" leaves no session registered under its id, does not change the active-session gauge, and releases any media connection and recorder it had set up, so that the same id can be started again. When it fails because the id is already in use, the running session under that id is not disturbed.",
 ["inputs","histories","fault_sequences"],"for every failing stage of a start, followed by a second start or a stop with the same id",
 "no test starts a session; failure paths need a history of two or more commands",
 [S+"server.go",S+"session.go"],
 [("session table","sessions in "+S+"server.go"),("gauge","Sessions in internal/prometheus/prometheus.go")],
 state=[("sessions","running sessions by id",S+"server.go")],obs=["responses to a retry","gauge value","recordings running"])
p("C04","A recording session ends exactly once",
 "However a session ends - stop command, connection failure, end of its media tracks, in any order and any number of times - its recording is closed exactly once, its media connection is released, the active-session gauge drops by exactly one, and exactly one recordingStopped message is published for it. Afterwards the id can be used again, and late events of the ended session never affect or report on a newer session that uses the same id.",
 ["histories","schedules"],"for every sequence of up to five of: start, stop, ICE failure, track end, for one or two session instances of the same id",
 "no test exercises sessions; the double-end orders need particular histories of asynchronous callbacks",
 [S+"server.go",S+"session.go"],
 [("termination","StopRecording and callbacks in "+S+"session.go"),("stop command","HandlePubSub in "+S+"server.go")],
 state=[("stopped","session already ended",S+"session.go")],obs=["recordingStopped messages","recorder close calls","gauge"])
p("C05","Recordings stay inside the configured directory",
 "For every requested file name, every directory and file the recorder creates for the recording lies strictly inside the configured recording directory; a name that would resolve outside it (through '..' segments or otherwise) is refused without creating anything.",
 ["inputs"],"for every file name string up to the stated length, over all byte values, and several configured directories",
 "no test calls the file preparation; the dangerous names are rare combinations of separators and dots",
 [R+"recorder.go"],[("path validation","ValidateAndPrepareFile in "+R+"recorder.go")],obs=["paths passed to the operating system"])
p("C06","A new recording never overwrites an existing file or another recording",
 "A startRecording whose target file already exists is refused and the file is left untouched. A start whose target is the file of another active session is refused too, so no two active sessions ever write the same file.",
 ["inputs","histories","configurations"],"for every file-system state (target present, absent, unreadable) and every pair of file names with any spelling that resolves to the same path",
 "no test covers file preparation or two sessions",
 [R+"recorder.go",S+"server.go"],[("existence check","ValidateAndPrepareFile in "+R+"recorder.go")],obs=["open calls and their flags","responses"])
p("C07","RTP sequence numbers are unwrapped consistently",
 "The unwrapped value of an RTP sequence number is never negative and always congruent to it modulo 65536. While packets arrive within half the number space of the newest packet, the newest packet's unwrapped value never decreases and each packet is placed at its true distance from the newest one, across any number of wrap-arounds; a packet from before the very first one received is only guaranteed to be non-negative and congruent.",
 ["inputs","histories"],"for every start value and every sequence of up to k 16-bit numbers",
 "the tests follow one in-order run and one hand-set state; wrap-around with reordering depends on the history of arrivals",
 [U+"sequence_unwrapper.go"],[("unwrapping","Unwrap in "+U+"sequence_unwrapper.go")],obs=["returned values"])
p("C08","The jitter buffer releases packets in order, once, and without silent loss",
 "Over any arrival order, packets leave the jitter buffer in strictly increasing sequence order, each at most once and unaltered. An accepted packet that is newer than the first packet and than everything already released or skipped is released unless it falls out of the buffer window; a packet older than the window is refused, as is a duplicate of a buffered packet.",
 ["inputs","histories"],"for every sequence of adds (any sequence numbers), drains and forced skips up to the stated length, for several buffer sizes",
 "the unit test follows a single scripted arrival order with one buffer size",
 [U+"jitter_buffer.go"],[("ring buffer","Add/NextPackets/SkipPacket in "+U+"jitter_buffer.go")],obs=["packets returned","accept/refuse results"])
p("C09","A missing packet delays the stream by a bounded time and is reported",
 "When the next packet to release is missing, the jitter buffer holds back later packets until the missing one arrives, it is given up explicitly, the window moves past it, or the configured timeout has elapsed since the gap was first noticed, and not longer: the first drain after the timeout moves past it. Packets are never skipped before the timeout, and whenever the buffer skips on timeout that drain reports a skip and the last skipped sequence number is available exactly once.",
 ["inputs","histories","schedules"],"for every timing of arrivals and drains relative to the timeout and every gap pattern within the stated bounds",
 "the unit test never lets the timeout elapse",
 [U+"jitter_buffer.go"],[("gap timers","NextPackets in "+U+"jitter_buffer.go")],obs=["packets and skip flag returned","last skipped sequence number"])
p("C10","The receive log reports exactly the packets that are missing",
 "For any arrival order, the list of missing packets contains each sequence number after the contiguous prefix and up to the requested distance from the newest packet that was neither received nor given up, and contains no packet that was received or given up, within the log's window. A query for a single packet answers true exactly when that packet was recorded and is within the window.",
 ["inputs","histories"],"for every start value and sequence of adds and give-ups of bounded length, including wrap-around and jumps larger than the window",
 "the unit test follows one script from a handful of start values and never delivers packets older than the window",
 [U+"receive_log.go"],[("bitmap ring","Add/MissingSeqNumbers/Get/IgnoreSeqNum in "+U+"receive_log.go")],obs=["missing lists","membership answers"])
p("C11","NACK encoding names exactly the requested packets",
 "Encoding an ascending list (modulo 65536) of missing sequence numbers into NACK pairs and expanding the pairs again yields the same list: nothing that was not asked for, nothing omitted, across wrap-around. An empty list encodes to no pairs.",
 ["inputs"],"for every ascending list of up to k sequence numbers from any start value with any gaps",
 "the unit test checks one fixed list",
 [U+"nack.go"],[("encoding","NackPairs and NackPairsToSequenceNumbers in "+U+"nack.go")],obs=["pairs and expanded lists"])
p("C12","Lost packets are re-requested a bounded number of times, then given up",
 "For a mediasoup track, each packet reported missing is re-requested with NACKs addressed to that track, at most ten times, and a received packet is no longer re-requested; after the last attempt the packet is given up so that the stream moves on, also after the sequence numbers have wrapped around.",
 ["inputs","histories","schedules"],"for every start sequence number and loss pattern within the bound, over up to twelve NACK rounds",
 "no test runs the track loop; the behaviour needs many timer rounds and wrap-around",
 ["internal/webrtc/webrtc.go",U+"receive_log.go",U+"jitter_buffer.go"],[("NACK loop","OnTrack handler in internal/webrtc/webrtc.go")],obs=["RTCP packets written","packets pushed to the recorder"])
p("C13","Every recorded video frame is one complete, uncorrupted VP8 frame",
 "With the custom video sampler, each video frame written to the recording is exactly the concatenation, in order, of the VP8 payloads of a run of consecutively numbered packets that starts with the start of a frame and ends with its marker packet; frames with a hole, a missing start or a missing end are never written. Each complete, valid frame (at least 10 bytes, plausible key-frame dimensions, assembled within the 2 second time-out) that need not wait for a key frame is written once, and is not modified afterwards. The key-frame flag written is the flag of that frame.",
 ["inputs","histories"],"for every sequence of up to k video packets (any losses, markers, start bits, partition ids, picture ids, payload bytes) from any start sequence number",
 "no test covers the recorder; corruption needs particular loss positions relative to frame boundaries and wrap-around",
 [R+"webm.go"],[("frame assembly","pushVP8Custom in "+R+"webm.go")],obs=["frames written to the video track"])
p("C14","Recordings start at, and resume from, a key frame",
 "The first video frame written to a recording is a key frame. With the custom video sampler, after a frame had to be discarded because packets were missing, it took too long or it was invalid, or after 15-bit picture ids reveal missing frames, no video frame is written until the next key frame.",
 ["inputs","histories"],"for every sequence of up to k video packets with arbitrary losses",
 "no test covers the recorder",
 [R+"webm.go"],[("key-frame gating","pushVP8Custom in "+R+"webm.go")],obs=["frames written to the video track"])
p("C15","No media packet can crash the recorder",
 "Pushing any RTP packet - any payload length and content, any header fields, audio or video, with either video sampler, before, during or after recording - never panics, and neither does a recording file that cannot be opened, written or closed.",
 ["inputs","histories"],"for every payload of up to n bytes and sequences of up to k packets, for every sampler and track configuration",
 "no test covers the recorder; crashing payloads are rare truncated headers",
 [R+"webm.go"],[("packet entry points","PushVideo/PushAudio in "+R+"webm.go")],obs=["panics"])
p("C16","Recorded timestamps follow the media clock",
 "The first video frame is written at time 0 and each later one at the time given by the RTP timestamp advance since the first frame (90 kHz clock, in milliseconds, within rounding), across timestamp wrap-around, so video timestamps never decrease when RTP timestamps do not. Audio blocks never go back in time and advance with the sample durations, and the reported positions equal those of the last written block.",
 ["inputs","histories"],"for every sequence of up to k frames with arbitrary forward RTP timestamp steps",
 "no test covers the recorder; wrap-around and rounding need unusual timestamps",
 [R+"webm.go"],[("timestamping","pushVP8Custom/pushOpus in "+R+"webm.go")],obs=["block timestamps","VideoTimestamp/AudioTimestamp"])
p("C17","A recording file is opened once, laid out for its tracks, and closed once",
 "For any mix of audio and video packets the recording file is created at most once and never truncated after media was written to it; it declares exactly the tracks present, with the picture size of the first key frame, and every frame goes to the track of its kind. Closing the recorder closes each opened track writer exactly once, repeated closing is harmless, and nothing is written after closing.",
 ["inputs","histories","configurations"],"for every order of up to k audio/video packets, closes, and track configurations",
 "no test covers the recorder; re-initialisation depends on the arrival order of audio and video",
 [R+"webm.go"],[("writer set-up and close","initWriter and close in "+R+"webm.go")],obs=["files opened","tracks declared","writes and closes per track"])
p("C18","The IVF copy is a well-formed file of the recorded frames",
 "When the IVF copy is enabled, the file next to the recording is a valid IVF file: a 32-byte header with the VP8 tag, the picture size of the last key frame written and, after closing, the number of frames, followed by every written video frame in order with its exact length, RTP timestamp and bytes. Frames never overwrite the header or each other, and closing is idempotent.",
 ["inputs","histories"],"for every sequence of up to k frames with arbitrary sizes, contents and key-frame flags, and more than 100 frames for the periodic header update",
 "no test covers the IVF writer; header/frame overlap depends on call order",
 [R+"ivfwriter.go",R+"webm.go"],[("IVF writer","IVFWriter in "+R+"ivfwriter.go")],obs=["bytes of the IVF file"])
p("C19","Key-frame requests are sent when needed and rate limited",
 "Whenever the recorder discards video because of loss or corruption, or a packet arrives while it waits for a key frame, it asks the sender for a key frame unless it already asked within the last second; two requests made by the recorder are always more than one second apart. Without a requester nothing fails.",
 ["inputs","histories","schedules"],"for every sequence of up to k packets and arbitrary times between them",
 "no test covers the recorder or lets time pass",
 [R+"webm.go"],[("rate limit","RequestKeyframe in "+R+"webm.go")],obs=["requests made and their times"])
p("C20","startRecording requests are accepted exactly when they are complete",
 "A request is valid exactly when it names the livekit adapter with a room and at least one track id, or names mediasoup or no adapter and carries an SDP offer in the adapter options or in the legacy field; every other request is rejected. The SDP used is the adapter option's when present and the legacy field's otherwise.",
 ["inputs"],"for every combination of present, absent and empty fields and arbitrary adapter strings",
 "the tests sample nine combinations and miss the documented default adapter with adapter options",
 [E+"events.go"],[("validation","Validate and GetSDP in "+E+"events.go")],obs=["validation result","SDP chosen"])
p("C21","RTP flow reports alternate and follow the packets",
 "For a mediasoup track, flow reports strictly alternate starting with \"flowing\"; \"flowing\" is reported within one polling period of packets being recorded after silence, and \"not_flowing\" once a full polling period passes without recorded packets. When the track ends, exactly one final report with the last position is made and no report follows it.",
 ["histories","schedules"],"for every pattern of packet arrivals over up to k polling periods",
 "no test runs the track loop",
 ["internal/webrtc/webrtc.go"],[("flow ticker","OnTrack handler in internal/webrtc/webrtc.go")],obs=["flow callbacks"])
p("C22","Media reaches the recorder complete and in order",
 "For a mediasoup track, the packets handed to the recorder are the received packets in increasing sequence order without duplicates, to the audio or video input according to the track's kind; reordering within the jitter window loses nothing. When packets are skipped, the recorder is told of the last skipped sequence number before it receives the packet after the gap.",
 ["inputs","histories","schedules"],"for every arrival order, loss and duplication of up to k packets from any start sequence number",
 "no test runs the track loop; skip signalling spans several components",
 ["internal/webrtc/webrtc.go",U+"jitter_buffer.go",U+"sequence_unwrapper.go"],[("track loop","OnTrack handler in internal/webrtc/webrtc.go")],obs=["packets and skip notices given to the recorder"])
p("C23","Recording files and directories get the configured permissions",
 "Missing recording sub-directories are created with exactly the configured directory mode and the recording file (and its IVF copy) is opened with exactly the configured file mode, where modes are octal (leading 0), hexadecimal (0x) or decimal text; a start with an invalid mode text is refused. Only file names ending in .webm are accepted, and with the null-device option nothing is created in the recording directory.",
 ["inputs","configurations"],"for every mode text up to the stated length and every file name suffix",
 "no test covers file preparation",
 [R+"recorder.go",R+"webm.go"],[("mode parsing","ValidateAndPrepareFile in "+R+"recorder.go")],obs=["modes passed to the operating system"])
p("C24","Wire messages carry the documented fields",
 "Every message the recorder publishes is a JSON object with the documented id, the recording session id of the session it is about, and the documented fields with their documented meaning: status text, reason, millisecond positions, file path, instance id and version. A status request is answered with exactly one recorderStatus, which is also published once at start-up.",
 ["inputs"],"for every session id, error text, file name, position and status value within the bounds",
 "no test serialises an event",
 [E+"events.go",S+"server.go",S+"session.go"],[("event types","structs in "+E+"events.go")],obs=["published JSON"])
p("C25","Every message on a subscribed channel is handled, in order",
 "The Redis listener announces readiness exactly once, only after the subscription is confirmed; then hands every received message to the handler exactly once and in order. It pings on schedule, and ends - closing its connection - when the connection fails, a handler fails or it is told to stop, returning the error in the failure cases.",
 ["histories","fault_sequences"],"for every sequence of up to k replies (confirmation, message, pong, error) and every cancellation point",
 "no test covers the Redis listener",
 ["internal/pubsub/redis/redis.go","internal/pubsub/redis.go"],[("listener","ListenChannels in internal/pubsub/redis/redis.go")],obs=["handler calls","readiness calls","return value"])
p("C26","The send buffer returns exactly the recent packets",
 "After any in-order (gaps allowed) sequence of adds, looking up a sequence number returns the packet added under it exactly when it was added and lies within the buffer size of the newest one, and nothing otherwise, across wrap-around.",
 ["inputs","histories"],"for every start value and every sequence of up to k forward steps",
 "the unit test follows one script with 25 start values",
 [U+"send_buffer.go"],[("ring buffer","Add/Get in "+U+"send_buffer.go")],obs=["lookup results"])
p("C27","LiveKit recording subscribes to the requested tracks and releases the room",
 "A LiveKit recording subscribes to exactly the requested tracks that are published, tells the recorder which media kinds are present before any media arrives, feeds each track's packets to the input of its kind in order, and leaves the room when the session ends. A connection or subscription failure is reported as a failed start.",
 ["inputs","histories","fault_sequences"],"for every set of up to three published tracks (kind, id, already subscribed or not) and requested ids, with or without failures",
 "no test covers the LiveKit adapter",
 ["internal/webrtc/livekit/livekit.go",S+"session.go"],[("subscription","Init/subscribeToTracks/onTrackSubscribed in internal/webrtc/livekit/livekit.go")],obs=["subscriptions","recorder inputs","room disconnects"])
p("C28","Concurrent activity in one session never deadlocks or corrupts state",
 "Packet processing, key-frame requests, periodic timers, connection callbacks and stop commands of a session may run at the same time in any interleaving without deadlock, without unsynchronised access to shared state, and without crashing the recorder.",
 ["schedules"],"for every interleaving of two or three of these activities with a bounded number of preemptions",
 "tests are single threaded; the failing interleavings are rare",
 ["internal/webrtc/webrtc.go","internal/webrtc/livekit/livekit.go",S+"session.go",R+"webm.go"],[("locks","mutexes in internal/webrtc/livekit/livekit.go and "+R+"webm.go")],obs=["deadlock","data races"])
p("C29","Answers of the test HTTP endpoint go to the right requester",
 "Each SDP posted to the test HTTP endpoint is turned into one startRecording command with its own session id and is answered with the SDP answer for that very session; responses for other sessions, failed responses and malformed messages never crash the recorder or reach the wrong requester.",
 ["inputs","histories","schedules"],"for every interleaving of up to two requests and arbitrary response messages",
 "no test covers the HTTP server",
 [S+"http.go"],[("answer routing","Serve in "+S+"http.go")],obs=["HTTP answers","panics"])
p("C30","Defaults, configuration file and environment resolve in that order",
 "A configuration value set in the environment overrides the same value in the configuration file, which overrides the built-in default, for every documented setting; reloading on SIGHUP re-reads both, and a command handled meanwhile sees either the old or the new value of a setting, never a torn one.",
 ["configurations"],"for every subset of settings given in file and environment",
 "no test covers configuration loading",
 ["internal/config/config.go","internal/config/loader.go","internal/app/config.go"],[("loader","Load in internal/config/loader.go")],obs=["effective configuration"])
p("C31","The flow reports of a LiveKit track follow its packets",
 "A LiveKit track is reported as flowing once its packets arrive and as no longer flowing within a few seconds after they stop or when the track ends before the session; reports alternate, are never made after the session ended, and carry the position of the recording.",
 ["histories","schedules"],"for every sequence of up to k periods with or without packets, followed by the end of the track or of the session",
 "no test covers the LiveKit adapter; the reports depend on timers and on when a track ends",
 ["internal/webrtc/livekit/livekit.go"],[("flow monitor","onTrackSubscribed in internal/webrtc/livekit/livekit.go")],obs=["flow callbacks"])
p("C32","Messages are published unchanged and release their connection",
 "Every message the recorder publishes reaches the broker once, unchanged and in order, on the configured channel, authenticated when a password is configured; a broker that refuses, drops or fails a publication neither crashes the recorder nor affects the publication of later messages, and every connection used is closed.",
 ["inputs","fault_sequences"],"for every sequence of up to k messages of arbitrary bytes, with a refused, dropped or failed publication among them",
 "no test covers the Redis publisher",
 ["internal/pubsub/redis/redis.go","internal/pubsub/redis.go"],[("publisher","Publish in internal/pubsub/redis/redis.go")],obs=["bytes received by the broker","open connections"])
p("C33","--dump prints the configuration in effect",
 "With --dump and the name of a setting or section, or \"all\", the program prints the value in effect - from the environment, the configuration file (also one given with -c) or the default - and ends successfully, without recording anything; for a name that does not exist it prints nothing and fails, as it may for a setting that is empty or false.",
 ["configurations","inputs"],"for every setting, source of its value and level of the name asked for",
 "no test covers the command line",
 ["internal/app/app.go","internal/app/config.go","internal/config/config.go"],[("printing","dumpConfig in internal/app/config.go")],obs=["standard output","exit status"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
