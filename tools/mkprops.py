#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

p("P01", "Playlist edits follow list semantics for every position",
  "Queueing without a position appends, queueing with a position inserts before that position (several songs stay in their order), and removing deletes exactly the song at that position and reports it. Every integer position is accepted: one outside the list is clipped to the nearest end, and removing from an empty list changes nothing. Concurrent edits behave like some one-at-a-time order and a listing always shows one such intermediate list.",
  ["inputs", "histories", "schedules"],
  "all sequences (and interleavings) of append/insert/remove/list operations with arbitrary integer positions",
  "The tests run a few fixed positions on one list; positions equal to the length, negative multi-song inserts and concurrent edits are never exercised.",
  ["playback/playlist.go", "schedule/server_state_commands.go"],
  [("list edits under one lock with position clipping", "playback/playlist.go AddSong/InsertSong/RemoveSong/Songs"), ("queue/remove/playlist commands", "schedule/server_state_commands.go")],
  [("songs", "the playlist, in order", "playback/playlist.go Playlist")], ["playlist command output", "remove command reply"])

p("P02", "Songs play in playlist order; jumps, edits and bad files never break it",
  "Playback starts each next song at the position after the one that just ended, wrapping to the start at the end of the list, always taken from the list as it is at that moment; a jump abandons the current song and continues at the requested position. A file that cannot be opened or decoded is skipped, and an empty or wholly unplayable playlist yields silence until a playable song appears. No sequence of edits and jumps stalls playback, replays a stale jump, or crashes it.",
  ["histories", "schedules", "fault_sequences"],
  "all histories of adds, inserts, removals and jumps (any integer, any number in a row) against any mix of playable and unreadable files, issued at any point of the stream",
  "Tests check the position bookkeeping of single calls; none streams through several songs while the list changes, jumps twice, or meets unreadable files.",
  ["playback/playlist.go"],
  [("next song selection", "playback/playlist.go nextSong"), ("jump tokens", "playback/playlist.go SetPos/shouldBreakStreamerPushLoop"), ("stream loop", "playback/playlist.go StreamLoop")],
  [("position", "index of the song being played", "playback/playlist.go Playlist")], ["samples returned by Fill", "song announcements"])

p("P03", "The stream carries every song's samples complete, in order and paired",
  "Each started song contributes a gap-free prefix of its samples in order - the whole song unless a jump cut it - with left and right samples kept paired, followed by exactly the configured number of break samples before the next song. Nothing is lost, duplicated, reordered or altered between decoder and consumer for any song length, buffer size and read size, and the index reported for each read is the number of samples read before it.",
  ["inputs", "schedules", "configurations"],
  "all song lengths (including 0 and exact multiples of the internal block), buffer sizes, read sizes, and timings of producer and consumer",
  "Tests push one buffer at a time with matched sizes; no test runs the producer and the consumer concurrently across song boundaries.",
  ["playback/playlist.go"],
  [("per-sample channels", "playback/playlist.go pushSample/Fill"), ("short-read end detection", "playback/playlist.go pushStreamer/shouldBreakStreamerPushLoop"), ("break insertion", "playback/playlist.go pushNanBreak")],
  [("sampleIndexRead/Write", "global sample indices", "playback/playlist.go Playlist")], ["samples returned by Fill"])

p("P04", "Song and pause announcements name the true sample positions",
  "Every started song is announced exactly once with its file name, its length in samples and the index of the stream sample at which it starts, together with the lyrics and tags stored for that file; no other song is announced. Every change between playing and paused is announced exactly once with the exact stream index at which it takes effect, and announced states alternate.",
  ["histories", "schedules"],
  "all histories of songs, jumps, pauses and resumes, and all relative timings of the streaming loop and the announcement handlers",
  "Tests call the handlers directly with made-up indices; none relates an announced index to the samples actually streamed.",
  ["playback/playlist.go", "schedule/server_state.go", "metadata/lyrics_provider.go", "metadata/metadata_provider.go"],
  [("handlers called with the write index", "playback/playlist.go pushStreamer/callPauseToggleHandler"), ("announcement messages", "schedule/server_state.go createNewSongHandler/createPauseToggleHandler")],
  [], ["NewSongInfo and PauseInfo messages", "samples in QueueChunkRequest messages"])

p("P05", "Pausing and resuming loses, repeats and leaks no sample",
  "While playback is paused the stream carries only silence, and after a resume it continues with exactly the sample that follows the last one streamed before the pause; a pause or resume request takes effect within a bounded number of samples of the stream, and repeated identical requests change nothing. Pausing neither ends nor advances the current song, and skipping while paused starts the new song paused.",
  ["histories", "schedules"],
  "all sequences and timings of pause, resume, jump and edit commands over any songs",
  "Tests only check the flag; no test compares the streamed samples before and after a pause.",
  ["playback/playlist.go", "schedule/server_state_commands.go"],
  [("silence instead of streamer reads while paused", "playback/playlist.go pushStreamer"), ("pause/resume commands", "schedule/server_state_commands.go playbackSetCommand")],
  [("playing", "whether audio is streamed", "playback/playlist.go Playlist")], ["samples in the stream"])

p("P06", "Chunks form one gapless schedule and match their announcements",
  "From the end of the start delay, the server sends chunk after chunk, one per chunk duration: ids count up from 0, chunk k holds the configured number of samples starting at sample k times the chunk size, and its start time is the first chunk's start time plus k chunk durations, the first being the configured stream delay after streaming begins. Every chunk's description for displays carries the same start time, first sample and size as its audio, and the chunks laid end to end are exactly the sample stream.",
  ["histories", "configurations", "schedules"],
  "all configurations of rate, chunk size and delays, and all histories of playlist activity and client connections and stalls",
  "No test runs the streaming loop at all.",
  ["schedule/server_state.go", "schedule/server.go", "schedule/schedule.go"],
  [("chunk loop", "schedule/server_state.go streamMusic"), ("Fill's index", "playback/playlist.go Fill")],
  [("index/start", "chunk number and time base", "schedule/server_state.go streamMusic")], ["QueueChunkRequest and ChunkInfo messages"])

p("P07", "Each message reaches exactly the connected subscribers, once each",
  "A broadcast is delivered exactly once, unaltered, to every client that is connected and subscribed to one of the message's channels for the whole broadcast (or to every connected client if the message belongs to no channel), and never to a client that is not subscribed or has disconnected, however often a client subscribed. Connecting, subscribing and disconnecting clients never disturb the delivery to the others, and nothing is kept about a client that is gone.",
  ["histories", "schedules"],
  "all histories and interleavings of connects, subscribes (also repeated and to several channels), disconnects and broadcasts by any number of clients",
  "Tests broadcast sequentially to a fixed set of in-memory connections; no test interleaves membership changes with broadcasts.",
  ["comm/message_sender.go", "comm/conn_handler.go", "comm/package_util.go", "comm/package_handler.go"],
  [("subscription table", "comm/message_sender.go Subscribe/isSubscribed"), ("membership", "comm/message_sender.go AddConn/DelConn"), ("channel of a message type", "comm/package_util.go channelOf")],
  [("connections/channels", "connected clients and their subscriptions", "comm/message_sender.go multiMessageSender")], ["bytes written to each client connection"])

p("P08", "A stalled, failing or misbehaving client harms only itself",
  "A client that stops reading, disconnects at any byte, or sends truncated, corrupt, oversized, unknown or unexpected data can at most lose its own connection and its own messages. All other clients keep receiving every message addressed to them promptly, newly arriving clients are still served, and the server neither crashes nor exhausts memory.",
  ["fault_sequences", "inputs", "schedules"],
  "all combinations of stalls, disconnects, malformed frames and joins, at every point of a broadcast, with any number of clients",
  "No test has a connection that blocks, and malformed input is limited to a few frames fed to the decoder.",
  ["comm/message_sender.go", "comm/conn_handler.go", "comm/package_util.go"],
  [("parallel per-client writes", "comm/message_sender.go SendMessage"), ("one goroutine per connection", "comm/conn_handler.go serverConnectionAcceptor/handleConnection"), ("frame decoding", "comm/package_util.go readWire")],
  [], ["messages received by the healthy clients"])

p("P09", "Messages survive any fragmentation, and damaged frames are refused",
  "Any sequence of messages written to a connection is read back identically and in order, whatever the sizes of the reads and writes the connection performs and however many senders share it. A frame that is truncated, corrupted, oversized or of unknown type makes the reader report an error and close the connection; it is never delivered as a message and never crashes the process.",
  ["inputs", "schedules", "fault_sequences"],
  "all message values, all partial read/write sizes, all interleavings of concurrent senders, all truncations and byte corruptions that the format can detect",
  "Tests round-trip single messages over a buffer that reads and writes whole frames.",
  ["comm/package_util.go", "comm/conn_handler.go", "comm/message_sender.go"],
  [("length-prefixed compressed envelopes", "comm/package_util.go toWire/readWire"), ("write loop", "comm/package_util.go sendWire"), ("read loop", "comm/package_util.go readBytes")],
  [], ["messages handed to the connection's handler"])

p("P10", "Every client ends up at the volume the operator last set",
  "After any history of volume commands, joins and subscriptions, once messages have been delivered, every subscribed client's last volume message carries the volume of the last accepted command (or the initial volume). A client applies volume messages in the order it received them, so its effective volume is that of the last one, including one received before its audio device was ready; a rejected volume command changes nothing.",
  ["histories", "schedules"],
  "all histories and interleavings of volume commands (valid and invalid) with clients joining and subscribing, and all schedules of message handling at the receiver",
  "Tests issue one command to one fake receiver; ordering between a join and a concurrent change, or between two messages at the receiver, is never exercised.",
  ["schedule/server_state.go", "schedule/server_state_commands.go", "comm/package_handler.go", "playback/playback.go"],
  [("volume sent on subscription and on change", "schedule/server_state.go sendVolume; schedule/server_state_commands.go volumeCommand"), ("message dispatch", "comm/package_handler.go Handle"), ("volume variable", "playback/playback.go SetVolume/Init")],
  [("volume", "current volume", "schedule/server_state.go serverState")], ["SetVolumeRequest messages", "amplitude of the player's output"])

p("P11", "A display joining late learns the volume, newest song and pauses",
  "Whenever a client subscribes to the information channel, what it is sent on subscribing together with what is broadcast afterwards tells it the current volume, the most recently announced song, and every retained pause change in stream order, missing none, whatever broadcasts happen while it joins. A client subscribing to the audio channel is sent the volume, and nothing else on subscribing.",
  ["histories", "schedules"],
  "all join points and interleavings of subscriptions with volume, song and pause announcements",
  "Tests call the snapshot functions on a static state with a fake sender.",
  ["schedule/server_state.go", "comm/package_handler.go"],
  [("snapshot on subscription", "schedule/server_state.go createClientHandler"), ("subscribe before snapshot", "comm/package_handler.go HandleSubscribeChannelRequest")],
  [("newestSong/pauses/volume", "state replayed to joining displays", "schedule/server_state.go serverState")], ["messages received by the joining client"])

p("P12", "The retained pause history is exactly what later joiners need",
  "The server keeps pause changes ordered by stream position and forgets one only when it precedes the latest change to playing that is not after the start of the newest song; what it keeps therefore determines the pause state at every position from the newest song's start on. This holds for every order and overlap of song announcements, pause changes, prunings and joins, which never crash, corrupt or lose retained entries.",
  ["histories", "schedules"],
  "all histories of pause changes and song starts and all interleavings of recording, pruning and replaying them",
  "Tests prune five static lists, sequentially.",
  ["schedule/server_state.go"],
  [("pruning", "schedule/server_state.go removablePauses/removeOldPauses"), ("recording", "schedule/server_state.go createPauseToggleHandler")],
  [("pauses", "retained pause changes", "schedule/server_state.go serverState")], ["PauseInfo messages replayed to a joining client"])

p("P13", "Time synchronisation is accurate and changes only on complete rounds",
  "After a completed synchronisation round the client's estimate of server time deviates from the true one by at most half the mean difference between outgoing and returning message delays, so it is exact for symmetric delays, whatever the clock difference. The estimate changes only when a round has received all its responses, uses only that round's responses, averages all of them, and repeats each configured interval; during an incomplete round the previous estimate stays in force.",
  ["schedules", "fault_sequences", "inputs"],
  "all clock offsets, per-message delays, reorderings and losses over any number of rounds, and all interleavings of response handlers and round starts",
  "Tests feed hand-made timestamps sequentially; the exchange with a server, losses and concurrent handlers are not exercised.",
  ["timing/timing.go", "schedule/infoer.go", "schedule/player.go", "comm/package_handler.go"],
  [("offset averaging", "timing/timing.go UpdateOffset/ResetOffsets"), ("request rounds", "schedule/infoer.go syncTime"), ("server timestamps", "comm/package_handler.go HandleTimeSyncRequest")],
  [("offset/offsets", "clock estimate and samples of the round", "timing/timing.go")], ["GetSyncedTime against the simulated server clock"])

p("P14", "The sample queue is a bounded FIFO that never loses a wakeup",
  "The queue between chunk reception and audio output hands out exactly the samples put in, each once, in order, with its timestamp; looking at the head removes nothing, and it never holds more than its capacity. A consumer waits only while it is empty and a producer only while it is full, and either proceeds as soon as that ends, under every interleaving.",
  ["schedules", "configurations"],
  "all interleavings of add, remove, peek and length calls for all capacities",
  "Tests run the operations from one goroutine, or one blocking pair.",
  ["playback/timed_sample_queue.go"],
  [("ring buffer with condition variable", "playback/timed_sample_queue.go")],
  [("head/tail", "ring indices", "playback/timed_sample_queue.go timedSampleQueue")], ["results and blocking of queue operations"])

p("P15", "Players emit each sample at its scheduled server time, or not at all",
  "Nothing is played before a player has synchronised its clock. From then on, as long as chunks arrive in time and the audio device keeps its pace, every sample leaves the player at its scheduled server time to within one output buffer: the beginning of a song is never played early, silence fills the wait, samples whose time has passed when (re)aligning are dropped. After every break between songs the player realigns, so that a delay or a late start never shifts the following song.",
  ["schedules", "fault_sequences", "inputs"],
  "all chunk arrival times (early, late, in bursts), clock offsets, song layouts, and device stalls",
  "Tests call the two streaming modes once with prepared queues; alignment over time is never observed.",
  ["playback/streamer.go", "playback/playback.go", "timing/timing.go"],
  [("sync/direct streaming modes", "playback/streamer.go Stream/streamSync/streamDirect"), ("sample timestamps", "playback/streamer.go ReadChunks")],
  [("syncing", "whether the player waits for the next sample's time", "playback/streamer.go timedMultiStreamer")], ["audio written to the output device, with its time"])

p("P16", "Players output exactly the chunk samples, scaled by volume and saturated",
  "Within a song a player outputs the samples of the chunks it received, in stream order across chunk boundaries, without gaps, repeats or foreign samples. Each output value is the sample times the volume in force, saturated to the 16-bit range so that louder input never yields a smaller or opposite-signed output, left and right kept apart; break samples are never output.",
  ["inputs", "schedules"],
  "all sample values and volumes, all chunk sizes and song layouts, and all interleavings of chunk reception and output",
  "Tests convert a few values and stream single prepared chunks.",
  ["playback/playback.go", "playback/streamer.go", "comm/package_handler.go", "cmd/music-sync-player/main.go"],
  [("conversion", "playback/playback.go convertSampleToBytes/samplesToAudioBuf"), ("chunk queue", "playback/playback.go QueueChunk; playback/streamer.go ReadChunks"), ("in-order dispatch", "comm/package_handler.go Handle")],
  [], ["bytes written to the output device"])

p("P17", "Displays show the true song, position and pause state",
  "Given the announcements of the server in any arrival order, with duplicates, a display shows at every time covered by a known chunk: the stream sample due then, the song that sample belongs to, whether it is paused there, and the time into that song excluding all pauses within it. Looking at the display never changes what it shows later, and progress is the played part of the song's length.",
  ["inputs", "histories", "schedules"],
  "all stream histories (songs, pauses before, across and inside songs), arrival orders, duplications and viewing times",
  "Tests compare fixed states; no test derives the expected display from a stream history or permutes arrivals.",
  ["cmd/music-sync-infoer/state.go", "cmd/music-sync-infoer/infoer_package_handler.go"],
  [("state derivation", "cmd/music-sync-infoer/state.go Info"), ("message intake", "cmd/music-sync-infoer/infoer_package_handler.go")],
  [("Songs/Chunks/Pauses", "what the display knows", "cmd/music-sync-infoer/state.go state")], ["the information computed for drawing"])

p("P18", "Displays show the lyrics stored with the song at the right times",
  "The lyrics stored beside a song reach the display unchanged. At any time into the song the display's newest line is the one before the first line whose first word is not yet due, it shows exactly the words of that line due within the next tenth of a second, and the lines above it are the preceding ones in order, each with its words due by then, blank where there are none; songs without lyrics show none and malformed lyrics files are ignored.",
  ["inputs"],
  "all lyrics documents (including empty lines and unsorted or empty atoms), times and display heights",
  "Tests check a handful of lyrics and times.",
  ["cmd/music-sync-infoer/main.go", "cmd/music-sync-infoer/infoer_package_handler.go", "metadata/lyrics_provider.go", "schedule/server_state.go"],
  [("line selection", "cmd/music-sync-infoer/main.go lyricsHistory"), ("lyrics loading", "metadata/lyrics_provider.go"), ("wire conversion", "schedule/server_state.go toWireLyrics")],
  [], ["lines computed for drawing"])

p("P19", "Only configured users with the right credential get a shell",
  "A login succeeds exactly when the user is configured and presents that user's configured password or proves to hold the public key configured for that user; an unknown user, another user's credential, an empty or altered one, or a user without that kind of credential is refused. A users file that cannot be read or parsed grants nobody access.",
  ["inputs", "configurations"],
  "all users files (users with passwords, keys, both, neither, shared or malformed keys) and all login attempts",
  "Tests try a few fixed credentials.",
  ["ssh/options.go", "ssh/ssh.go"],
  [("password and key checks", "ssh/options.go"), ("users file", "ssh/ssh.go ReadUsersFile")],
  [], ["outcome of authentication attempts"])

p("P20", "Command lines split into the words the operator wrote",
  "A command line is split at unescaped blanks into a command and its parameters, a backslash makes a following blank or backslash literal and otherwise stands for itself, and every other character - whatever the language - is kept as is. Text before the first unescaped blank is the command, empty parameters are dropped. Writing non-empty words back as a command line and splitting it again yields the same words, and no input line, however malformed, crashes the server.",
  ["inputs"],
  "all lines of characters, including empty, blank, non-ASCII, and trailing or repeated backslashes and blanks",
  "Tests cover a few ASCII lines.",
  ["ssh/parser/parser.go", "ssh/session_handler.go"],
  [("grammar", "ssh/parser/Shell.g4"), ("tree to words", "ssh/parser/parser.go")],
  [], ["parsed command and parameters"])

p("P21", "Completions continue the line into a valid option and never crash",
  "Each completion offered for a line is the text that, put after what was typed up to the cursor, yields a line whose last word is one of the command's options (or a command name) starting with the word typed so far, and every such option is offered. Requesting completion never fails or crashes, whatever the line, including extra blanks, escapes, non-ASCII characters and unknown commands.",
  ["inputs"],
  "all lines and option sets",
  "Tests complete a few well-formed lines.",
  ["ssh/auto_completer.go", "ssh/parser/parser.go"],
  [("completion", "ssh/auto_completer.go Do")],
  [], ["completions returned for a line"])

p("P22", "No operator command crashes or wedges the server",
  "Every command line, with any number of arguments of any content, is answered promptly - with a result, or the command's usage for unusable arguments - in every server state, including an empty playlist, paused playback and stalled clients, and any number of commands in a row. Commands answered with usage change nothing, and afterwards the server still streams and accepts commands.",
  ["inputs", "histories"],
  "all sequences of command lines in all server states",
  "Tests run single well-formed commands on a fresh state.",
  ["schedule/server_state_commands.go", "ssh/session_handler.go", "ssh/command.go", "playback/playlist.go"],
  [("argument parsing", "schedule/server_state_commands.go"), ("command dispatch", "ssh/session_handler.go")],
  [], ["command replies and the continuing stream"])

p("P23", "Listed, completed, queued and played song names agree",
  "The songs listed for a directory are exactly the song files below it, named relative to the music directory however that directory is spelled; a listed name is offered as a completion, can be queued by that name, which then queues it alone, and is the name under which the file is found, played and its lyrics are loaded. Other names are patterns, which queue exactly the matching song files, in order, and never directories or other files.",
  ["inputs", "configurations"],
  "all directory trees, file names (including blanks, pattern characters and non-ASCII), and spellings of the music directory",
  "Tests use one tree with plain names and one spelling of the directory.",
  ["util/file_utils.go", "ssh/command.go", "schedule/server_state_commands.go", "playback/playback.go"],
  [("file listing", "util/file_utils.go"), ("queue and ls commands", "schedule/server_state_commands.go; ssh/command.go")],
  [], ["ls, completion, queue and playback results"])

p("P24", "A broadcast reports every failed recipient and only those",
  "When a broadcast cannot be written to some clients, the call reports a failure naming each of those errors exactly once, and it reports success exactly when all writes succeeded. The report is complete when the call returns, for any number of concurrent failures.",
  ["schedules", "fault_sequences"],
  "all subsets of failing clients and all interleavings of their errors",
  "The collector is tested by adding one error at a time; sending is tested without concurrent failures.",
  ["comm/message_sender.go", "util/collector.go", "util/multi_error.go"],
  [("error collection", "util/collector.go"), ("fan-out", "comm/message_sender.go SendMessage")],
  [("errs", "collected errors", "util/collector.go ErrorCollector")], ["error returned by a broadcast"])

p("P25", "Logging flags select exactly the messages at or above their level",
  "A message of a component is written exactly when its level is at least the level given by that component's logging flag, or, if none is given, by the default logging flag; 'off' writes nothing. Warnings and worse go to the error output, everything else to the normal output, each message once with its level, component and text.",
  ["inputs", "configurations"],
  "all combinations of component and default logging flags, levels and message texts",
  "Tests set the cut-off table directly; the flags that are meant to fill it are not tested.",
  ["cmd/flags.go", "logging/logger.go", "logging/cutoff.go", "logging/level.go"],
  [("flag handling", "cmd/flags.go HandleLoggingFlags"), ("cut-off", "logging/cutoff.go"), ("output", "logging/logger.go")],
  [], ["log output"])

p("P26", "Commands do what their flags say and end exactly when they must",
  "A server started with an existing music directory, a usable users file and a free address serves clients and operators at the addresses given by its flags (by default 127.0.0.1:13333 and 127.0.0.1:13334), presents the host key in its host key file if there is one, and runs, whatever its clients do, until it is interrupted. A player or display connects to the address given (by default 127.0.0.1:13333), answers pings, and runs until it is interrupted or its connection ends. An interrupted command ends with success; a server which cannot use its directory, users file or address, a client which cannot connect, a player without an audio device and a client whose connection ends - at whatever byte - end promptly with a failure, and a display that ends gives the terminal back.",
  ["configurations", "inputs", "fault_sequences"],
  "all combinations of flags (any spelling, unusable ones included) and environments, and all points at which a connection ends or the command is interrupted",
  "No test runs a command: flags, refusals and ends are in the main packages, which only have tests of drawing and state.",
  ["cmd/music-sync-server/main.go", "cmd/music-sync-player/main.go", "cmd/music-sync-infoer/main.go", "cmd/flags.go", "cmd/util.go", "comm/conn_handler.go", "schedule/player.go", "ssh/options.go"],
  [("flags and start", "cmd/*/main.go run; cmd/flags.go"), ("end with the connection", "comm/conn_handler.go ConnectToServer"), ("interrupts", "cmd/util.go WaitForInterrupt")],
  [], ["exit status, listening addresses, connections made, host key presented, state of the terminal"])

p("P27", "Each operator's terminal answers exactly the lines entered there",
  "Every line an operator enters is run exactly once, with the words written in it, after the lines entered before it at that terminal, and without waiting for anything at other terminals; a line given up (ctrl-c) is not run. A command's reply is shown unaltered, after the line and before the next one, at that terminal and no other; a command refusing its arguments is answered with its usage, an unknown one with its name; help lists every command once and describes the one asked for; clear leaves only the prompt. The session ends when and only when its operator leaves (exit, ctrl-d, hanging up), and the others do not notice.",
  ["inputs", "schedules", "histories"],
  "all commands, replies, lines, keys and interleavings of operators at several terminals",
  "Tests call commands and the parser directly: no test runs a session, let alone two.",
  ["ssh/session_handler.go", "ssh/command.go", "ssh/ssh_server.go", "ssh/parser/parser.go"],
  [("read and run loop", "ssh/session_handler.go readLoop, handleLine, execCommand"), ("dispatch and help", "ssh/command.go")],
  [], ["calls of commands, what is shown at terminals, sessions that end"])

p("P28", "Players play in unison, displays show what is heard, and operators' commands are heard",
  "With a server, an operator, players and displays, each on a machine with a clock of its own and connected by a network whose delays are below the stream delay, everything the server streams from when a player has joined and knows the time comes out of that player's audio device exactly once, in order, and at the moment the server meant it to be heard, up to half of the difference and variation of its message delays and two samples; so any two players play the same sample of the same song at the same time up to that. Only at breaks (between songs, at pauses) may a player leave out as much as its clock is off. The volume it applies is the last one set before, once that can have reached it. A display shows at any time the song, the time into it, whether it is paused, and the volume which are being heard then. After pause there is silence, after resume sound, and after jump the chosen song from its start, no later than the stream delay and what had been made ready before.",
  ["schedules", "histories", "inputs", "configurations"],
  "all clock differences, message delays, joining times, streams and histories of operators' commands",
  "Tests exercise one package each with mocked neighbours; no test has a server and a client, let alone two clocks and a network.",
  ["schedule/server_state.go", "schedule/player.go", "schedule/infoer.go", "playback/playlist.go", "playback/streamer.go", "timing/timing.go", "comm/message_sender.go", "comm/package_handler.go", "cmd/music-sync-infoer/state.go"],
  [("stream", "schedule/server_state.go streamMusic; playback/playlist.go"), ("clocks", "timing/timing.go UpdateOffset; schedule/infoer.go syncTime"), ("playing", "playback/streamer.go"), ("display", "cmd/music-sync-infoer/state.go")],
  [], ["samples written to each audio device and when", "what the screen shows", "what is sent to a subscriber"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
    print("valid", len(P))
except ImportError:
    print("written", len(P))
