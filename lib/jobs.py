"""which monitors decide which property"""
import os


def J(pkg, prop, files=None, run=None, **kw):
    f = list(files or ["zz_verif_%s_test.go" % prop])
    here = os.path.dirname(os.path.abspath(__file__))
    if os.path.exists(os.path.join(here, "..", "harness", pkg, "zz_verif_common_test.go")):
        f.append("zz_verif_common_test.go")
    d = dict(pkg=pkg, files=f, run=run or ("^TestVerif_%s_" % prop))
    d.update(kw)
    return d


def R(pkg, props, run, div, **kw):
    """monitors of other properties under the race detector"""
    return J(pkg, "", files=["zz_verif_%s_test.go" % p for p in props], run=run, race=True, race_only=True, div=div, **kw)


def S(prop):
    """what a client of the real server receives, judged as a stream"""
    return J("cmd/music-sync-server", prop, files=["zz_verif_%s_test.go" % prop, "zz_verif_stream_test.go"],
             binaries=[("server", "cmd/music-sync-server", False)])


STREAM_RULE = ("the real playlist streams real decoded music to the monitor; cases draw buffer size, break, songs, reading pattern and a "
               "history of requests (play, pause, jump, add, insert, remove) issued at chosen stream positions, some from a second "
               "goroutine; an offline oracle compares every sample read and every announcement with the decoded songs. The same oracle judges what "
               "a client of the real server receives while an admin pauses, jumps, edits and (C03) the server is suspended for a while. ")

# the ssh client of the monitors: the user "a\0b" is a in the first attempt and b in later ones; "\0skip" does not log in
SSH_CLIENT = [("golang.org/x/crypto", "ssh/client_auth.go", [
    ("sessionID, config.User, c.transport", "sessionID, verifUser(config.User, len(tried)), c.transport"),
    ("	// during the authentication phase the client first attempts",
     "	if config.User == \"\\x00skip\" {\n		return nil\n	}\n	// during the authentication phase the client first attempts"),
    ("func keys(m map[string]bool)", """func verifUser(user string, attempt int) string {
	for i := 0; i < len(user); i++ {
		if user[i] == 0 {
			if attempt < 2 { // the attempt without any authentication is the first
				return user[:i]
			}
			return user[i+1:]
		}
	}
	return user
}

func keys(m map[string]bool)"""),
])]

PROPERTIES = {
    "C01": dict(
        technique="offline oracle over recorded device output under a controlled clock",
        note="sample-accurate comparison of everything written to a stand-in audio device with the chunk schedule; the device and the raw "
             "clock are stand-ins, decoding and the real player code are not; explored schedules only",
        rule="the real player (Init, QueueChunk, streaming loop, clock) runs against a recording device and a controllable clock; cases "
             "draw sample rate, chunk sizes, gap patterns, clock skew, join time, sync moment and drift. Non-trivial: audio was "
             "both scheduled and played after at least one realignment.",
        jobs=[J("playback", "C01", fakes=["oto", "goarista"]),
              J("cmd/music-sync-player", "C01", files=["zz_verif_program_test.go"], fakes=["oto", "goarista"])]),
    "C02": dict(
        technique="clock oracle: synced time vs the server's clock over simulated and real exchanges",
        note="the raw clocks are stand-ins, the sync code is real; errors are judged against the bound computed from the exchanges; explored delays only",
        rule="syncs with random skews, steps, symmetric and one-sided delays, lost exchanges; readers during concurrent updates; whole players "
             "and info clients synced over loopback by a scripted server; the real server's answers. Non-trivial: delays and skew are not 0.",
        jobs=[J("timing", "C02", fakes=["goarista"], results=2),
              J("cmd/music-sync-player", "C02", fakes=["oto", "goarista"]), J("cmd/music-sync-infoer", "C02", fakes=["goarista"]),
              J("cmd/music-sync-server", "C02", binaries=[("server", "cmd/music-sync-server", False)])]),
    "C03": dict(
        technique="offline stream oracle over recorded runs of the real playlist",
        note="every sample of every explored run is compared with the decoded song; explored histories only; trusts the mp3 decoder",
        rule=STREAM_RULE + "Non-trivial: at least one song was streamed completely.",
        jobs=[J("playback", "C03"), S("C03")]),
    "C04": dict(
        technique="announcement/stream consistency oracle over recorded runs",
        note="announcements recorded at the handlers are matched one to one with the songs found in the stream; explored histories only",
        rule=STREAM_RULE + "Non-trivial: more than one song was announced.",
        jobs=[J("playback", "C04"), J("schedule", "C04", files=["zz_verif_announced_test.go", "zz_verif_common_test.go"]), S("C04")]),
    "C05": dict(
        technique="pause trace oracle over recorded runs of the real playlist",
        note="silence, resume position and announcements are checked for every sample read; explored histories only",
        rule=STREAM_RULE + "Non-trivial: a pause within a song and a resume were announced.",
        jobs=[J("playback", "C05"), J("schedule", "C05", files=["zz_verif_announced_test.go", "zz_verif_common_test.go"]), S("C05")]),
    "C06": dict(
        technique="linearizability checking of recorded histories, stepwise list model, conservation",
        note="sequential semantics judged for every step, concurrent ones for short histories; explored histories only",
        rule="random edit sequences (indices in range, at and beyond both ends, extreme integers) judged step by step against a list "
             "model; concurrent short histories judged by a linearizability search; contended long runs judged by conservation. "
             "Non-trivial: a mutating step, a history with overlapping calls.",
        jobs=[J("playback", "C06", results=3)]),
    "C07": dict(
        technique="jump trace oracle over recorded runs, bounded-steps stall monitor",
        note="each judged jump must cut the song within the buffered samples and be followed by the song at its wrapped position",
        rule=STREAM_RULE + "A second monitor issues bursts of jumps with the stream not being read. Non-trivial: a jump could be judged "
             "(not overtaken by a later one).",
        jobs=[J("playback", "C07", results=2), S("C07")]),
    "C08": dict(
        technique="differential monitor: sent vs received messages over hostile transports",
        note="every message received over the real transport code is compared with the one sent; transports fragment, shorten and interleave",
        rule="random messages of every type (nested, empty, huge, NaN, infinities, invalid numbers) are sent over fragmenting and short-"
             "writing transports, alone and from many goroutines at once. Non-trivial: distinct encoded content.",
        jobs=[J("comm", "C08", results=4)]),
    "C09": dict(
        technique="fuzzing with crash, allocation and liveness monitors in child processes",
        note="memory is judged against a fixed allowance per message plus what was sent; explored byte strings only",
        rule="hostile byte streams (garbage, truncations, mutated valid packages, wrong lengths, bombs, nesting) against the reader and a "
             "real listening server with healthy bystanders; the three programs facing peers which say anything, well formed or not. Non-trivial: distinct streams which were rejected or partly accepted.",
        jobs=[J("comm", "C09", results=4),
              J("cmd/music-sync-server", "C09", binaries=[("server", "cmd/music-sync-server", False), ("player", "cmd/music-sync-player", False),
                ("infoer", "cmd/music-sync-infoer", False)], binary_fakes={"player": ["oto"]})]),
    "C10": dict(
        technique="exactly-once delivery oracle over recorded concurrent histories",
        note="unique message ids; per client the received multiset is bounded by its subscription intervals; explored schedules only",
        rule="clients connect, subscribe (also twice), disconnect and fail while uniquely numbered broadcasts are sent. Non-trivial: "
             "a broadcast overlapping a subscription change or a failure.",
        jobs=[J("comm", "C10", results=2)]),
    "C11": dict(
        technique="delivery monitors on healthy clients of the real server next to stalled ones, relative to an undisturbed server",
        note="undelivered means: the clients of another server received 1000 chunks meanwhile; commands sending to every client (volume) may themselves wait",
        rule="1-4 clients which subscribe and never read (or send half messages, or ask all along) at 7 MB/s of music, so that all network "
             "buffers are full; then others must be sent chunks, songs, pauses, volume and time sync answers, connect and subscribe, and "
             "playlist commands be answered. Non-trivial: all of it was asked for after the stall.",
        jobs=[J("cmd/music-sync-server", "C11", binaries=[("server", "cmd/music-sync-server", False)])]),
    "C12": dict(
        technique="final-state oracle over what joining clients received, under injected delivery delays",
        note="the real announcing and subscription handlers run over a stand-in for the connections (C10 judges the real ones); explored schedules only",
        rule="streams of songs, pauses and resumes announced sequentially, overlapping or in any order while clients subscribe; what every "
             "client received must yield the true song, pauses and volume. Non-trivial: songs and pauses occurred.",
        jobs=[J("schedule", "C12", results=3)]),
    "C13": dict(
        technique="agreement oracle over what all clients received, under injected delivery delays",
        note="real commands and subscription handlers over a stand-in for the connections; last received volumes compared; explored schedules only",
        rule="up to four sessions set the volume while clients join, deliveries delayed at random; commands with all kinds of arguments. "
             "Non-trivial: several sessions, a valid argument.",
        jobs=[J("schedule", "C13", results=2),
              J("cmd/music-sync-server", "C13", binaries=[("server", "cmd/music-sync-server", False)]),
              J("cmd/music-sync-player", "C13", files=["zz_verif_program_test.go"], fakes=["oto", "goarista"])]),
    "C14": dict(
        technique="differential monitor of the sample conversion against exact arithmetic",
        note="every converted value is judged against exact arithmetic; all quantization steps and their neighbours are enumerated, other values sampled",
        rule="samples (all quantization boundaries, neighbours, random, beyond full scale, infinities) in buffers of several sizes are "
             "converted by the real code at many volumes and judged against exact arithmetic. Non-trivial: the volume is not 0.",
        jobs=[J("playback", "C14", results=2),
              J("cmd/music-sync-player", "C14", files=["zz_verif_program_test.go"], fakes=["oto", "goarista"])]),
    "C15": dict(
        technique="stepwise FIFO model, conservation and order over concurrent runs, stall monitor",
        note="each item carries its identity in both channels and its time; waits are judged by the state of all goroutines, not by time; explored interleavings only",
        rule="random operation sequences judged step by step against a FIFO model; producers and consumers in several mixes and numbers of "
             "processors judged by conservation, per producer order and length bounds; full and empty queues by who waits. "
             "Non-trivial: wrapped around, more than one producer or consumer.",
        jobs=[J("playback", "C15", results=3, timeout=200)]),
    "C16": dict(
        technique="order, completeness and timing oracle over samples carrying their identity, stall monitor",
        note="every sample played is traced to its chunk and index, its time recomputed; queueing is watched for waiting; explored interleavings only",
        rule="one to eight goroutines queue chunks of many sizes (empty ones, silence markers) into the real player's queue, read and "
             "consumed during or only after that, also with a backlog of thousands; every sample is matched with its chunk. "
             "Non-trivial: more than one chunk, channels of unequal length.",
        jobs=[J("playback", "C16", results=4, timeout=300)]),
    "C17": dict(
        technique="differential monitor of the shown position against a model of the announced stream",
        note="song, time, length, progress and pause state judged against the stream at chosen moments around every change; explored histories only",
        rule="random streams (songs, cuts, pauses, also across songs) announced in any order and repeatedly to clients joining at any sample; looked at "
             "around every song start, end, pause and resume and between; screens of real info clients of the real server. Non-trivial: looked at while a song was paused.",
        jobs=[J("cmd/music-sync-infoer", "C17", fakes=["goarista"], results=2),
              J("cmd/music-sync-infoer", "C17", run="^TestVerif_C17_concurrent", fakes=["goarista"], race=True),
              J("cmd/music-sync-server", "C17", files=["zz_verif_live_test.go", "zz_verif_C18_test.go"], binaries=[("server", "cmd/music-sync-server", False), ("infoer", "cmd/music-sync-infoer", False)])]),
    "C18": dict(
        technique="screen oracle: the drawn cells compared with the captions and details due",
        note="real drawing on a simulated terminal with the clock under control; captions may come up to 100 ms early; characters without a width of their own not judged",
        rule="songs with random lyrics (empty and unordered lines, negative and extreme times, wide, combining and control characters), details, pauses "
             "and terminal sizes drawn around the times of captions; lyrics files sent by the real server and shown by real info clients. Non-trivial: lyrics lines were shown.",
        jobs=[J("cmd/music-sync-infoer", "C18", fakes=["goarista"]),
              J("cmd/music-sync-server", "C18", files=["zz_verif_live_test.go", "zz_verif_C18_test.go"], binaries=[("server", "cmd/music-sync-server", False), ("infoer", "cmd/music-sync-infoer", False)], results=2)]),
    "C19": dict(
        technique="differential monitor of the parser against a reference splitter",
        note="all lines of up to 6 (thorough 9) of the characters that matter are enumerated, longer ones and other characters sampled",
        rule="lines of all kinds of characters, short ones exhaustively, are parsed by the real parser and by a reference splitter; escaped words are "
             "parsed back; eight sessions parse at once. Non-trivial: escapes, several words.",
        jobs=[J("ssh/parser", "C19", results=4), J("ssh/parser", "C19", run="^TestVerif_C19_sessions", race=True)]),
    "C20": dict(
        technique="completion oracle: every offered and missing completion judged by parsing the completed line",
        note="offers are judged by the words they lead to against the registered options; short lines are enumerated, others sampled",
        rule="commands and options with spaces, backslashes, quotes and non-ASCII names, real directory trees; lines and cursor positions of all "
             "kinds, short lines exhaustively. Non-trivial: something was offered.",
        jobs=[J("ssh", "C20", results=3)]),
    "C21": dict(
        technique="differential monitor of the queue command against a matching and list model",
        note="matches are computed from the tree and the pattern for every command; patterns, names, positions sampled; concurrent blocks for order and completeness",
        rule="random trees with hostile names; patterns derived from names, wildcards, invalid ones; positions from extreme to not a number; "
             "six sessions at once; everything listed is queued. Non-trivial: several songs matched.",
        jobs=[J("schedule", "C21", results=3)]),
    "C22": dict(
        technique="differential monitor of listings against the tree that was built",
        note="every listing is compared with the tree on disk; trees, names and spellings sampled; links below the music directory are not judged",
        rule="random trees with hostile names, the music directory spelled in 16 ways (relative, dots, separators, links), sub directories, "
             "and parts not readable for the (unprivileged) lister. Non-trivial: songs were listed, parts were not readable.",
        jobs=[J("util", "C22", results=2)]),
    "C26": dict(
        technique="output monitor: everything written compared with what the configured levels allow",
        note="levels, names, messages sampled over all combinations of levels; concurrent lines matched one to one; single writes are assumed atomic",
        rule="random configurations, loggers, levels and messages (placeholders, formats, binary); eight goroutines logging to files; the options "
             "of the programs in any case. Non-trivial: a logger has a level of its own.",
        jobs=[J("logging", "C26", results=2),
              J("cmd", "C26", results=2, binaries=[("player", "cmd/music-sync-player", False), ("server", "cmd/music-sync-server", False)],
                binary_fakes={"player": ["oto"]})]),
    "C23": dict(
        technique="login oracle over real ssh logins to the real server and over the real authentication handlers",
        note="the server's program and ssh library are real; the client's library is patched so that it can name several users on a connection, "
             "or skip the login; secrets are sampled, timing is not judged",
        rule="users with random passwords and keys (shared, prefixes of each other, empty, malformed); attempts of several users at once with own, "
             "others', altered and empty secrets, keys without their private part, several attempts per connection, no login at all. Every attempt "
             "must end as the users file says. Non-trivial: the users file grants something.",
        jobs=[J("cmd/music-sync-server", "C23", binaries=[("server", "cmd/music-sync-server", False)], patches=SSH_CLIENT), J("ssh", "C23")]),
    "C24": dict(
        technique="fuzzed terminals of the real sessions and the real server with crash, suspension, wedge and terminal-settings monitors",
        note="a session counts as wedged when others are answered many times meanwhile; keys, lines and sizes are sampled; memory exhaustion by endless lines is not explored",
        rule="terminals of any size type lines, keys, completions, searches, binary data and resize, several at once and not reading, into the "
             "real session code and the real server (with and without a terminal of its own), a bystander session and a streaming client "
             "watching; then every session must answer. Non-trivial: several keys were typed, the session answered afterwards.",
        jobs=[J("ssh", "C24"), J("cmd/music-sync-server", "C24", binaries=[("server", "cmd/music-sync-server", False)])]),
    "C25": dict(
        technique="fuzzed media in child processes with crash, stall and progress monitors",
        note="a watchdog reports a stream which stands still for a minute while being read; explored files only",
        rule="playlists mixing sound songs with missing, empty, non-music, truncated, mutated and concurrently changing files are streamed; "
             "every sound song must be reached within the samples the others can take, and be intact; tags and lyrics are generated "
             "malformed. Non-trivial: something malformed was met and the songs after it were reached.",
        jobs=[J("playback", "C25", results=2), J("metadata", "C25", results=2)]),
    "C27": dict(
        technique="race detector over the real programs and over the workloads of the other monitors",
        note="reports are attributed by the code on the racing stacks; library-internal races without the repository on a stack are not judged; explored schedules only",
        rule="the server, players and info clients run as programs built with the race detector while clients join, leave and subscribe, admins edit, "
             "pause, jump, complete and resize, music and time sync go on; the concurrent workloads of the other monitors are repeated in-process under "
             "the race detector. Non-trivial: as said by the monitor; for the programs: chunks, songs, audio and screens were seen.",
        parallel=4,
        jobs=[J("cmd/music-sync-server", "C27", race="binaries", timeout=300, alone=True,
                binaries=[("server", "cmd/music-sync-server", True), ("player", "cmd/music-sync-player", True), ("infoer", "cmd/music-sync-infoer", True)],
                binary_fakes={"player": ["oto"]}),
              R("playback", ["C27"], "^TestVerif_C27_", 1, fakes=["oto", "goarista"]),
              R("schedule", ["C27"], "^TestVerif_C27_", 1),
              R("playback", ["C03", "C05", "C06", "C07", "C15", "C16"],
                "^TestVerif_(C03_stream|C05_pause|C06_lin|C06_conserve|C07_idle|C15_concurrent|C16_chunks)$", 10, fakes=["oto", "goarista"]),
              R("playback", ["C01"], "^TestVerif_C01_", 10, fakes=["oto", "goarista"]),
              R("comm", ["C08", "C10"], "^TestVerif_(C08_concurrent|C08_dispatch|C10_routing|C10_failing)$", 10),
              R("schedule", ["C12", "C13", "C21"], "^TestVerif_(C12_joins|C12_kept|C13_consensus|C13_command|C21_sessions)$", 8),
              R("timing", ["C02"], "^TestVerif_C02_", 4, fakes=["goarista"]),
              R("cmd/music-sync-infoer", ["C17", "C18"], "^TestVerif_(C17_concurrent|C17_position|C18_screen)$", 10, fakes=["goarista"]),
              R("ssh", ["C24", "C23", "C20"], "^TestVerif_(C24_keys|C23_handlers|C20_hostile)$", 8),
              R("logging", ["C26"], "^TestVerif_C26_concurrent$", 1)]),
    "C28": dict(
        technique="resource monitors (open files and connections, goroutines, live objects) over the real code and the real server",
        note="measured with garbage collection off where it would hide a forgotten file; growth below one object per two songs, clients or chunks is not seen",
        rule="songs of all kinds played and skipped, tags and lyrics collected, chunks queued and played, clients and admin sessions coming and going in "
             "every way, on the real code in child processes and on the real server, which is compared with one that served few. Non-trivial: "
             "something was opened.",
        jobs=[J("playback", "C28", files=["zz_verif_C28_test.go", "zz_verif_C25_test.go"], fakes=["oto", "goarista"], results=2),
              J("metadata", "C28", files=["zz_verif_C28_test.go", "zz_verif_C25_test.go"]), J("comm", "C28"), J("ssh", "C28"),
              J("cmd/music-sync-server", "C28", binaries=[("server", "cmd/music-sync-server", False)])]),
    "C29": dict(
        technique="differential monitor of every answer of the real server's terminals against a model of its state",
        note="answers are read as an admin would (names, positions, numbers in them), not word by word; histories are sampled",
        rule="one to three sessions of the real server type commands with all kinds of arguments, misuse and misspell them; every answer and the "
             "playlist after it are compared with a model, the current song with what is announced; four sessions edit at once and their answers must "
             "add up. Non-trivial: the playlist was not empty.",
        jobs=[J("cmd/music-sync-server", "C29", results=2, binaries=[("server", "cmd/music-sync-server", False)])]),
    "C30": dict(
        technique="configuration monitor: what the real programs do under drawn options compared with what the options say",
        note="options, values and spellings are sampled; delays are judged by the clock the server itself answers with; a busy default port is not judged",
        rule="the server binary under random stream options, addresses, host keys, directories and spellings of the options, and without any; players and "
             "info clients under a scripted server; unusable configuration. Non-trivial: an option differs from its default.",
        jobs=[J("cmd/music-sync-server", "C30", results=4, binaries=[("server", "cmd/music-sync-server", False),
              ("player", "cmd/music-sync-player", False), ("infoer", "cmd/music-sync-infoer", False)], binary_fakes={"player": ["oto"]})]),
    "C31": dict(
        technique="fault injection with an oracle comparing what failed with what is reported",
        note="failing connections are stand-ins; which failures the operating system reports, and when, is not judged",
        rule="broadcasts, several at once, to up to 40 clients of any channels, some of which fail at once, late or in the middle of the message; single "
             "clients; the volume command. Non-trivial: something failed.",
        jobs=[J("comm", "C31"), J("schedule", "C31"), J("util", "C31", race=True)]),
    "C32": dict(
        technique="fault injection (a limit on open files) with delivery monitors on clients of the real server, relative to an undisturbed server",
        note="unserved means: the clients of another server received 1000 chunks meanwhile; the resource made scarce is open files, not memory",
        rule="crowds of clients and admins, more than the server may have files for, silent, subscribing, asking or talking nonsense, leaving in any "
             "order, several after another; those who were there before and those who come after must be served. Non-trivial: every crowd.",
        parallel=2,
        jobs=[J("cmd/music-sync-server", "C32", binaries=[("server", "cmd/music-sync-server", False)]),
              J("comm", "C32", timeout=800, timeout_thorough=3000)]),
    "C33": dict(
        technique="monitor of exit codes, output and terminal modes of the real client programs under injected connection failures and interrupts",
        note="ends by signals which can not be handled, and what terminals other than xterm need, are not judged; the patience is 90 s",
        rule="players and info clients whose server refuses, closes, resets, talks nonsense or never answers, at once or while music plays, and which are "
             "interrupted. Non-trivial: every end.",
        jobs=[J("cmd/music-sync-server", "C33", binaries=[("player", "cmd/music-sync-player", False), ("infoer", "cmd/music-sync-infoer", False)],
                binary_fakes={"player": ["oto"]})]),
}
