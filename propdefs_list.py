D("K01", "Keybindings parse as documented and match exactly their key codes",
  "A keybinding text either is rejected with an error or denotes exactly the documented sequence of chords, each with the byte a terminal sends for that key. "
  "Over any byte stream the engine reports a match exactly when the bytes since the last match or break spell a whole binding (the shortest one first), a partial match exactly when they are a proper prefix of some binding, and no match otherwise; a byte which breaks a partial match does not itself start a new one. "
  "No binding text and no byte stream makes it panic.",
  ["inputs", "configurations"], "all binding texts, all sets of bindings, all input byte streams",
  "The unit tests sample a handful of bindings and streams; the engine is a trie cursor over 256 byte values and any subset of bindings.",
  [L + "daemon/keybindings.rs", L + "daemon/trie.rs"],
  [m("lexer, parser and chord to key code table", L + "daemon/keybindings.rs"), m("trie cursor", L + "daemon/trie.rs")],
  SE, LEAFNOTE)
D("C01", "The attach stream's chunk framing round-trips and rejects what is malformed",
  "Any sequence of chunks written to the attach stream is read back as the same kinds and payloads in the same order, however the transport splits the bytes. "
  "Arbitrary bytes make the decoder return either an error or a chunk that is actually spelled there; it never panics, never accepts a payload larger than the caller's buffer, and never consumes bytes past the frame it returns.",
  ["inputs"], "all chunk sequences, all payloads, all byte strings on the wire, all splits into reads",
  "The unit test round-trips three fixed chunks through a cursor that never splits.",
  [L + "protocol.rs", "shpool-protocol/src/lib.rs"], [m("ChunkExt::write_to / read_into", L + "protocol.rs")],
  SE, LEAFNOTE)
D("D01", "Durations denote exactly the documented number of seconds or are an error",
  "A duration text (a session's ttl, and other intervals given by the user) of the documented forms number+unit (s, m, h, d) or 2 to 4 colon separated numbers denotes exactly that many seconds. "
  "Every other text, including any whose value does not fit, is reported as an error; nothing panics or wraps around.",
  ["inputs"], "all texts", "The unit tests have a dozen samples and none near overflow.",
  [L + "duration.rs"], [m("duration::parse", L + "duration.rs")], SE, LEAFNOTE)
D("E01", "/etc/environment is read the way pam_env reads it",
  "For every readable environment file, the variables given to new shells are exactly those of pam_env's rules: comments and blank lines are skipped, an optional export prefix is dropped, text after # is dropped, surrounding quotes go, and only names made of letters, digits and underscores count. "
  "A malformed line affects only itself: it never hides other lines and never makes the parse fail or panic.",
  ["inputs", "configurations"], "all file contents",
  "The unit test covers a fixed sample file; quote, comment and prefix handling interact.",
  [L + "daemon/etc_environment.rs"], [m("parse_compat", L + "daemon/etc_environment.rs")], SE, LEAFNOTE)
D("T01", "Session name templates substitute exactly the named variables, once",
  "A template with well formed {name} references instantiates to its text with each reference replaced by the variable's current value, or by nothing if it is unset; values are inserted verbatim and never expanded again. "
  "A template with an unterminated or ill named reference is rejected, and no template makes parsing panic.",
  ["inputs"], "all template texts and variable values", "The unit tests have a few fixed templates.",
  [L + "template.rs"], [m("Template::new / apply", L + "template.rs")], SE, LEAFNOTE)

SIMNOTE = ("Bounded: the whole daemon's code runs symbolically on a simulated operating system (threads, locks, channels, clocks, unix sockets, ptys, processes, files) "
           "which also runs natively to replay every counterexample; data is symbolic, schedules, pauses and hold-ups are explored exhaustively within the bounds in the evidence file. "
           "Trusts the executor (rsym), the simulated system calls and z3; scheduling is cooperative except at the stated number of hold-ups, and /proc, shells and terminals are stand-ins.")
D("I01", "Everything typed reaches the shell, except keybindings",
  "The shell receives exactly the bytes its attached client sends, in order and once, minus complete keybindings, however the stream is split into reads; a partial keybinding is held back only until it is decided. "
  "A detach keybinding lets the client go with status 0 and leaves the session and its shell running, and no other input ends the connection.",
  ["inputs", "configurations", "schedules"], "all input bytes, all splits into reads, all keybinding sets",
  "Tests type a few fixed strings; snipping keybindings out of a buffer depends on where every read ends.",
  [L + "daemon/shell.rs", L + "daemon/keybindings.rs"], [m("spawn_client_to_shell, snip_buf", L + "daemon/shell.rs")],
  SE, SIMNOTE)
D("O01", "Everything the shell prints reaches the attached client, then its exit status",
  "While a client is attached and keeps reading, it receives exactly the bytes the shell prints, in order and once, in frames no larger than clients accept. "
  "When the shell ends, whatever it had printed is followed by its exit status (1 if it was killed by a signal) as the last frame, the connection is closed, and the session is gone from the list and its name free again.",
  ["inputs", "schedules", "histories"], "all output, all exit statuses, all interleavings of output, heartbeats, exit and shutdown",
  "Whether the last output beats the exit status is a race between five threads, and tests see one schedule.",
  [L + "daemon/shell.rs", L + "daemon/server.rs", L + "daemon/exit_notify.rs"],
  [m("SessionInner::spawn_shell_to_client, bidi_stream, spawn_supervisor", L + "daemon/shell.rs"), m("handle_attach, spawn_subshell child watcher", L + "daemon/server.rs")],
  SE, SIMNOTE)

D("A01", "At most one client is attached to a session, and everyone else is told so",
  "However many clients ask for one session name at once, at most one is let in; the others are told it is busy and let go, without disturbing the one attached or its session. "
  "A name with a running shell is always reattached to that shell and never gets a second one; a name without one always gets exactly one new shell. "
  "Once an attached client has left, by whatever means, the session can be attached again.",
  ["schedules", "histories"], "all interleavings of attach requests with each other, with departures and with shell exits",
  "Tests attach clients one after the other; the window between looking a name up and claiming it is microseconds wide.",
  [L + "daemon/server.rs", L + "daemon/shell.rs"], [m("select_shell_desc, handle_attach", L + "daemon/server.rs"), m("bidi_stream", L + "daemon/shell.rs")],
  SE, SIMNOTE)
D("S01", "The session table matches the shells which run, through any history",
  "Each listed session has exactly one running shell (or one which ended while no client was attached and has not been asked for since), each shell belongs to exactly one listed session, and a session is listed as attached exactly while it has a client. "
  "A kill request ends the shell even if it ignores the hangup, lets its client go, removes the session before it is answered, and reports exactly the names which did not exist; a detach request reports exactly the names which did not exist or had no client. "
  "Creation and removal of every session are announced once each, and a departing client never affects a newer session of the same name.",
  ["histories", "schedules"], "all histories of requests, exits and departures, and their interleavings",
  "Tests follow a few fixed scripts; removals race with exits, kills, reattaches and each other.",
  [L + "daemon/server.rs", L + "daemon/shell.rs", L + "daemon/exit_notify.rs"],
  [m("handle_attach, handle_kill, handle_detach, handle_list", L + "daemon/server.rs"), m("Session::kill, SessionLifecycle", L + "daemon/shell.rs")],
  SE, SIMNOTE)

D("L01", "A session with a time to live is reaped then, and only that session",
  "A session created with a time to live is killed, removed from the list and announced as removed once that time has passed since its creation, whether or not a client is attached and even if its shell ignores the hangup; an attached client is let go. "
  "It is not removed any earlier on that account, and neither attaching to it again nor the end of an earlier session of the same name moves or triggers its deadline. "
  "A session created without one, or with one too long to represent, is never reaped.",
  ["histories", "schedules", "inputs"], "all histories of sessions with and without a ttl, all ttl values, all points in time at which it runs out",
  "The unit test lets one session expire; name reuse, overflow and expiry during another operation are not sampled.",
  [L + "daemon/ttl_reaper.rs", L + "daemon/server.rs"], [m("ttl_reaper::run", L + "daemon/ttl_reaper.rs"), m("select_shell_desc registration", L + "daemon/server.rs")],
  SE, SIMNOTE)

D("V01", "Variables read back as set, and every attached client learns of each change",
  "A request for the variables returns exactly what the completed changes add up to, and every request to change one is answered. "
  "Whenever a variable changes, every attached client is told the complete new state within the time a busy session takes to look for messages, and what it was told last is how the variables are, whatever changes happened at once. "
  "Sessions which are detached or ended never keep others from being told, and no value, however long, disconnects a client.",
  ["histories", "schedules", "inputs"], "all sequences and overlaps of changes, all values, all states of the other sessions",
  "Tests set one variable and read it; lost or reordered notifications need two changes at once or a session in an odd state.",
  [L + "daemon/server.rs", L + "daemon/shell.rs"], [m("handle_get_vars, handle_modify_var", L + "daemon/server.rs"), m("MaybeSwitch branch of the shell->client loop", L + "daemon/shell.rs")],
  SE, SIMNOTE)

D("N01", "Every events subscriber hears exactly what happened, in order",
  "A subscriber gets one JSON line for each session created, attached, detached or removed since it connected, in the order these happened, whole and once; nothing else is announced. "
  "When an announcement arrives, the list of sessions already shows what it announces. "
  "A subscriber which falls more than 64 events behind is dropped rather than given gaps, and one which is slow, stuck or leaves never delays or costs anybody else an event.",
  ["histories", "schedules"], "all histories of sessions, all paces and arrival times of subscribers, all interleavings with the publishing threads",
  "Tests subscribe first and then act; the window between accepting subscribers and broadcasting, partial writes and a full queue need exact timing.",
  [L + "daemon/events.rs", L + "daemon/server.rs"],
  [m("EventBus::publish, Sink::run, SubscriberWriter", L + "daemon/events.rs"), m("publish sites", L + "daemon/server.rs")],
  SE, SIMNOTE)

D("X01", "The attach command is a faithful pipe and ends as the shell ended",
  "While attached, the client writes exactly the bytes of the data frames to its output and sends exactly the bytes it reads, in order and once, however either is split or paced. "
  "It ends with exactly the exit status it is sent (1 if the connection is lost without one), when its input ends, or when it is detached. "
  "However it ends, the terminal's settings are as they were before.",
  ["inputs", "schedules"], "all data, all statuses, all splits and pauses of both streams, all interleavings of the client's threads",
  "Tests run whole processes with a few fixed strings; losing the last output or the status is a race between the client's threads.",
  [L + "protocol.rs", L + "attach.rs", L + "tty.rs"], [m("Client::pipe_bytes", L + "protocol.rs"), m("run and its helpers", L + "attach.rs"), m("AttachFlagsGuard", L + "tty.rs")],
  SE, SIMNOTE)
D("X02", "The attach command goes to exactly the session it is told to",
  "The client asks for exactly the session its name or template denotes given the daemon's variables, and never for an illegal name (blank, with whitespace or a slash, '.', '..'); when variables change it moves exactly when the denoted name changes. "
  "Told that the session is busy it says so and ends, or with --force asks for exactly one detach and tries again a bounded number of times; turned down, it ends with status 1. "
  "A background attach creates the session, lets go of it at once, ends with status 0 and never touches the terminal.",
  ["inputs", "histories"], "all templates, values and sequences of changes within the bounds, all sequences of answers",
  "Tests use one template with two values, and never a daemon which stays busy or turns the client down.",
  [L + "attach.rs", L + "template.rs"], [m("run and its helpers", L + "attach.rs")],
  SE, SIMNOTE)

D("R01", "The session's terminal has the size its client's terminal had last",
  "Once a client is attached, the session's terminal takes on exactly the size (rows, columns, pixels) the client's terminal has, and follows every later change of it, also one made while the client is still attaching; every resize is answered. "
  "When a client attaches again, the size changes at least once on the way, so that programs redraw. "
  "No size, however odd, disturbs the session, and neither resizes of other or unknown sessions nor clients turned away have any effect on it.",
  ["inputs", "histories", "schedules"], "all sizes, all histories of attaching, resizing and leaving, all points in time of a resize",
  "Tests resize once, well after attaching, to one size; a resize during the attach and degenerate sizes are not sampled.",
  [L + "daemon/shell.rs", L + "daemon/server.rs", L + "attach.rs", L + "tty.rs"],
  [m("resize handling in the shell->client loop", L + "daemon/shell.rs"), m("dispath_session_message", L + "daemon/server.rs"), m("SignalHandler", L + "attach.rs"), m("TtySizeExt", L + "tty.rs")],
  SE, SIMNOTE)
D("B01", "Attaching again restores what the session's terminal shows",
  "In screen mode, a client which attaches again is first sent output that makes a blank terminal of its size show exactly what the session's terminal shows (contents, colours, cursor, input modes), including what was printed while nobody was attached. "
  "In lines mode it is shown exactly the last n lines, in simple mode nothing. "
  "All of it comes in frames clients accept, before any further output, of which nothing is lost or repeated.",
  ["inputs", "histories"], "all output within the bounds, all points at which a client leaves, all modes, engines and sizes",
  "Tests look for a few strings in the restored output; colours, modes, cursor position, cut off sequences and large screens are not compared.",
  [L + "session_restore.rs", L + "daemon/shell.rs"],
  [m("Spool", L + "session_restore.rs"), m("restore branch of the shell->client loop", L + "daemon/shell.rs")],
  SE, SIMNOTE)
D("W01", "A stuck client or shell blocks nobody else and can be got rid of",
  "Whatever a client does (stops reading, sends nothing, part of a request or nonsense, leaves at any point) and whatever the shell does with its input, every list, attach, detach, kill and variable request is answered within a few seconds, and other sessions and their clients are not affected. "
  "A client which has stopped reading, or whose shell has, can be detached, replaced with --force, or killed along with its session; detached, the session carries on. "
  "A session whose shell ends while such a client is attached goes away even then.",
  ["inputs", "histories", "schedules"], "all histories within the bounds of what the stuck party, the shell and other clients do, all points in time",
  "Tests use clients and shells which read promptly; filling a socket's and a tty's buffers and then racing the shutdown paths is not sampled.",
  [L + "daemon/shell.rs", L + "daemon/server.rs"],
  [m("client->shell and shell->client loops, client shutdown", L + "daemon/shell.rs"), m("handle_conn, dispath_session_message", L + "daemon/server.rs")],
  SE, SIMNOTE)
D("Q01", "Setting up a new shell shows its user exactly what follows the set-up",
  "A new shell which needs setting up (a prompt prefix for a shell that supports one, a start command) is first asked to say when it is up, then given the set-up for its kind of shell with the prefix filled in and the start command once, then asked to say when it is done; a shell with nothing to set up is given nothing. "
  "Clients are shown exactly the output after the shell said so, however its output is split or delayed, and a client may leave and come back meanwhile. "
  "A shell which never says so, or ends at any point, is shown, attached to and cleaned up like any other, and holds up nobody else.",
  ["inputs", "configurations", "schedules"], "all shell kinds, prefixes and start commands, all splits of the output, all points at which the shell ends",
  "Tests run one fast bash; which reads the sentinels are split over, slow shells and shells which end during set-up are left to luck.",
  [L + "daemon/prompt.rs", L + "daemon/shell_inject.rs", L + "daemon/shell.rs", L + "daemon/server.rs"],
  [m("SentinelScanner, shell_inject", L + "daemon/shell_inject.rs"), m("inject_prefix", L + "daemon/prompt.rs"), m("sentinel handling in the shell->client loop", L + "daemon/shell.rs")],
  SE, SIMNOTE)
D("P01", "A new session runs what was asked for with the environment promised",
  "A new session runs exactly the command asked for (split into words as a shell does), or the configured or else the user's own shell as a login shell, in the directory asked for (the home directory otherwise; nothing is run if it cannot be entered), with the session's terminal as its controlling terminal and no other descriptor of the daemon's. "
  "Its environment is the documented base variables, /etc/environment (unless turned off), the configured variables and TERM, and those the client forwards, later ones winning, and nothing else of the daemon's. "
  "A command which cannot be parsed or a failing fork is reported and leaves nothing behind.",
  ["inputs", "configurations", "faults"], "all combinations of the configuration and of the client's request within the bounds",
  "Tests look at single variables one at a time in one configuration and never at the descriptors a shell inherits or at failing forks.",
  [L + "daemon/server.rs", L + "user.rs", L + "daemon/shell.rs"],
  [m("spawn_subshell, inject_env", L + "daemon/server.rs"), m("user info", L + "user.rs")],
  SE, SIMNOTE)
D("Y01", "A session's files lead to its current client, and names stay in their directory",
  "After each attach the session's ssh-auth-sock link leads to the agent of the client which attached last with one (none is made when that is turned off, and the directory is private), and forward.env holds exactly the variables the last client forwarded; a client which is turned away changes neither, other sessions' files are not touched, and a file which cannot be written costs nobody the session. "
  "A blank name, one with whitespace or a slash, and '.' and '..' are refused without running or making anything; any other name only gets files in its own directory.",
  ["inputs", "histories", "schedules"], "all histories of attaching and leaving within the bounds, all short names, all interleavings of two attaches",
  "Tests attach once or twice with a valid name; races of two clients over one session's files and odd names are not sampled.",
  [L + "daemon/server.rs"],
  [m("link_ssh_auth_sock, populate_session_env_file", L + "daemon/server.rs")],
  SE, SIMNOTE)
D("U01", "Requests of other users are refused and have no effect",
  "Whatever a process of another user than the daemon's sends to the daemon's socket has no effect on any session or variable and gets no answer, except that an attach is told it is forbidden.",
  ["inputs"], "all requests, all user ids",
  "Tests always run as the daemon's own user.",
  [L + "daemon/server.rs"], [m("check_peer, handle_conn", L + "daemon/server.rs")],
  SE, SIMNOTE)
D("M01", "Each command does what its command line says and reports how it went",
  "kill and detach act on exactly the sessions named, or else the one they are run in, and name what they could not find on the standard error stream; list, var and events print exactly what the daemon says, as text or JSON; the exit status tells whether all of it worked. "
  "attach asks the daemon for exactly what its options and configuration say, with the variables filled in. "
  "A daemon of another version is warned about but used; without a daemon a command fails and says so.",
  ["inputs", "configurations"], "all combinations of options, names and answers within the bounds",
  "Tests run a handful of command lines with ordinary names and values; unusual characters, versions and mixtures of found and missing sessions are not sampled.",
  [L + "lib.rs", L + "kill.rs", L + "detach.rs", L + "list.rs", L + "var.rs", L + "events.rs", L + "attach.rs", L + "common.rs", L + "protocol.rs"],
  [m("run, Args", L + "lib.rs"), m("kill, detach, list, var, events", L + "kill.rs"), m("Attach request", L + "attach.rs"), m("version check", L + "protocol.rs")],
  SE, SIMNOTE)
D("M02", "The message of the day is shown as configured and never costs the session",
  "With motd = dump, the first client of a new session is shown the whole message once before the shell's output; with a pager, each client (or one per show_every) is shown the message in it first, with all its output, input and size changes, and the session afterwards; with never, nothing. "
  "A pager goes away with its client, leaves no file behind, and does not keep a session from being listed, killed, left or attached to. "
  "A message which cannot be read or shown, and a clock which jumps, keep nobody from using the session.",
  ["inputs", "configurations", "histories", "schedules"], "all messages, modes and histories within the bounds, all points at which the pager, the client or the shell end",
  "Tests show one short message; long ones, races at the pager's end, clients leaving it and clock changes are not sampled.",
  [L + "daemon/show_motd.rs", L + "daemon/pager.rs", L + "daemon/server.rs", L + "daemon/shell.rs"],
  [m("DailyMessenger", L + "daemon/show_motd.rs"), m("Pager", L + "daemon/pager.rs"), m("handle_attach", L + "daemon/server.rs")],
  SE, SIMNOTE)
D("H01", "Starting and ending a daemon leaves other daemons and no traces",
  "A daemon starts and listens on its two sockets whatever a daemon which was killed left behind, and on SIGTERM, SIGINT or SIGQUIT at any time it ends with both sockets removed, but for one passed by systemd. "
  "A daemon started on the socket of one which is running ends with an error and leaves that one, its sessions, clients and subscribers alone.",
  ["inputs", "crash points", "histories"], "all combinations of what was left behind, of both sockets' places, and of signals",
  "Tests start daemons in fresh directories; leftovers of killed daemons and second daemons on one socket are sampled once or not at all.",
  [L + "daemon/mod.rs", L + "daemon/signals.rs", L + "daemon/events.rs"],
  [m("run", L + "daemon/mod.rs"), m("Handler", L + "daemon/signals.rs"), m("EventBus::start", L + "daemon/events.rs")],
  SE, SIMNOTE)
D("Z01", "Clients launch one daemon in the background when there is none",
  "A client which finds no daemon launches exactly one on its socket with its configuration, unless the configuration or -D says not to, and then works, or fails if none comes up within 5 s (never, with nodaemonize_timeout); a running daemon is used and never cut off. "
  "The launched daemon leaves the client's session, terminal and directory, keeps its umask, writes and locks its pid file, refuses to run twice, takes note of changes of its configuration, and leaves no files when told to end.",
  ["inputs", "interleavings", "timings", "histories"], "all combinations of options, places and states listed, one hold-up of any length up to 60 ms at any system call",
  "Tests launch a daemon once in a clean directory; races between clients and daemons, relative paths, slow starts and what is inherited are not sampled.",
  [L + "daemonize.rs", L + "lib.rs", L + "daemon/mod.rs"],
  [m("maybe_launch_daemon", L + "daemonize.rs"), m("daemonize", L + "daemonize.rs"), m("run", L + "lib.rs")],
  SE, SIMNOTE)
D("G01", "The configuration is that of the files, whatever happens to them",
  "Each setting comes from the user's file ($XDG_CONFIG_HOME or ~/.config), else from /etc/shpool/config.toml, or only from the file given with -c; a file which makes no sense is an error at the start. "
  "A running daemon goes by the files' new contents within half a second after any of them is created, written, replaced, renamed away or removed (with its directory or without), again and again, and keeps the last usable configuration while a file makes no sense.",
  ["inputs", "interleavings", "histories", "timings"], "all settings; all histories of two (thorough: three) of nine kinds of events on two files from nine states; one hold-up of any length up to 60 ms at any system call",
  "Tests change one file in a few ways and wait in between; sequences, events lost or in quick succession, and files appearing while watches are set up are not sampled.",
  [L + "config.rs", L + "config_watcher.rs"],
  [m("Manager", L + "config.rs"), m("merge", L + "config.rs"), m("ConfigWatcher", L + "config_watcher.rs"), m("best_effort_watch", L + "config_watcher.rs")],
  SE, SIMNOTE)
D("J01", "A program which embeds shpool is told of what happens through its hooks",
  "The hooks of a program which embeds libshpool are called exactly once, with the session's name, for each session created, attached to again, or asked for in vain while another client is attached, for each client which leaves or is detached while the shell runs on, and for each session which ends, is killed or reaped while a client is attached; in that order, and for nothing else. "
  "An error returned by a hook changes nothing.",
  ["histories", "interleavings"], "all histories of three (thorough: four) operations on two names, hooks failing or not; two clients at once with one hold-up of any length up to 60 ms at any system call",
  "Tests check that each hook can fire once in one simple history; repeated, concurrent and failing ones are not sampled.",
  [L + "hooks.rs", L + "daemon/server.rs"],
  [m("Hooks", L + "hooks.rs"), m("handle_attach", L + "daemon/server.rs"), m("select_shell_desc", L + "daemon/server.rs"), m("turn_away", L + "daemon/server.rs")],
  SE, SIMNOTE)
