"""Which harness entries decide which property, and within what bounds."""
GROUPS = ["keys", "chunk", "duration", "etcenv", "sentinel", "template", "daemon"]


def E(entry, bounds, deadline=240, reach=(), **k):
    return dict(entry=entry, bounds=bounds, deadline=deadline, reach=list(reach), **k)


PROPS = {
    "K01": dict(groups=["keys"], entries=[
        E("h_keys_table", "every documented chord (44 keys, with and without Ctrl) against every input byte",
          reach=["match", "nomatch"]),
        E("h_keys_one", "one binding of 1..3 chords from {a, Ctrl-a, Ctrl-@, Ctrl-Space}, every stream of 5 bytes",
          reach=["match", "partial", "broken"]),
        E("h_keys_two", "two bindings of 1..2 chords from {a, Ctrl-a, Ctrl-@, Ctrl-Space, Ctrl-2}, every stream of 3 bytes",
          reach=["match", "partial", "broken"]),
        E("h_keys_text", "every ascii binding text of 0..3 characters", reach=["accepted", "rejected"]),
        E("h_keys_frags", "every concatenation of up to 4 fragments of the binding language",
          reach=["accepted", "rejected"]),
    ]),
    "C01": dict(groups=["chunk"], entries=[
        E("h_chunk_roundtrip", "1..2 chunks of every kind with 0..5 arbitrary payload bytes, every split of the stream into reads of one byte or all",
          reach=["read"]),
        E("h_chunk_robust", "every wire string of 0..8 bytes, receive buffers of 0, 2, 4 and 6 bytes",
          reach=["accepted", "rejected"]),
    ]),
    "D01": dict(groups=["duration"], entries=[
        E("h_duration_short", "every ascii string of 0..4 characters", reach=["accepted", "rejected"]),
        E("h_duration_wide", "numbers of 17..20 digits (leading two and last digit arbitrary, the rest 9), every unit and colon position",
          reach=["accepted", "rejected"]),
    ]),
    "E01": dict(groups=["etcenv"], entries=[
        E("h_etcenv", "every 0..3 byte string placed after each of 4 line prefixes, with and without following lines",
          reach=["pair", "undecodable"]),
    ]),
    "T01": dict(groups=["template"], entries=[
        E("h_template", "every ascii template of 0..5 characters, a variable with an arbitrary 2 character value, an empty one, and one whose value looks like a template",
          reach=["accepted", "rejected"]),
        E("h_template_frags", "every sequence of 1..4 fragments (three references, text, lone braces) with every combination of variable values from {arbitrary 2 characters, references to each other, empty}",
          reach=["accepted", "rejected"]),
    ]),
    "I01": dict(groups=["daemon"], entries=[
        E("h_input_default", "5 arbitrary bytes typed to a daemon with the default binding, every split into reads",
          reach=["hit", "detached", "typed"]),
        E("h_input_other", "the same with 4 other sets of bindings (overlapping, self-overlapping, no-op and detaching)",
          reach=["hit", "detached", "typed"]),
    ]),
    "O01": dict(groups=["daemon"], entries=[
        E("h_output_bursts", "0..3 bursts of 2 arbitrary bytes with 4 kinds of pause between them, then nothing, an exit with any status or a death by signal, which may leave a background job on the terminal",
          reach=["running", "exited", "heartbeat"]),
        E("h_output_bulk", "1..40000 bytes, pty reads limited to 3 sizes, 6 combinations of socket buffer and client pace, with and without an exit",
          reach=["running", "exited"]),
        E("h_output_race", "two bursts and maybe an exit, any daemon thread held up for any 0..200 ms at any one synchronisation point or system call",
          reach=["running", "exited"]),
        E("h_output_reattach", "a shell which prints and ends with any status, any 0..255 ms after a client asked to be attached again", reach=["exited"]),
        E("h_output_linger", "a shell which prints and ends with any status while a client is attached or none is, leaving a background job behind which holds the terminal and prints every 3, 40 or 170 ms", reach=["exited", "alone"]),
        E("h_output_race2", "the same as h_output_race with two hold-ups of 0, 20 or 120 ms", reach=["running", "exited"], thorough_only=True),
    ]),
    "A01": dict(groups=["daemon"], entries=[
        E("h_attach_pair", "two clients asking for one name which is new, running, attached, or ended (maybe with a background job left on its terminal), any daemon thread held up for any 0..40 ms at any one point",
          reach=["kept", "won"]),
        E("h_attach_handover", "a client leaving in 4 ways while another asks to attach at once, a moment or 210 ms later, any daemon thread held up for any 0..50 ms at any one point",
          reach=["taken", "busy"]),
        E("h_attach_gap", "the same without hold-ups and any 0..255 ms between the two", reach=["taken", "busy"]),
        E("h_attach_handover2", "the same with two hold-ups", reach=["taken", "busy"], thorough_only=True),
    ]),
    "S01": dict(groups=["daemon"], entries=[
        E("h_sess_one", "every history of 5 operations on one name out of attach, hang up, detach by key or request, exit, kill (polite or stubborn shell), kill of several names",
          reach=["session", "reused"]),
        E("h_sess_two", "every history of 4 such operations on two names", reach=["session", "reused"]),
        E("h_sess_clash", "two of exit, hang up, detach, kill, attach, detach request at about the same time, any daemon thread held up (0 or 200 ms) at any one point",
          reach=["killed", "again", "back"]),
        E("h_sess_gap", "two such operations any 0..255 ms apart", reach=["killed", "again", "back"]),
        E("h_sess_linger", "every history of 5 operations on one name whose shells leave background jobs on their terminals", reach=["session", "reused"]),
        E("h_sess_one_deep", "every history of 6 operations on one name", reach=["session", "reused"], thorough_only=True),
        E("h_sess_two_deep", "every history of 5 operations on two names", reach=["session", "reused"], thorough_only=True),
        E("h_sess_clash2", "clashes with hold-ups of any 0..60 ms", reach=["killed", "again", "back"], thorough_only=True),
    ]),
    "L01": dict(groups=["daemon"], entries=[
        E("h_ttl_one", "every history of 4 operations (attach with a ttl of none, 0, 1, 2 or 2^64-1 s, attach again, kill, exit, hang up) on one name, 330 or 1570 ms apart",
          reach=["reaped", "kept"]),
        E("h_ttl_two", "the same with 3 operations on two names", reach=["reaped", "kept"]),
        E("h_ttl_any", "the same with 3 operations on one name, any multiple of 10 ms up to 2550 ms between the last two", reach=["reaped", "kept"]),
        E("h_ttl_clash", "the time running out just before or just after a hang up, exit, kill, detach or attach, with a polite or a stubborn shell, any daemon thread held up for any 0..200 ms at any one point",
          reach=["over", "renewed"]),
        E("h_ttl_one_deep", "every history of 5 operations on one name", reach=["reaped", "kept"], thorough_only=True),
        E("h_ttl_two_deep", "every history of 4 operations on two names", reach=["reaped", "kept"], thorough_only=True),
    ]),
    "V01": dict(groups=["daemon"], entries=[
        E("h_vars", "every sequence of 3 changes (set or unset of two variables, values of 0..2 arbitrary ascii characters) with a client which is its session's first or second, and another session which is absent, attached, detached, ended, or just ending",
          reach=["two", "told"]),
        E("h_vars_clash", "two changes of one variable at once, the other session in the same 5 states, any daemon thread held up for any 0..50 ms at any one point", reach=["told"]),
        E("h_vars_gap", "the same without hold-ups and any 0..100 ms between the two", reach=["told"]),
        E("h_vars_big", "values of 1000 to 40000 bytes", reach=["big"]),
        E("h_vars_deep", "every sequence of 4 changes", reach=["two", "told"], thorough_only=True),
    ]),
    "N01": dict(groups=["daemon"], entries=[
        E("h_event_bursts", "3 bursts of 1, 3, 40 or 70 events to a quick subscriber, one with any of 5 socket buffer sizes which reads slowly, not at all, or leaves, and one which comes later",
          reach=["complete", "dropped", "left"]),
        E("h_event_story", "every history of 5 operations on one session out of attach, hang up, detach by key or request, exit, kill", reach=["told"]),
        E("h_event_watch", "a subscriber which asks for the list on every event, while a client leaves in 3 ways, the shell ends, the session is killed, or another is created, any daemon thread held up for any 0..40 ms at any one point",
          reach=["known"]),
        E("h_event_race", "four events published by two threads while a subscriber comes and another leaves, any thread held up for any 0..60 ms at any one point", reach=["raced"]),
        E("h_event_race2", "the same with two hold-ups of 0 or 20 ms", reach=["raced"]),
    ]),
    "X01": dict(groups=["daemon"], entries=[
        E("h_client_pipe", "every sequence of 0..3 operations out of a data frame of 2 arbitrary bytes (whole, or split at 4 places with and without a pause), a heartbeat, and 2 arbitrary bytes typed, with and without waiting, then any exit status or a lost connection",
          reach=["exit", "lost"]),
        E("h_client_eof", "0..1 such operation, with all or some of its descriptors the terminal, then the end of the input with and without an exit status any 0..200 ms later", reach=["eof"]),
        E("h_client_race", "output, typing, the end of the input and any exit status at about the same time, any client thread held up for any 0..120 ms at any one point",
          reach=["exit", "eof"]),
        E("h_client_stuck", "frames of 1, 5000 and 16384 bytes to a terminal which takes all, 1000 or no bytes, 0, 2 or 9000 bytes typed to a daemon which reads or does not, then each kind of end",
          reach=["exit", "lost", "eof"]),
        E("h_client_whole", "the real client on the real daemon, to a new, a running and an attached session (forced), 2 arbitrary bytes printed, then an exit with any status, a death by signal, the detach key, a detach or a kill request, any thread held up for any 0..60 ms at any one point",
          reach=["exit", "killed", "key", "detach", "kill"]),
    ]),
    "X02": dict(groups=["daemon"], entries=[
        E("h_client_switch", "4 templates, every sequence of 3 states of two variables (unset, an arbitrary ascii character, a parent directory)", reach=["refused", "attached"]),
        E("h_client_answers", "with and without --force and --background, 0..24 busy answers, then every other answer", reach=["busy", "attached", "background", "denied"]),
    ]),
    "R01": dict(groups=["daemon"], entries=[
        E("h_resize_ops", "every history of 3 operations out of attach, resize, hang up (or attach to another session), 0 or 30 ms apart, each size with one arbitrary 16 bit coordinate",
          reach=["sized", "again", "kept"]),
        E("h_resize_any", "attach, attach and resize, or attach again, with any 64 bit size each", reach=["sized"]),
        E("h_resize_odd", "every history of 3 operations with sizes of 0, 1 and a few rows and columns, restoring the screen or lines", reach=["sized", "again", "kept"]),
        E("h_resize_race", "one or two resizes right after the reply to a first or later attach, any daemon thread held up for any 0..60 ms at any one point", reach=["new", "again"]),
        E("h_resize_winch", "the attach command's terminal resized once or twice, the first time any 0..255 ms after it starts, on a new, a running, and a busy session (forced)",
          reach=["new", "again", "forced"]),
        E("h_resize_winch_race", "the same right away (110 ms in if forced), any thread of either process held up for any 0..60 ms at any one point", reach=["new", "again", "forced"]),
        E("h_resize_moved", "the attach command's terminal resized any even number of 0..510 ms after a variable changes so that the client moves to a new or running session, and maybe again after it moves back", reach=["new", "there", "back"]),
        E("h_resize_moved_race", "the same right after the change, any thread of either process held up for any 0..60 ms at any one point", reach=["new", "there", "back"]),
        E("h_resize_ops_deep", "every history of 4 operations", reach=["sized", "again", "kept"], thorough_only=True),
    ]),
    "B01": dict(groups=["daemon"], entries=[
        E("h_restore_screen", "every output of 2 fragments out of 12 (text, line ends, colours, clearing, cursor moves, input modes, a cut off sequence) and an arbitrary byte, a client leaving before, between or after, another coming back with a terminal of the same size, larger or smaller",
          reach=["away", "here"]),
        E("h_restore_big", "screens of up to 45 lines of 950 or 1000 characters (more than two frames), resized or not", reach=["big", "small"]),
        E("h_restore_lines", "0..7 lines printed, a client leaving after each, restoring the last 2..4 lines or nothing, both engines, terminals of 2 rows, 2 spool sizes", reach=["simple", "vt100", "vterm"]),
        E("h_restore_few", "the same with terminals of 6 rows, restoring 1..4 lines", reach=["vt100", "vterm"]),
        E("h_restore_screen_deep", "every output of 3 fragments", reach=["away", "here"], thorough_only=True),
    ]),
    "W01": dict(groups=["daemon"], entries=[
        E("h_stuck_client", "a client which stops reading at any of the modelled points, output or not, then detach, force, kill, the shell's exit or nothing, each at any of several pauses; another session and its client", reach=["ended", "let go", "dropped", "recovered"]),
        E("h_stuck_client_race", "the same for detach, kill and exit, any daemon thread held up for 20 ms at any one point", reach=["ended", "let go"]),
        E("h_stuck_request", "a connection which sends nothing, any part of a request, an arbitrary byte, or leaves, while other requests are made", reach=["stay", "leave"]),
        E("h_stuck_answer", "a client which does not read the reply to its request", reach=["ok"]),
        E("h_stuck_shell", "a shell which does not read its input while its client sends more than the tty takes, then detach, force, kill, hang up or the shell's exit, or it reading again", reach=["let go", "ended", "went on"]),
        E("h_stuck_shell_race", "the same, any daemon thread held up for 20 ms at any one point", reach=["let go", "ended", "went on"]),
        E("h_stuck_force", "attach --force from the real attach command against a stuck client or shell", reach=["taken"]),
    ]),
    "Q01": dict(groups=["daemon", "sentinel"], entries=[
        E("h_sentinel_overlap", "sentinels AAB, ABAC and AB in every stream of 5 or 6 arbitrary bytes", reach=["fired"]),
        E("h_sentinel_real", "both sentinels after any of their own prefixes and any two bytes", reach=["fired"]),
        E("h_prompt_kinds", "bash, zsh, fish and another shell, nu or not, own command or not, 4 prompt prefixes, 3 start commands, output with 2 arbitrary bytes afterwards", reach=["set up", "as is"]),
        E("h_prompt_splits", "each sentinel split at any of 5 places, together with what follows or not, an arbitrary byte before it, the client leaving and coming back during the set-up", reach=["set up"]),
        E("h_prompt_big", "100..4096 bytes of output before the first sentinel, 0 or 3000 straight after it, 100..32760 before the second, 0..40000 after it", reach=["set up"]),
        E("h_prompt_late", "a shell which prints no sentinel for 89 seconds, or busily, or ends", reach=["slow", "gone"]),
        E("h_prompt_says", "both sentinels and another word, with and without a running daemon and with a configuration which makes no sense", reach=["said", "END"]),
        E("h_prompt_ends", "a shell which ends before, between or after the sentinels, any daemon thread held up for any 0..60 ms at any one point", reach=["ended"]),
        E("h_prompt_race", "both sentinels in one or two writes, any daemon thread held up for any 0..60 ms at any one point", reach=["set up"]),
    ]),
    "P01": dict(groups=["daemon"], entries=[
        E("h_spawn_env", "every combination of client TERM, forwarded variables, configured variables and TERM, /etc/environment with a 2 character arbitrary value, read or not", reach=["run"]),
        E("h_spawn_program", "2 login shells, 3 configured shells (one without its path) or not, 3 commands or none, 3 directories, norc or not, 0..2 other sessions and clients about", reach=["run", "not run"]),
        E("h_spawn_bad", "blank commands and ones with unbalanced quotes, with other sessions about, then another attach", reach=["turned down"]),
        E("h_spawn_nofork", "fork failing once, then another attach", reach=["turned down"]),
    ]),
    "Y01": dict(groups=["daemon"], entries=[
        E("h_files_links", "every history of 3 attaches (with or without an agent and a variable of 2 arbitrary characters) and leaves on two sessions, links wanted or not, the directory there before with any permissions or not, or a file in the place of the link", reach=["again", "ok", "busy"]),
        E("h_files_links_race", "two clients attaching to the same or two sessions at once, any daemon thread held up for any 0..60 ms at any one point", reach=["one", "both"]),
        E("h_files_names", "every ascii name of 0..3 characters and 8 others", reach=["bad", "good"]),
        E("h_start_apart", "two daemons on two sockets with a session of the same name, either created first, then one of them ended", reach=["apart"]),
        E("h_files_hopeless", "a session whose directory, link or variables file cannot be made in 5 ways, attached to twice, with and without an agent, and left in 2 ways", reach=["ok"]),
        E("h_files_links_deep", "every history of 4", reach=["again", "ok", "busy"], thorough_only=True, deadline=700),
    ]),
    "U01": dict(groups=["daemon"], entries=[
        E("h_peers", "every request from every other 32 bit user id and group, from any process", reach=["refused"]),
    ]),
    "M01": dict(groups=["daemon"], entries=[
        E("h_cli_ops", "kill and detach with up to two of four names, from outside and from within each session, default and given socket", reach=["fine", "bad"]),
        E("h_cli_lists", "up to two sessions, one with any name of one ASCII character; as text and as JSON", reach=["json", "text"]),
        E("h_cli_var", "list, list --json, get, set and unset with up to two variables, whose names may differ in case or length only, one with any value of one ASCII character", reach=["list", "json", "get", "set"]),
        E("h_cli_versions", "six commands against a daemon of any version d.d.d, one of 0.10.1, an odd version, one that is gone and none", reach=["no daemon", "odd", "silent", "warned"]),
        E("h_cli_events", "the events command from before and after a session was created, with and without its client leaving, up to its end", reach=["events"]),
        E("h_cli_level", "one or two log levels of 6, by command or request; a level which does not exist", reach=["set", "bad"]),
        E("h_cli_old", "attaching through a daemon of another version in the background, anew, by template and with --force, answered with any two bytes, a new line, more typed ahead or the end of the input", reach=["background", "waiting", "end", "went on"]),
        E("h_cli_attach", "every combination of options of attach, short and long, with any two character variable value in every templated one, and every kind of default_dir and forward_env", reach=["asked", "forced"]),
    ]),
    "M02": dict(groups=["daemon"], entries=[
        E("h_motd_dump", "dump, never and the default; /etc/motd, /run/motd and a configured file with any two ASCII bytes of text, 16 to 40 thousand bytes, and one that is no text; the client leaving before anything is shown or not", reach=["dump"]),
        E("h_motd_pager", "the pager of a new or an old session: any two bytes in each direction, resized or not, then ended with or without last words, left by the client (also if it ignores SIGTERM), or the shell ends or is killed meanwhile", reach=["shown", "left", "ended", "killed"]),
        E("h_motd_pager_race", "any thread of the daemon held up for any time up to 60 ms once at any system call while the pager ends, alone, while typed to, or while resized", reach=["shown"]),
        E("h_motd_pager_stuck", "400 kB from a pager whose client has not read for 10 ms, 1 s or 8 s, with another session about; then it reads, leaves, or its session is killed and made anew", reach=["goes on", "left", "killed"]),
        E("h_motd_every", "three attaches 1, 3 or 6 s apart with show_every = 5s, the clock set back an hour or not", reach=["shown", "not shown", "clock"]),
        E("h_motd_run", "which program the pager is, its environment with any two character forwarded variable, and its descriptors, with and without another session, on an old kernel or not", reach=["run"]),
        E("h_motd_no_pager", "a pager which cannot be run, a message which is no text, no directory to put the message in; resized, left and returned to afterwards", reach=["no exec", "no text", "no room"]),
    ]),
    "H01": dict(groups=["daemon"], entries=[
        E("h_start_alone", "default and given socket, and no $XDG_RUNTIME_DIR; each of both sockets left behind by a daemon which was killed, or not there, or no directory for them; used or not; any of its sockets lost; ended with each of SIGTERM, SIGINT and SIGQUIT", reach=["ended"]),
        E("h_start_apart", "two daemons on two sockets with a session of the same name, either created first, then one of them ended", reach=["apart"]),
        E("h_start_second", "a second daemon on the socket of one with a session, a client and subscribers", reach=["refused"]),
        E("h_start_early", "a signal while the daemon, held up for any 0..60 ms at any one system call, is starting, with and without leftovers", reach=["told", "killed"]),
        E("h_start_activated", "a socket passed by systemd, with and without a waiting client, and numbers of sockets which are not for this", reach=["END"]),
    ]),
    "Z01": dict(groups=["daemon"], entries=[
        E("h_auto_client", "default, absolute and relative socket; configuration in either file or given absolutely or relatively; nodaemonize, nodaemonize_timeout, -d and -D in every combination; no socket, a stale one, a live one; the daemon taking 0, 15, 1500 or 4500 ms or never coming up", reach=["running", "not wanted", "never up", "launched"]),
        E("h_auto_race", "a daemon coming up while the client, or the daemon, is held up for any 0..60 ms at any one system call, with and without a stale socket", reach=["found", "launched"]),
        E("h_auto_background", "each of the three processes going into the background, with no, a stale, an empty or a locked pid file, default and given socket; then attaching, a changed configuration, and SIGTERM", reach=["first", "second daemon", "intermediate", "background"]),
    ]),
    "J01": dict(groups=["daemon"], entries=[
        E("h_hooks_story", "every history of 3 operations (attach with or without a time to live, leave, detach by key or request, kill, end of the shell, others, refused) on two names, with hooks which fail or not", reach=["steps", "reaped"]),
        E("h_hooks_race", "two clients attaching at once, the first leaving or the shell ending meanwhile or not, any daemon thread held up for any 0..60 ms at any one point", reach=["both", "left", "ended"]),
        E("h_hooks_story_deep", "every history of 4", reach=["steps", "reaped"], thorough_only=True, deadline=700),
    ]),
    "G01": dict(groups=["daemon"], entries=[
        E("h_watch_merge", "every setting, in neither, either or both files, with two values; both places of the user's file, and a given one", reach=["END"]),
        E("h_watch_invalid", "five kinds of nonsense in either file, or in files which do not count", reach=["END", "explicit"]),
        E("h_watch_reload", "both files missing with or without their directory, or there; two of 9 kinds of events on either (written, replaced, replaced while in use, made invalid, removed alone or with the directory, renamed, events lost, watching failing), any 0..255 ms apart or not; then both changed again", reach=["END", "steps"]),
        E("h_watch_race", "one or two events, the daemon held up for any 0..60 ms at any one system call; then both changed again", reach=["END"]),
        E("h_watch_explicit", "a given file, by its full or a relative path; two events", reach=["END"]),
        E("h_watch_restless", "14 changes of one or both files, any 0..255 ms apart: written, replaced, or removed in between; the configuration is never older than half a second", reach=["END"]),
        E("h_watch_long", "three of 8 kinds of events", reach=["END", "steps"], thorough_only=True, deadline=700),
    ]),
}
