//! The message of the day.
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;

const DUMP: &str = "motd = \"dump\"\n";
const PAGER: &str = "[motd.pager]\nbin = \"less\"\n";

/// The text a terminal shows for this, without trailing blank lines.
fn lines(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> =
        b.split(|c| *c == b'\n').map(|l| l.iter().copied().filter(|c| *c != b'\r').collect()).collect();
    while v.last().map(|l| l.is_empty()).unwrap_or(false) {
        v.pop();
    }
    v
}
/// Each line starts in the first column.
fn check_columns(b: &[u8]) {
    for i in 0..b.len() {
        if b[i] == b'\n' {
            check(i > 0 && b[i - 1] == b'\r' || b.get(i + 1) == Some(&b'\r'), "a line of the message does not start in the first column");
        }
    }
    check(b.is_empty() || b.ends_with(b"\r") || b.ends_with(b"\n"), "the shell's output does not start in a line of its own");
}
fn check_dump(got: &[u8], msg: &[u8], rest: &[u8]) {
    check(got.ends_with(rest), "the shell's output is lost");
    let d = &got[..got.len() - rest.len()];
    let (a, b) = (lines(d), lines(msg));
    check(a.len() == b.len(), "the message is not shown, or not only once");
    for (x, y) in a.iter().zip(b.iter()) {
        check(same(x, y), "the message is shown wrongly");
    }
    check_columns(d);
}

/// Shown to the first client of a new session, and only then.
pub fn dump() {
    boot();
    let mode = choose(3, "mode");
    let v: [u8; 2] = sym_array("text");
    assume(v[0] < 128 && v[1] < 128 && v[0] != b'\r' && v[1] != b'\r');
    let mut msg: Vec<u8> = vec![];
    let mut cfg = String::new();
    match choose(6, "where") {
        0 => {}
        1 => {
            msg.extend_from_slice(&v);
            put_file("/etc/motd", &msg);
            put_file("/run/motd", b"not this");
        }
        2 => {
            msg.extend_from_slice(b"one\n");
            msg.extend_from_slice(&v);
            msg.push(b'\n');
            put_file("/run/motd", &msg);
        }
        3 => {
            msg.extend_from_slice(b"\n\ntwo");
            msg.extend_from_slice(&v);
            put_file("/etc/news", &msg);
            put_file("/etc/motd", b"not this");
            cfg.push_str("motd_args = [\"motd=/etc/news\"]\n");
        }
        4 => {
            msg = vec![b'm'; [16383, 16384, 20000, 40000][choose(4, "size") as usize]];
            msg[9000] = b'\n';
            put_file("/etc/motd", &msg);
        }
        _ => {
            // not a text
            put_file("/etc/motd", &[b'x', 0xff, b'y']);
        }
    }
    if mode != 1 {
        msg.clear();
    }
    cfg.push_str(["", DUMP, "motd = \"never\"\n"][mode as usize]);
    let _d = daemon(&cfg);
    let mut c = Client::named("s");
    check(c.created(), "the session is not created");
    settle();
    let early = choose_bool("early");
    if early {
        // leaves before anything is shown
        c.hangup();
        advance(700 * MS);
        c = Client::named("s");
        check(c.reattached(), "cannot attach");
        advance(100 * MS);
    }
    output(0, b"$ ");
    advance(60 * MS);
    c.pump();
    check_dump(&c.data, &msg, b"$ ");
    check(c.max_chunk <= 16 * 1024, "a frame clients do not accept");
    output(0, b"more");
    advance(60 * MS);
    c.pump();
    check_dump(&c.data, &msg, b"$ more");
    check(!c.eof, "the client is dropped");
    c.hangup();
    advance(700 * MS);
    let mut c = Client::named("s");
    check(c.reattached(), "cannot attach again");
    advance(100 * MS);
    output(0, b"on");
    advance(60 * MS);
    c.pump();
    check(same(&c.data, b"on"), "the message is shown again, or output is lost");
    check(k().procs.len() == 1, "something is run to show the message");
    reach("dump");
}

/// The file the pager is to show, while there is one.
fn pager_file() -> Option<Vec<u8>> {
    let d = match lookup("/tmp", true) {
        Ok(Found { ino: Some(i), .. }) => i,
        _ => fail("no /tmp"),
    };
    let mut f = None;
    if let Node::Dir(es) = &k().ino[d].node {
        for (n, i) in es {
            check(f.is_none(), "files are left behind");
            check(n.starts_with("shpool_pager"), "an odd file");
            check(k().ino[*i].mode & 0o077 == 0, "others may read or write the pager's file");
            if let Node::File(b) = &k().ino[*i].node {
                f = Some(b.clone());
            }
        }
    }
    f
}
/// Until a pager is up on the newest terminal.
fn pager_up(n: usize) -> usize {
    let mut i = 0;
    while k().ptys.len() < n || k().ptys[n - 1].pid == 0 {
        advance(5 * MS);
        i += 1;
        check(i < 100, "no pager is run");
    }
    advance(20 * MS);
    let p = k().procs.len() - 1;
    k().procs[p].term = Hup::Die;
    n - 1
}
fn winsize(pty: usize) -> (u16, u16) {
    let w = k().ptys[pty].winsize;
    (w.0, w.1)
}
fn gone(pty: usize) -> bool {
    proc_state(pid_of(pty)) != P::Alive
}

/// The pager is shown, then the session.
pub fn pager() {
    boot();
    limit(60 * SEC);
    put_file("/etc/motd", b"\x1b[1mhello\x1b[0m\nworld\n");
    let _d = daemon(PAGER);
    let mut sub = Sub::open();
    let mut c = Client::named("s");
    check(c.created(), "the session is not created");
    let again = choose_bool("again");
    let mut p = pager_up(2);
    if again {
        exit(p, 0);
        advance(700 * MS);
        c.hangup();
        advance(700 * MS);
        c = Client::named("s");
        check(c.reattached(), "cannot attach again");
        p = pager_up(3);
    }
    check(
        pager_file().map(|f| same(&f, b"hello\nworld\n")).unwrap_or(false),
        "the pager is not given the message",
    );
    check(winsize(p) == (24, 80), "the pager's terminal has another size");
    check(listed("s").map(|s| is_attached(&s)).unwrap_or(false), "the session is not listed as attached");
    check(Client::named("s").busy(), "a second client gets in");
    let b: [u8; 2] = sym_array("bytes");
    output(p, &b);
    advance(120 * MS);
    c.pump();
    check(same(&c.data, &b), "the pager's output is not shown");
    c.send(&b);
    advance(120 * MS);
    check(same(&input(p), &b), "the pager does not get what is typed");
    check(input(0).is_empty(), "the shell gets what is typed to the pager");
    let mut last = (24, 80);
    if choose_bool("resized") {
        let rows: u16 = 1 + choose(2, "rows") as u16 * 40;
        check(resize("s", [rows, 90, 0, 0]).is_some(), "no answer to a resize");
        last = (rows, 90);
        settle();
        check(winsize(p) == last, "the pager's terminal is not resized");
    }
    match choose(4, "end") {
        0 => {
            // with its last words
            let w: &[u8] = [&b"bye"[..], b""][choose(2, "words") as usize];
            output(p, w);
            exit(p, choose(2, "status") as i32);
            advance(700 * MS);
            c.pump();
            let mut want = b.to_vec();
            want.extend_from_slice(w);
            check(same(&c.data, &want), "the pager's last output is not shown");
            check(!c.eof, "the client is let go with the pager");
            check(winsize(0) == last, "the session's terminal has another size");
            c.data.clear();
            output(0, b"$ ");
            advance(100 * MS);
            c.pump();
            check(same(&c.data, b"$ "), "the shell's output is not shown after the pager");
            c.send(b"ls\n");
            advance(100 * MS);
            check(same(&input(0), b"ls\n"), "the shell does not get what is typed after the pager");
            check(resize("s", [33, 44, 0, 0]).is_some(), "no answer to a resize");
            settle();
            check(winsize(0) == (33, 44), "the session's terminal is not resized");
            reach("shown");
        }
        1 => {
            // the client leaves
            if choose_bool("stubborn") {
                let i = k().procs.len() - 1;
                k().procs[i].term = Hup::Ignore;
            }
            if choose_bool("noise") {
                output(p, b"x");
            }
            c.hangup();
            advance(3 * SEC);
            check(gone(p), "the pager stays behind");
            check(listed("s").map(|s| !is_attached(&s)).unwrap_or(false), "the session is not listed as disconnected");
            let e = sub.events();
            check(same(e.as_bytes(), if again { b"cadad" } else { b"cad" }), "the events are not those of a client leaving");
            check(listed("s").unwrap().last_disconnected_at_unix_ms.is_some(), "the time of leaving is not noted");
            let n = k().ptys.len();
            let mut c = Client::named("s");
            check(c.reattached(), "cannot attach again");
            let p = pager_up(n + 1);
            exit(p, 0);
            advance(700 * MS);
            output(0, b"$ ");
            advance(100 * MS);
            c.pump();
            check(c.data.ends_with(b"$ "), "the shell's output is not shown after the pager");
            reach("left");
        }
        2 => {
            // the shell ends
            exit(0, 7);
            advance(SEC);
            exit(p, 0);
            advance(2 * SEC);
            c.pump();
            check(c.exit == Some(7), "the exit status is lost");
            check(list().is_empty(), "a session without a shell is listed");
            reach("ended");
        }
        _ => {
            check(kill(&["s"]).not_found_sessions.is_empty(), "the session is not killed");
            check(list().is_empty(), "a killed session is listed");
            exit(p, 0);
            advance(2 * SEC);
            c.pump();
            check(c.eof, "the client of a killed session is kept");
            check(gone(0), "the shell of a killed session runs on");
            let c = Client::named("s");
            check(c.created(), "the name cannot be used again");
            reach("killed");
        }
    }
    advance(SEC);
    if k().procs.iter().skip(1).all(|p| p.st != P::Alive) {
        check(pager_file().is_none(), "the pager's file is left behind");
    }
}
/// The pager goes on and on, and its client does not read.
pub fn pager_stuck() {
    boot();
    limit(60 * SEC);
    put_file("/etc/motd", b"hello\n");
    let _d = daemon(PAGER);
    let mut o = Client::named("o");
    check(o.created(), "the session is not created");
    let q = pager_up(2);
    exit(q, 0);
    advance(700 * MS);
    let mut c = Client::named("s");
    check(c.created(), "the session is not created");
    let p = pager_up(4);
    let v: Vec<u8> = (0..400_000u32).map(|i| (i % 251) as u8).collect();
    output(p, &v);
    advance([10 * MS, SEC, 8 * SEC][choose(3, "for") as usize]);
    check(k().ptys[p].out.len() > 0, "the client is not stuck");
    check(list().len() == 2, "the sessions are not listed");
    check(listed("s").map(|s| is_attached(&s)).unwrap_or(false), "the session is not listed as attached");
    check(Client::named("s").busy(), "a second client gets in");
    output(0, b"$ ");
    advance(100 * MS);
    o.pump();
    check(same(&o.data, b"$ "), "another session stands still");
    check(resize("s", [30, 90, 0, 0]).is_some(), "no answer to a resize");
    settle();
    check(winsize(p) == (30, 90), "the pager's terminal is not resized");
    match choose(3, "end") {
        0 => {
            // the client reads again
            for _ in 0..20 {
                c.pump();
                advance(50 * MS);
            }
            check(same(&c.data, &v), "the pager's output is not shown");
            check(c.max_chunk <= 16 * 1024, "a frame clients do not accept");
            exit(p, 0);
            advance(700 * MS);
            output(2, b"$ ");
            advance(100 * MS);
            c.pump();
            check(c.data.ends_with(b"$ ") && c.data.len() == v.len() + 2, "the shell's output is not shown after the pager");
            check(winsize(2) == (30, 90), "the session's terminal has another size");
            reach("goes on");
        }
        1 => {
            c.hangup();
            advance(3 * SEC);
            check(gone(p), "the pager stays behind");
            check(listed("s").map(|s| !is_attached(&s)).unwrap_or(false), "the session is not listed as disconnected");
            check(pager_file().is_none(), "the pager's file is left behind");
            reach("left");
        }
        _ => {
            check(kill(&["s"]).not_found_sessions.is_empty(), "the session is not killed");
            check(list().len() == 1, "a killed session is listed");
            check(gone(2), "the shell of a killed session runs on");
            let n = k().ptys.len();
            let mut c2 = Client::named("s");
            check(c2.created(), "the name cannot be used again");
            let p2 = pager_up(n + 2);
            // only now it leaves
            c.hangup();
            advance(3 * SEC);
            check(gone(p), "the pager stays behind");
            exit(p2, 0);
            advance(700 * MS);
            output(n, b"$ ");
            advance(100 * MS);
            c2.pump();
            check(same(&c2.data, b"$ "), "the shell's output is not shown after the pager");
            check(pager_file().is_none(), "the pager's file is left behind");
            reach("killed");
        }
    }
}
/// The pager ends, with hold-ups anywhere.
pub fn pager_race() {
    boot();
    put_file("/etc/motd", b"hello\n");
    let _d = daemon(PAGER);
    let mut c = Client::named("s");
    check(c.created(), "the session is not created");
    let p = pager_up(2);
    preempt_any(1, 60);
    let what = choose(3, "what");
    output(p, b"x");
    advance(choose(2, "pause") as u64 * 5 * MS);
    output(p, b"bye");
    if what == 1 {
        c.send(b"q");
    }
    exit(p, 0);
    if what == 2 {
        check(resize("s", [30, 90, 0, 0]).is_some(), "no answer to a resize");
    }
    advance(500 * MS);
    no_preempt();
    advance(200 * MS);
    c.pump();
    check(same(&c.data, b"xbye"), "the pager's last output is not shown");
    check(!c.eof, "the client is let go with the pager");
    check(winsize(0) == if what == 2 { (30, 90) } else { (24, 80) }, "the session's terminal has another size");
    output(0, b"$ ");
    advance(100 * MS);
    c.pump();
    check(same(&c.data, b"xbye$ "), "the shell's output is not shown after the pager");
    c.send(b"ls\n");
    advance(100 * MS);
    let i = input(0);
    check(i.ends_with(b"ls\n"), "the shell does not get what is typed after the pager");
    reach("shown");
}
/// Not more often than asked for.
pub fn every() {
    boot();
    limit(100 * SEC);
    put_file("/etc/motd", b"hello\n");
    let _d = daemon("[motd.pager]\nbin = \"less\"\nshow_every = \"5s\"\n");
    let mut c = Client::named("s");
    check(c.created(), "the session is not created");
    let p = pager_up(2);
    exit(p, 0);
    advance(700 * MS);
    let mut n = 2;
    let mut since = k().now;
    for i in 0..3u32 {
        c.hangup();
        let gap = [SEC, 3 * SEC, 6 * SEC][choose(3, "gap") as usize];
        advance(gap);
        if i == 0 && choose_bool("clock") {
            // somebody sets the clock back
            k().wall0 -= 3600;
            check(true, "");
            c = Client::named("s");
            check(c.reattached(), "cannot attach again");
            advance(200 * MS);
            if k().ptys.len() > n {
                n = k().ptys.len();
                exit(n - 1, 0);
            }
            advance(700 * MS);
            output(0, b"$ ");
            advance(100 * MS);
            c.pump();
            check(c.data.ends_with(b"$ "), "cannot attach once the clock has been set back");
            reach("clock");
            return;
        }
        c = Client::named("s");
        check(c.reattached(), "cannot attach again");
        advance(200 * MS);
        let el = k().now - since;
        if el >= 6 * SEC + 500 * MS {
            let p = pager_up(n + 1);
            n += 1;
            exit(p, 0);
            since = k().now;
            reach("shown");
        } else if el <= 5 * SEC {
            check(k().ptys.len() == n, "the message is shown too often");
            reach("not shown");
        } else if k().ptys.len() > n {
            n += 1;
            exit(n - 1, 0);
            since = k().now;
        }
        advance(700 * MS);
        c.pump();
        c.data.clear();
        output(0, b"$ ");
        advance(100 * MS);
        c.pump();
        check(same(&c.data, b"$ "), "the shell's output is not shown");
    }
}
/// The pager cannot be run.
pub fn no_pager() {
    boot();
    let how = choose(3, "how") as usize;
    put_file("/etc/motd", &[&b"hello\n"[..], &[0xff], b"hello\n"][how]);
    if how == 2 {
        // nowhere to put the message
        dir_del(0, "tmp");
    }
    let _d = daemon(PAGER);
    let mut c = Client::named("s");
    check(c.created(), "the session is not created");
    advance(100 * MS);
    if k().ptys.len() > 1 {
        output(1, b"pager exec err\r\n");
        exit(1, 1);
        advance(700 * MS);
        c.pump();
        check(same(&c.data, b"pager exec err\r\n"), "the reason is not shown");
        reach("no exec");
    } else {
        advance(700 * MS);
        reach(["no exec", "no text", "no room"][how]);
    }
    output(0, b"$ ");
    advance(100 * MS);
    c.pump();
    check(c.data.ends_with(b"$ "), "the shell's output is not shown without a pager");
    check(!c.eof, "the client is let go without a pager");
    check(resize("s", [33, 44, 0, 0]).is_some(), "no answer to a resize");
    advance(100 * MS);
    check(winsize(0) == (33, 44), "the session's terminal is not resized");
    c.hangup();
    advance(700 * MS);
    let c = Client::named("s");
    check(c.reattached(), "the client does not get the session");
}
