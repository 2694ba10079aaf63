//! The attach command, against a scripted daemon and against the real one.
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;
use libshpool::verif::protocol::{self, ChunkExt};
use shpool_protocol::*;
use std::io::{Read, Write};
use std::os::unix::net::{UnixListener, UnixStream};

/// A daemon which does what the scenario says.
pub struct Fake {
    l: UnixListener,
}
impl Fake {
    pub fn new() -> Fake {
        let l = ok(UnixListener::bind(SOCK), "bind");
        ok(l.set_nonblocking(true), "nonblocking");
        Fake { l }
    }
    /// The next connection and what it asks.
    pub fn accept_as(&self, version: &str) -> Option<(UnixStream, ConnectHeader)> {
        settle();
        let s = match self.l.accept() {
            Ok((s, _)) => s,
            Err(_) => return None,
        };
        ok(protocol::encode_to(&VersionHeader { version: version.to_string() }, &s), "version");
        settle();
        ok(s.set_nonblocking(true), "nonblocking");
        let h = ok(protocol::decode_from(&s), "a client which sends no request");
        Some((s, h))
    }
    pub fn accept(&self) -> (UnixStream, ConnectHeader) {
        match self.accept_as(VERSION) {
            Some(x) => x,
            None => fail("the client does not connect"),
        }
    }
    pub fn vars(&self, vars: &[(&str, &str)]) {
        let (s, h) = self.accept();
        check(matches!(h, ConnectHeader::GetVars), "the client does not ask for the variables first");
        ok(protocol::encode_to(&switch(vars), &s), "reply");
    }
    pub fn attach(&self, status: AttachStatus) -> (UnixStream, AttachHeader) {
        let (s, h) = self.accept();
        let h = match h {
            ConnectHeader::Attach(h) => h,
            _ => fail("the client does not ask to be attached"),
        };
        ok(protocol::encode_to(&AttachReplyHeader { status }, &s), "reply");
        settle();
        (s, h)
    }
}
pub fn switch(vars: &[(&str, &str)]) -> MaybeSwitch {
    MaybeSwitch { switch_to: Default::default(), vars: vars.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() }
}
pub fn created() -> AttachStatus {
    AttachStatus::Created { warnings: vec![] }
}
pub fn take(s: &mut UnixStream) -> Vec<u8> {
    let mut v = vec![];
    let mut b = [0u8; 512];
    while let Ok(n) = s.read(&mut b) {
        if n == 0 {
            break;
        }
        v.extend_from_slice(&b[..n]);
    }
    v
}
pub fn frame(kind: ChunkKind, buf: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    ok(Chunk { kind, buf }.write_to(&mut v), "frame");
    v
}
fn put(s: &mut UnixStream, b: &[u8]) {
    let _ = s.write_all(b);
}

/// Frames and typing in any order and any splits, then an end of some kind.
pub fn pipe() {
    pipe_with(3, 0);
}
/// The same, ended by the end of the input.
pub fn eof() {
    pipe_with(1, 2);
}
fn pipe_with(ops: usize, first_end: u32) {
    boot();
    limit(30 * SEC);
    let before = k().con_termios;
    if first_end == 2 {
        // some of it may be pipes
        k().con_ttys = [7, 0, 6, 5, 3][choose(5, "terminal") as usize];
    }
    let tty = k().con_ttys;
    let f = Fake::new();
    attach_cmd(1, "", "s", false, false);
    f.vars(&[]);
    let (mut s, h) = f.attach(created());
    check(h.name == "s", "the client asks for another session");
    let z = &h.local_tty_size;
    let want = if tty & 1 != 0 { k().con_size } else { [24, 80, 0, 0] };
    check([z.rows, z.cols, z.xpixel, z.ypixel] == want, "the client gives another size than its terminal's");
    let mut out: Vec<u8> = vec![];
    let mut typed: Vec<u8> = vec![];
    let mut got: Vec<u8> = vec![];
    for _ in 0..ops {
        match choose(5, "op") {
            0 => break,
            1 => {
                let b: [u8; 2] = sym_array("data");
                out.extend_from_slice(&b);
                put(&mut s, &frame(ChunkKind::Data, &b));
            }
            2 => {
                let b: [u8; 2] = sym_array("data");
                out.extend_from_slice(&b);
                let v = frame(ChunkKind::Data, &b);
                let (at, gap) = [(1, 70), (3, 0), (5, 70), (6, 0)][choose(4, "split") as usize];
                put(&mut s, &v[..at]);
                advance(gap * MS);
                put(&mut s, &v[at..]);
            }
            3 => put(&mut s, &frame(ChunkKind::Heartbeat, &[])),
            _ => {
                let b: [u8; 2] = sym_array("typed");
                typed.extend_from_slice(&b);
                type_in(&b);
            }
        }
        if choose(2, "wait") == 1 {
            advance(60 * MS);
            check(same(&k().con_out, &out), "output is not shown at once");
            got.extend(take(&mut s));
            check(same(&got, &typed), "typing is not sent at once");
        }
        check(ended(1).is_none(), "the client ends");
    }
    check(same_termios(&k().con_termios, &before) == (tty != 7), "the terminal is not in raw mode, or without need");
    let end = if first_end == 2 { 2 } else { choose(2, "end") };
    let mut want = 1;
    match end {
        0 => {
            let c: [u8; 4] = sym_array("status");
            want = i32::from_le_bytes(c);
            put(&mut s, &frame(ChunkKind::ExitStatus, &c));
            settle();
            got.extend(take(&mut s));
            drop(s);
        }
        1 => {
            settle();
            got.extend(take(&mut s));
            drop(s);
        }
        _ => {
            close_stdin();
            if choose(2, "status") == 1 {
                advance(any_ms("late", 200));
                let c: [u8; 4] = sym_array("status");
                want = i32::from_le_bytes(c);
                put(&mut s, &frame(ChunkKind::ExitStatus, &c));
            }
            settle();
            got.extend(take(&mut s));
        }
    }
    advance(SEC);
    match ended(1) {
        Some(c) => check(c == want, "the client ends with another status than the shell"),
        None => fail("the client does not end"),
    }
    check(same(&k().con_out, &out), "the output shown is not the output sent");
    check(same(&got, &typed), "the input sent is not the input typed");
    check(same_termios(&k().con_termios, &before), "the terminal's settings are not restored");
    reach(["exit", "lost", "eof"][end as usize]);
}

/// Output, typing, the end of the input and the end of the shell at about the
/// same time, with any thread of the client held up.
pub fn race() {
    boot();
    limit(30 * SEC);
    let before = k().con_termios;
    let f = Fake::new();
    attach_cmd(1, "", "s", false, false);
    f.vars(&[]);
    let (mut s, _) = f.attach(created());
    advance(10 * MS);
    preempt_any(1, 120);
    let b: [u8; 2] = *b"ab";
    type_in(b"xy");
    let mut v = frame(ChunkKind::Data, &b[..1]);
    v.extend(frame(ChunkKind::Data, &b[1..]));
    let at = [0, 3, v.len()][choose(3, "split") as usize];
    put(&mut s, &v[..at]);
    if choose(2, "pause") == 1 {
        advance(55 * MS);
    }
    let eof = choose(2, "eof") == 1;
    if eof {
        close_stdin();
    }
    put(&mut s, &v[at..]);
    let c: [u8; 4] = sym_array("status");
    put(&mut s, &frame(ChunkKind::ExitStatus, &c));
    let slow = choose(2, "close") == 0;
    let mut typed = vec![];
    if slow {
        advance(200 * MS);
        typed = take(&mut s);
    }
    drop(s);
    advance(SEC);
    match ended(1) {
        Some(x) => check(x == i32::from_le_bytes(c), "the client ends with another status than the shell"),
        None => fail("the client does not end"),
    }
    check(same(&k().con_out, &b), "the output shown is not the output sent");
    if slow {
        check(same(&typed, &b"xy"[..typed.len().min(2)]), "the input sent is not the input typed");
    }
    check(same_termios(&k().con_termios, &before), "the terminal's settings are not restored");
    reach(if eof { "eof" } else { "exit" });
}

/// A terminal or a daemon which does not take what it is given.
pub fn stuck() {
    boot();
    limit(60 * SEC);
    let before = k().con_termios;
    k().sock_cap = 3000;
    let f = Fake::new();
    attach_cmd(1, "", "s", false, false);
    f.vars(&[]);
    let (mut s, _) = f.attach(created());
    let n = [1usize, 5000, 16384][choose(3, "n") as usize];
    let mut v: Vec<u8> = vec![b'x'; n];
    v[n / 2] = b'\n';
    v[n - 1] = sym_array::<1>("last")[0];
    let room = [usize::MAX, 0, 1000][choose(3, "room") as usize];
    k().con_room = room;
    let typed = [0usize, 2, 9000][choose(3, "typed") as usize];
    type_in(&vec![b'y'; typed]);
    let fr = frame(ChunkKind::Data, &v);
    let mut sent = 0;
    ok(s.set_nonblocking(true), "nonblocking");
    for _ in 0..100 {
        if sent == fr.len() {
            break;
        }
        match s.write(&fr[sent..]) {
            Ok(k) => sent += k,
            Err(_) => {
                settle();
                if k().con_room == 0 {
                    break;
                }
            }
        }
    }
    advance(100 * MS);
    let blocked = k().con_room == 0;
    if !blocked {
        check(sent == fr.len() && same(&k().con_out, &v), "the output shown is not the output sent");
    }
    let reads = choose(2, "reads") == 1;
    if reads {
        let mut got = 0;
        loop {
            let n = take(&mut s).len();
            got += n;
            if n == 0 {
                break;
            }
            settle();
        }
        check(got == typed, "the input sent is not the input typed");
    }
    // whatever is stuck, the client ends when it is told to or left alone
    let how = choose(3, "how");
    let mut want = Some(1);
    match how {
        0 => {
            if sent < fr.len() {
                return;
            }
            let c: [u8; 4] = sym_array("status");
            put(&mut s, &frame(ChunkKind::ExitStatus, &c));
            want = Some(i32::from_le_bytes(c));
            if blocked {
                // nobody can see the status while the terminal is stuck
                k().con_room = usize::MAX;
                wake(K_CON, usize::MAX);
            }
        }
        1 => {
            drop(s);
            if blocked {
                k().con_room = usize::MAX;
                wake(K_CON, usize::MAX);
            }
        }
        _ => close_stdin(),
    }
    advance(2 * SEC);
    if how == 2 && typed == 9000 && !reads {
        want = None;
    }
    if let Some(w) = want {
        match ended(1) {
            Some(x) => check(x == w, "the client ends with another status than the shell"),
            None => fail("the client does not end"),
        }
        check(same_termios(&k().con_termios, &before), "the terminal's settings are not restored");
    }
    reach(["exit", "lost", "eof"][how as usize]);
}

fn bad_name(n: &str) -> bool {
    n.is_empty() || n == "." || n == ".." || n.chars().any(|c| c == '/' || c.is_whitespace())
}
/// What the client asks for next: to be attached, or nothing.
fn wants(f: &Fake, status: AttachStatus) -> Option<(UnixStream, AttachHeader)> {
    advance(400 * MS);
    let (s, h) = f.accept_as(VERSION)?;
    let h = match h {
        ConnectHeader::Attach(h) => h,
        _ => fail("the client does not ask to be attached"),
    };
    ok(protocol::encode_to(&AttachReplyHeader { status }, &s), "reply");
    settle();
    Some((s, h))
}

/// Which session a template and the variables name, through changes of them.
pub fn switches() {
    boot();
    limit(60 * SEC);
    let before = k().con_termios;
    let f = Fake::new();
    let tmpl = ["{w}", "x{w}", "{w}{v}", "s"][choose(4, "tmpl") as usize];
    let mut w: Vec<u8> = vec![];
    let mut v = "";
    let name = |w: &[u8], v: &str| -> String {
        let w = unsafe { std::str::from_utf8_unchecked(w) };
        match tmpl {
            "{w}" => w.to_string(),
            "x{w}" => format!("x{w}"),
            "{w}{v}" => format!("{w}{v}"),
            _ => "s".to_string(),
        }
    };
    let some = |w: &mut Vec<u8>, v: &mut &str| {
        match choose(3, "value") {
            0 => w.clear(),
            1 => {
                let b: [u8; 1] = sym_array("w");
                if b[0] >= 128 {
                    return false;
                }
                *w = b.to_vec();
            }
            _ => *w = b"..".to_vec(),
        }
        *v = ["", "b"][choose(2, "v") as usize];
        true
    };
    if !some(&mut w, &mut v) {
        return;
    }
    attach_cmd(1, "", tmpl, choose(2, "force") == 1, false);
    let ws = |w: &[u8]| unsafe { std::str::from_utf8_unchecked(w) }.to_string();
    f.vars(&[("w", &ws(&w)), ("v", v)]);
    let mut out: Vec<u8> = vec![];
    let mut conn: Option<(UnixStream, AttachHeader)> = None;
    let mut cur: Option<String> = None;
    for round in 0..3 {
        let n = name(&w, v);
        if round > 0 && cur.as_ref() == Some(&n) {
            // nothing changes for this client
            advance(200 * MS);
            check(f.accept_as(VERSION).is_none(), "the client moves although the name of its session is the same");
        } else {
            if let Some((s, _)) = &mut conn {
                advance(200 * MS);
                let mut b = [0u8; 8];
                check(matches!(s.read(&mut b), Ok(0)), "the client stays in its session although the name changed");
            }
            match wants(&f, created()) {
                Some(x) => {
                    check(!bad_name(&n), "the client asks for a session of an illegal name");
                    check(same(x.1.name.as_bytes(), n.as_bytes()), "the client asks for another session than the template names");
                    check(x.1.name_template == tmpl, "the client does not tell its template");
                    conn = Some(x);
                }
                None => {
                    check(bad_name(&n), "the client does not ask for the session the template names");
                    check(ended(1) == Some(0), "the client does not end");
                    check(same_termios(&k().con_termios, &before), "the terminal's settings are not restored");
                    reach("refused");
                    return;
                }
            }
            cur = Some(n);
        }
        let s = match &mut conn {
            Some((s, _)) => s,
            None => return,
        };
        let b = [b'0' + round as u8];
        out.extend_from_slice(&b);
        put(s, &frame(ChunkKind::Data, &b));
        type_in(b"t");
        advance(60 * MS);
        check(same(&k().con_out, &out), "output is not shown");
        check(take(s) == b"t", "typing is not sent");
        check(!same_termios(&k().con_termios, &before), "the terminal is not in raw mode");
        if round < 2 {
            if !some(&mut w, &mut v) {
                return;
            }
            let mut m = vec![];
            ok(protocol::encode_to(&switch(&[("w", &ws(&w)), ("v", v)]), &mut m), "encode");
            put(s, &frame(ChunkKind::MaybeSwitch, &m));
            settle();
        }
    }
    reach("attached");
}

/// What the client makes of the answers it may get.
pub fn answers() {
    boot();
    limit(60 * SEC);
    let before = k().con_termios;
    let f = Fake::new();
    let force = choose(2, "force") == 1;
    let background = choose(2, "background") == 1;
    attach_cmd(1, "", "s", force, background);
    f.vars(&[]);
    let busy = choose(25, "busy") as usize;
    let mut asked = 0;
    let mut detached = 0;
    let last = choose(4, "last");
    let status = |last: u32| match last {
        0 => created(),
        1 => AttachStatus::Attached { warnings: vec!["w".to_string()] },
        2 => AttachStatus::Forbidden("no".to_string()),
        _ => AttachStatus::UnexpectedError("no".to_string()),
    };
    let conn = loop {
        let (s, h) = match f.accept_as(VERSION) {
            Some(x) => x,
            None => break None,
        };
        match h {
            ConnectHeader::Attach(h) => {
                check(h.name == "s", "the client asks for another session");
                asked += 1;
                if asked <= busy {
                    ok(protocol::encode_to(&AttachReplyHeader { status: AttachStatus::Busy }, &s), "reply");
                } else {
                    ok(protocol::encode_to(&AttachReplyHeader { status: status(last) }, &s), "reply");
                    break Some(s);
                }
            }
            ConnectHeader::Detach(r) => {
                check(force && busy > 0, "a client which was not told to detaches another");
                check(r.sessions == ["s"], "the client detaches another session");
                detached += 1;
                let r = DetachReply { not_found_sessions: vec![], not_attached_sessions: vec![] };
                ok(protocol::encode_to(&r, &s), "reply");
            }
            _ => fail("an unexpected request"),
        }
        advance(110 * MS);
    };
    advance(110 * MS);
    if busy > 0 {
        check(force == (detached == 1) && detached <= 1, "a forced attach does not detach the other client once");
    }
    let mut conn = match conn {
        Some(s) => s,
        None => {
            if force {
                check(busy > 20, "a forced attach gives up at once");
                check(ended(1) == Some(1), "a forced attach which fails does not say so");
            } else {
                check(busy > 0 && ended(1).is_some(), "the client does not ask to be attached");
                check(asked == 1, "a client which is told that the session is busy asks again");
            }
            check(same_termios(&k().con_termios, &before), "the terminal's settings are not restored");
            reach("busy");
            return;
        }
    };
    check(force || busy == 0, "a client which is told that the session is busy asks again");
    if last >= 2 {
        check(ended(1) == Some(1), "a client which was turned down does not say so");
        reach("denied");
        return;
    }
    if background {
        // lets go of the session, whose shell stays
        let mut b = [0u8; 8];
        check(matches!(conn.read(&mut b), Ok(0)), "a background attach stays attached");
        match f.accept_as(VERSION) {
            Some((s, ConnectHeader::Detach(r))) => {
                check(r.sessions == ["s"], "the client detaches another session");
                let already = choose(2, "already") == 1;
                let r = DetachReply {
                    not_found_sessions: vec![],
                    not_attached_sessions: if already { vec!["s".to_string()] } else { vec![] },
                };
                ok(protocol::encode_to(&r, &s), "reply");
            }
            _ => fail("a background attach does not make sure that it is detached"),
        }
        settle();
        check(ended(1) == Some(0), "a background attach does not end well");
        check(k().con_termlog.is_empty(), "a background attach touches the terminal");
        reach("background");
        return;
    }
    put(&mut conn, &frame(ChunkKind::Data, b"d"));
    advance(60 * MS);
    check(k().con_out == b"d", "output is not shown");
    reach("attached");
}

/// The real client and the real daemon.
pub fn whole() {
    boot();
    limit(60 * SEC);
    let before = k().con_termios;
    let _d = daemon("");
    let pre = choose(3, "pre");
    let mut other = None;
    if pre > 0 {
        let mut c = Client::named("s");
        check(c.created(), "the session is not created");
        advance(60 * MS);
        if pre == 1 {
            c.hangup();
            advance(700 * MS);
        } else {
            other = Some(c);
        }
    }
    attach_cmd_to(1, "", "s", pre == 2, false, Some("cat"));
    advance(400 * MS);
    if let Some(c) = &mut other {
        c.pump();
        check(c.eof, "a forced attach does not let the other client go");
    }
    check(k().ptys.len() == 1, "a second shell is started");
    check(ended(1).is_none(), "the client ends");
    preempt_any(1, 60);
    let b: [u8; 2] = sym_array("out");
    output(0, &b);
    type_in(b"hi");
    advance(80 * MS);
    let end = choose(5, "end");
    let mut want = 0;
    match end {
        0 => {
            let c: [u8; 1] = sym_array("status");
            want = c[0] as i32;
            output(0, b"!");
            exit(0, c[0] as i32);
        }
        1 => {
            want = 1;
            killed_by(0, 9);
        }
        2 => type_in(&[0, 17]),
        3 => {
            detach(&["s"]);
        }
        _ => {
            kill(&["s"]);
        }
    }
    advance(2500 * MS);
    no_preempt();
    advance(500 * MS);
    match ended(1) {
        Some(c) => {
            if end < 4 {
                check(c == want, "the client ends with another status than the shell");
            }
        }
        None => fail("the client does not end"),
    }
    let n = k().con_out.len().saturating_sub((end == 0) as usize);
    check(n >= 2 && same(&k().con_out[n - 2..n], &b), "the output shown is not what the shell printed");
    check(end != 0 || k().con_out[n] == b'!', "the last output is not shown");
    check(input(0).starts_with(b"hi"), "the shell does not get what was typed");
    check(same_termios(&k().con_termios, &before), "the terminal's settings are not restored");
    reach(["exit", "killed", "key", "detach", "kill"][end as usize]);
}
