//! The size of the session's terminal follows its client's.
use crate::daemon::attach::newest;
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;
use shpool_protocol::*;

type Size = [u16; 4];
fn any_size() -> Size {
    [sym_u16("rows"), sym_u16("cols"), sym_u16("x"), sym_u16("y")]
}
/// One coordinate anything, the others told apart from all before.
fn some_size() -> Size {
    static mut N: u16 = 0;
    let n = unsafe {
        N += 4;
        N
    };
    let mut s = [n, n + 1, n + 2, n + 3];
    let i = choose(2, "coordinate") as usize;
    s[1 + i] = sym_u16("size");
    s
}
fn is(a: &Size, b: &Size) -> bool {
    (a[0] ^ b[0]) | (a[1] ^ b[1]) | (a[2] ^ b[2]) | (a[3] ^ b[3]) == 0
}
fn now(pty: usize) -> Size {
    let s = k().ptys[pty].winsize;
    [s.0, s.1, s.2, s.3]
}
fn sized(name: &str, s: Size) -> AttachHeader {
    let mut h = header(name);
    h.local_tty_size = tty(s);
    h
}
fn told(r: &Option<SessionMessageReply>) -> bool {
    matches!(r, Some(SessionMessageReply::Resize(ResizeReply::Ok)))
}

/// Histories of attaching, resizing and leaving.
pub fn ops() {
    ops_with("", 3, some_size);
}
pub fn ops_deep() {
    ops_with("", 4, some_size);
}
/// Any size at all.
pub fn any() {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    let mut w = any_size();
    let mut c = Client::attach(sized("s", w));
    check(c.created(), "the client is not attached");
    advance(60 * MS);
    match choose(3, "then") {
        0 => {}
        1 => {
            w = any_size();
            check(told(&resize("s", w)), "a resize is not answered");
        }
        _ => {
            c.hangup();
            advance(700 * MS);
            w = any_size();
            c = Client::attach(sized("s", w));
            check(c.reattached(), "the client is not attached");
        }
    }
    advance(250 * MS);
    check(is(&now(0), &w), "the session does not have the size it was given last");
    reach("sized");
}
/// The sizes a terminal has when nobody told it one, and other odd ones, with
/// each way to keep the screen.
pub fn odd() {
    let cfg = [
        "session_restore_mode = \"screen\"\n",
        "session_restore_mode = { lines = 2 }\n",
    ][choose(2, "mode") as usize];
    ops_with(cfg, 3, || [[0, 0, 0, 0], [0, 80, 0, 0], [1, 1, 0, 0], [3, 0, 0, 0], [24, 80, 0, 0]][choose(5, "size") as usize]);
}
fn ops_with(cfg: &str, n: usize, size: impl Fn() -> Size) {
    boot();
    limit(60 * SEC);
    let _d = daemon(cfg);
    let mut c: Option<Client> = None;
    let mut want: Option<Size> = None;
    let mut other = None;
    let mut again = false;
    let mut p = 0;
    for i in 0..n {
        match choose(3, "op") {
            0 if c.is_none() => {
                let s = size();
                if want.is_none() {
                    p = k().ptys.len();
                }
                let at = if want.is_some() { k().ptys[p].winlog.len() } else { 0 };
                let x = Client::attach(sized("s", s));
                check(if want.is_some() { x.reattached() } else { x.created() }, "the client is not attached");
                c = Some(x);
                if want.is_some() {
                    // programs redraw when the size changes, so it has to
                    advance(200 * MS);
                    let mut redraw = s[0] == u16::MAX && s[1] == u16::MAX;
                    for e in &k().ptys[p].winlog[at..] {
                        if e.1[0] != s[0] || e.1[1] != s[1] {
                            redraw = true;
                        }
                    }
                    check(redraw, "programs are not made to redraw when a client attaches again");
                    reach("again");
                    again = true;
                }
                want = Some(s);
            }
            0 => {
                // a client which is turned away has no say
                let x = Client::attach(sized("s", size()));
                check(x.busy(), "two clients are attached");
            }
            1 => {
                let s = size();
                let r = resize("s", s);
                if want.is_some() {
                    check(told(&r), "a resize is not answered");
                    want = Some(s);
                } else {
                    check(matches!(r, Some(SessionMessageReply::NotFound)), "a resize of an unknown session is not turned down");
                }
            }
            _ => {
                if let Some(x) = &mut c {
                    x.hangup();
                    c = None;
                    advance(700 * MS);
                } else if other.is_none() {
                    // another session has its own size
                    let s = [7, 9, 1, 2];
                    other = Some((k().ptys.len(), Client::attach(sized("o", s)), s));
                }
            }
        }
        if i + 1 < n && choose(2, "wait") == 1 {
            advance(30 * MS);
        }
    }
    advance(250 * MS);
    if let Some(w) = want {
        check(is(&now(p), &w), "the session does not have the size it was given last");
        if let Some(x) = &mut c {
            output(p, b"ok");
            advance(60 * MS);
            x.pump();
            check(!x.eof && x.data.ends_with(b"ok"), "an attached client does not get the shell's output");
        }
        reach(if again { "kept" } else { "sized" });
    }
    if let Some((p, x, s)) = &mut other {
        check(is(&now(*p), s), "another session is resized");
        x.pump();
        check(!x.eof, "an attached client is dropped");
    }
}

/// A resize right after the attach is answered, with any thread held up.
pub fn race() {
    race_with(1, 60);
}
fn race_with(n: u32, max: u8) {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    let pre = choose(2, "pre");
    if pre == 1 {
        let mut c = Client::attach(sized("s", [5, 6, 0, 0]));
        check(c.created(), "the session is not created");
        c.hangup();
        advance(700 * MS);
    }
    preempt_any(n, max);
    let c = Client::attach(sized("s", [10, 20, 0, 0]));
    check(if pre == 1 { c.reattached() } else { c.created() }, "the client is not attached");
    let two = choose(2, "two") == 1;
    check(told(&resize("s", [11, 22, 0, 0])), "a resize is not answered");
    let mut want = [11, 22, 0, 0];
    if two {
        check(told(&resize("s", [12, 24, 0, 0])), "a resize is not answered");
        want = [12, 24, 0, 0];
    }
    no_preempt();
    advance(400 * MS);
    check(is(&now(newest()), &want), "the session does not have the size it was given last");
    reach(["new", "again"][pre as usize]);
}

/// The terminal of the attach command is resized at any time.
pub fn winches() {
    winches_with(0);
}
pub fn winches_race() {
    winches_with(1);
}
fn winches_with(budget: u32) {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    let pre = choose(3, "pre");
    let mut other = None;
    if pre > 0 {
        let mut c = Client::attach(sized("s", [5, 6, 0, 0]));
        check(c.created(), "the session is not created");
        if pre == 1 {
            c.hangup();
            advance(700 * MS);
        } else {
            other = Some(c);
            advance(100 * MS);
        }
    }
    k().con_size = [24, 80, 7, 8];
    if budget > 0 {
        preempt_any(budget, 60);
    }
    attach_cmd_to(1, "", "s", pre == 2, false, Some("cat"));
    if budget == 0 {
        advance(any_ms("gap", 255));
    } else if pre == 2 {
        advance(110 * MS);
    }
    winch([30, 100, 9, 10]);
    if choose(2, "two") == 1 {
        if budget == 0 {
            advance([0, 30, 60][choose(3, "gap") as usize] * MS);
        }
        winch([31, 101, 9, 10]);
    }
    no_preempt();
    advance(1500 * MS);
    check(ended(1).is_none(), "the client ends");
    let w = k().con_size;
    check(is(&now(newest()), &w), "the session does not have the size of its client's terminal");
    drop(other);
    reach(["new", "again", "forced"][pre as usize]);
}

/// The same when the client moves to another session.
pub fn moved() {
    moved_with(0);
}
pub fn moved_race() {
    moved_with(1);
}
fn moved_with(budget: u32) {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    let there = choose_bool("there");
    let set = |v: &str| {
        let m = ModifyVarRequest { var: String::from("v"), val: Some(v.to_string()) };
        check(rpc::<ModifyVarReply>(&ConnectHeader::ModifyVar(m)).is_some(), "no answer");
    };
    if there {
        let mut c = Client::attach(sized("sb", [5, 6, 0, 0]));
        check(c.created(), "the session is not created");
        c.hangup();
        advance(700 * MS);
    }
    k().con_size = [24, 80, 7, 8];
    set("a");
    attach_cmd_to(1, "", "s{v}", false, false, Some("cat"));
    advance(500 * MS);
    let n = k().ptys.len();
    check(n == 1 + there as usize, "the session is not created");
    let old = n - 1;
    if budget > 0 {
        preempt_any(budget, 60);
    }
    set("b");
    if budget == 0 {
        advance(2 * any_ms("gap", 255));
    }
    winch([30, 100, 9, 10]);
    let again = choose_bool("back");
    if again {
        no_preempt();
        advance(1500 * MS);
        set("a");
        advance(1500 * MS);
        winch([31, 101, 9, 10]);
    }
    no_preempt();
    advance(1500 * MS);
    check(ended(1).is_none(), "the client ends");
    check(listed("sb").is_some() && listed("sa").is_some(), "the client does not move");
    let at = if again { old } else if there { 0 } else { 1 };
    let w = k().con_size;
    check(is(&now(at), &w), "the session does not have the size of its client's terminal");
    if again {
        let b = now(if there { 0 } else { 1 });
        check(is(&b, &[30, 100, 9, 10]), "a resize of another session has an effect");
        reach("back");
    } else {
        reach(if there { "there" } else { "new" });
    }
}
