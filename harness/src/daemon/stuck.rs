//! Nobody holds up the daemon.
use crate::daemon::attach::{alive, newest, works};
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;
use shpool_protocol::*;
use std::io::Write;

fn within<R>(ns: u64, what: &str, f: impl FnOnce() -> R) -> R {
    let t = now();
    let r = f();
    check(now() - t <= ns, what);
    r
}
fn now() -> u64 {
    k().now
}

/// A client stops reading, then somebody wants something.
pub fn client() {
    client_with(0, 0);
}
pub fn client_race() {
    client_with(1, 60);
}
fn client_with(budget: u32, max: u8) {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    k().sock_cap = 2000;
    let mut c = Client::named("s");
    check(c.created(), "the session is not created");
    k().sock_cap = 100_000;
    let mut o = Client::named("o");
    check(o.created(), "another session is not created");
    advance(100 * MS);
    // fill the client's socket up to the brim, to within the size of a frame, or past it
    let fill = [5000usize, 1995, 1990, 1986][choose(if budget > 0 { 2 } else { 4 }, "fill") as usize];
    output(0, &vec![b'x'; fill]);
    if budget > 0 {
        preempt_any(budget, max);
    }
    let after = if budget > 0 { [0, 400][choose(2, "after") as usize] * MS } else { 10 * any_ms("after", 150) };
    advance(after);
    let op = if budget > 0 { [0, 1, 3][choose(3, "op") as usize] } else { choose(if fill < 1995 { 6 } else { 9 }, "op") };
    let mut gone = true;
    match op {
        0 => {
            let r = within(6 * SEC, "a detach request takes too long", || detach(&["s"]));
            check(r.not_found_sessions.is_empty(), "a session is not found");
        }
        1 => {
            let r = within(6 * SEC, "a kill request takes too long", || kill(&["s"]));
            check(r.not_found_sessions.is_empty(), "a session is not found");
        }
        2 => {
            let b = within(3 * SEC, "an attach request takes too long", || Client::named("s"));
            check(b.busy() || b.reattached(), "an attach request fails");
            gone = false;
            if b.reattached() {
                return;
            }
        }
        6 => {
            within(3 * SEC, "a list request takes too long", list);
            gone = false;
        }
        7 => {
            let r: Option<ModifyVarReply> = within(3 * SEC, "a variable request takes too long", || {
                rpc(&ConnectHeader::ModifyVar(ModifyVarRequest { var: "a".into(), val: Some("b".into()) }))
            });
            check(r.is_some(), "a variable request is not answered");
            gone = false;
        }
        5 => {
            c.hangup();
        }
        3 => {
            k().linger = budget == 0 && choose_bool("background");
            exit(0, 3)
        }
        4 => {
            c.send(b"\x00\x11");
        }
        _ => {
            let n = within(3 * SEC, "an attach request takes too long", || Client::named("n"));
            check(n.created(), "another session cannot be created");
            gone = false;
        }
    }
    no_preempt();
    advance(3 * SEC);
    // all is well with the other session
    works(&mut o, 1);
    if op == 1 || op == 3 {
        advance(SEC);
        // unless the client was dropped before the shell ended
        if op == 1 || fill == 5000 || after <= 600 * MS {
            check(listed("s").is_none(), "an ended session is still listed");
        }
        let mut n = Client::named("s");
        check(n.created(), "an ended session is attached again");
        works(&mut n, newest());
        c.pump();
        check(c.eof, "the client of an ended session is kept waiting");
        reach("ended");
        return;
    }
    if gone {
        check(!listed("s").map(|s| is_attached(&s)).unwrap_or(true), "the session is not let go of");
        let mut n = Client::named("s");
        check(n.reattached(), "the session cannot be attached again");
        works(&mut n, 0);
        c.pump();
        check(c.eof, "a detached client is kept waiting");
        reach("let go");
    } else {
        // the session is all right once the client reads again, or is gone
        for _ in 0..20 {
            c.pump();
            advance(20 * MS);
        }
        if c.eof {
            let mut n = Client::named("s");
            check(n.reattached(), "the session cannot be attached again");
            works(&mut n, 0);
            reach("dropped");
        } else {
            check(c.data.len() == fill, "output is lost or repeated");
            works(&mut c, 0);
            reach("recovered");
        }
    }
    check(alive() >= 2, "a shell is gone");
}

/// Clients which send nothing, part of a request, or nonsense, and stay or leave.
pub fn request_cut() {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    let mut o = Client::named("o");
    check(o.created(), "the session is not created");
    let mut buf = vec![];
    let h = match choose(4, "request") {
        0 => ConnectHeader::List,
        1 => ConnectHeader::Attach(header("s")),
        2 => ConnectHeader::Kill(KillRequest { sessions: vec!["s".into()] }),
        _ => ConnectHeader::GetVars,
    };
    ok(libshpool::verif::protocol::encode_to(&h, &mut buf), "encoding");
    let n = choose(buf.len() as u32, "bytes") as usize;
    let mut s = dial();
    ok(s.write_all(&buf[..n]), "sending");
    if n + 1 < buf.len() && choose(2, "junk") == 1 {
        let b: [u8; 1] = sym_array("byte");
        // not the byte the request goes on with
        assume(b[0] != buf[n]);
        let _ = s.write_all(&b);
    }
    let stay = choose(2, "stay") == 1;
    let keep = if stay { Some(s) } else { None };
    advance(SEC);
    within(SEC, "a list request takes too long", list);
    works(&mut o, 0);
    let mut c = Client::named("s");
    check(c.created() || c.reattached(), "a session cannot be attached");
    works(&mut c, newest());
    check(alive() == 2, "there are too few or too many shells");
    drop(keep);
    reach(if stay { "stay" } else { "leave" });
}

/// A client which does not read the answer to its request.
pub fn answer() {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    let mut c = Client::named("o");
    check(c.created(), "the session is not created");
    let mut h = header("big");
    h.name_template = "t".repeat(3000);
    let mut b = Client::attach(h);
    check(b.created(), "the session is not created");
    let v: Option<ModifyVarReply> = rpc(&ConnectHeader::ModifyVar(ModifyVarRequest { var: "a".into(), val: Some("v".repeat(3000)) }));
    check(v.is_some(), "a variable request is not answered");
    k().sock_cap = 1000;
    let r = match choose(2, "request") {
        0 => request(&ConnectHeader::List),
        _ => request(&ConnectHeader::GetVars),
    };
    advance(100 * MS);
    k().sock_cap = 100_000;
    within(SEC, "a list request takes too long", list);
    let w: Option<ModifyVarReply> = within(SEC, "a variable request takes too long", || {
        rpc(&ConnectHeader::ModifyVar(ModifyVarRequest { var: "a".into(), val: Some("w".into()) }))
    });
    check(w.is_some(), "a variable request is not answered");
    works(&mut c, 0);
    works(&mut b, 1);
    check(kill(&["big"]).not_found_sessions.is_empty(), "a session is not found");
    drop(r);
    reach("ok");
}

/// The shell does not read what is typed.
pub fn shell() {
    shell_with(0);
}
pub fn shell_race() {
    shell_with(1);
}
fn shell_with(budget: u32) {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    let mut c = Client::named("s");
    check(c.created(), "the session is not created");
    let mut o = Client::named("o");
    check(o.created(), "another session is not created");
    advance(100 * MS);
    k().ptys[0].in_cap = 100;
    let n = [99usize, 100, 101, 1500, 17000][if budget > 0 { 3 } else { choose(5, "typed") as usize }];
    let text: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
    c.send(&text);
    if budget > 0 {
        preempt_any(budget, 60);
    } else {
        advance(10 * any_ms("after", 70));
    }
    let op = choose(6, "op");
    match op {
        0 => {
            let r = within(6 * SEC, "a detach request takes too long", || detach(&["s"]));
            check(r.not_found_sessions.is_empty(), "a session is not found");
        }
        1 => {
            let r = within(6 * SEC, "a kill request takes too long", || kill(&["s"]));
            check(r.not_found_sessions.is_empty(), "a session is not found");
        }
        2 => c.hangup(),
        3 => exit(0, 3),
        4 => {
            let b = within(3 * SEC, "an attach request takes too long", || Client::named("s"));
            check(b.busy(), "a second client is let into a busy session");
        }
        _ => {}
    }
    no_preempt();
    advance(2 * SEC);
    works(&mut o, 1);
    match op {
        0 | 2 => {
            check(!listed("s").map(|s| is_attached(&s)).unwrap_or(true), "the session is not let go of");
            let got = input(0);
            check(text.starts_with(&got), "the shell gets other input than was typed");
            let mut n = Client::named("s");
            check(n.reattached(), "the session cannot be attached again");
            works(&mut n, 0);
            c.pump();
            check(c.eof, "a detached client is kept waiting");
            reach("let go");
        }
        1 | 3 => {
            check(listed("s").is_none(), "an ended session is still listed");
            c.pump();
            check(c.eof, "the client of an ended session is kept waiting");
            if op == 3 {
                check(c.exit == Some(3), "the client is told the wrong exit status");
            }
            let mut n = Client::named("s");
            check(n.created(), "an ended session is attached again");
            works(&mut n, newest());
            reach("ended");
        }
        _ => {
            // the shell reads after all
            let mut got = vec![];
            for _ in 0..200 {
                got.extend_from_slice(&input(0));
                advance(10 * MS);
            }
            check(got == text, "the shell gets other input than was typed");
            works(&mut c, 0);
            reach("went on");
        }
    }
}

/// `shpool attach --force` while the attached client has stopped reading.
pub fn force() {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    k().sock_cap = 2000;
    let mut c = Client::named("s");
    check(c.created(), "the session is not created");
    k().sock_cap = 100_000;
    advance(100 * MS);
    output(0, &vec![b'x'; [5000usize, 1995, 1990, 100][choose(4, "fill") as usize]]);
    advance(10 * any_ms("after", 150));
    attach_cmd(1, "", "s", true, false);
    advance(6 * SEC);
    check(ended(1).is_none(), "the client ends");
    check(listed("s").map(|s| is_attached(&s)).unwrap_or(false), "the session is not attached");
    c.pump();
    check(c.eof, "a replaced client is kept waiting");
    k().con_out.clear();
    output(0, b"hello");
    advance(100 * MS);
    check(k().con_out.ends_with(b"hello"), "an attached client does not get the shell's output");
    reach("taken");
}
