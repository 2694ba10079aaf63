//! Who may be attached to a session, and to which shell.
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;

/// Live shells.
pub fn alive() -> usize {
    let mut n = 0;
    for i in 0..k().ptys.len() {
        if k().ptys[i].pid != 0 && proc_state(pid_of(i)) == P::Alive {
            n += 1;
        }
    }
    n
}
/// The newest shell still running.
pub fn newest() -> usize {
    let mut r = None;
    for i in 0..k().ptys.len() {
        if k().ptys[i].pid != 0 && proc_state(pid_of(i)) == P::Alive {
            r = Some(i);
        }
    }
    match r {
        Some(i) => i,
        None => fail("there is no shell"),
    }
}
/// Data flows between this client and that shell in both directions.
pub fn works(c: &mut Client, pty: usize) {
    // the output thread looks for a new client every 50 ms
    advance(60 * MS);
    c.pump();
    let b: [u8; 1] = sym_array("probe");
    input(pty);
    let old = c.data.len();
    output(pty, &b);
    settle();
    c.pump();
    check(!c.eof, "an attached client is dropped");
    check(c.data.len() == old + 1 && c.data[old] == b[0], "an attached client does not get the shell's output");
    c.send(b"x");
    settle();
    check(input(pty) == b"x", "an attached client cannot type");
}
fn granted(c: &Client) -> bool {
    c.created() || c.reattached()
}

/// Two clients ask for the same session at about the same time.
fn pair(budget: u32) {
    boot();
    let _d = daemon("");
    let start = choose(4, "start");
    let mut old = None;
    if start >= 1 {
        let mut c = Client::named("s");
        check(c.created(), "the session is not created");
        settle();
        match start {
            1 => {
                c.hangup();
                advance(700 * MS);
                check(listed("s").is_some(), "a detached session is not listed");
            }
            2 => old = Some(c),
            _ => {
                // the shell ends while nobody is attached
                c.hangup();
                advance(700 * MS);
                k().linger = choose_bool("background");
                exit(0, 3);
                advance(100 * MS);
            }
        }
    }
    preempt_any(budget, 40);
    let mut a = Client::begin(header("s"));
    if choose_bool("later") {
        settle();
    }
    let mut b = Client::begin(header("s"));
    advance(SEC);
    no_preempt();
    advance(400 * MS);
    check(a.join().is_some(), "an attach request gets no answer");
    check(b.join().is_some(), "an attach request gets no answer");
    let n = granted(&a) as u32 + granted(&b) as u32;
    for c in [&a, &b] {
        check(granted(c) || c.busy(), "an attach request fails");
    }
    if let Some(c) = &mut old {
        check(n == 0, "a second client is let into a busy session");
        works(c, 0);
        reach("kept");
    } else {
        check(n >= 1, "nobody is let in");
        check(n <= 1, "two clients are let into one session");
        check(
            (a.created() || b.created()) == (start != 1),
            "a running session was not reattached, or an ended one was",
        );
    }
    check(alive() == 1, "the session does not have exactly one shell");
    let l = list();
    check(l.len() == 1 && l[0].name == "s", "the session is not listed once");
    check(is_attached(&l[0]), "a busy session is not listed as attached");
    if old.is_none() {
        let (w, o) = if granted(&a) { (&mut a, &mut b) } else { (&mut b, &mut a) };
        works(w, newest());
        o.pump();
        check(o.data.is_empty(), "a rejected client gets output");
        check(o.eof, "a rejected client is kept waiting");
        w.hangup();
        reach("won");
        advance(700 * MS);
        let mut z = Client::named("s");
        check(z.reattached(), "a detached session cannot be attached again");
        works(&mut z, newest());
    }
}
pub fn pair1() {
    pair(1);
}
pub fn pair2() {
    pair(2);
}

/// A client leaves while another one asks to attach.
fn handover(budget: u32) {
    boot();
    let _d = daemon("");
    let mut a = Client::named("s");
    check(a.created(), "the session is not created");
    settle();
    output(0, b"before\r\n");
    settle();
    a.pump();
    check(a.data == b"before\r\n", "output is lost");
    if budget > 0 {
        preempt_any(budget, 50);
    }
    let how = choose(4, "leaves");
    match how {
        0 => a.hangup(),
        1 => a.send(&[0, 17]),
        2 => {
            let r = detach(&["s"]);
            check(r.not_found_sessions.is_empty(), "an attached session is not found");
            check(r.not_attached_sessions.is_empty(), "an attached session is not detached");
        }
        _ => {
            let r = message("s", shpool_protocol::SessionMessageRequestPayload::Detach);
            check(r.is_some(), "no answer to a detach message");
        }
    }
    if budget == 0 {
        advance(any_ms("gap", 255));
    } else {
        match choose(3, "gap") {
            0 => {}
            1 => settle(),
            _ => advance(210 * MS),
        }
    }
    let mut b = Client::named("s");
    check(b.status.is_some(), "an attach request gets no answer");
    check(b.reattached() || b.busy(), "an attach request fails");
    advance(SEC);
    no_preempt();
    advance(400 * MS);
    check(alive() == 1, "the session does not have exactly one shell");
    if b.reattached() {
        reach("taken");
    } else {
        reach("busy");
        b = Client::named("s");
        check(b.reattached(), "a session stays busy after its client left");
    }
    advance(100 * MS);
    works(&mut b, 0);
    a.pump();
    check(a.eof, "a client which was detached is kept waiting");
    if how != 0 {
        check(a.exit == Some(0), "a detached client does not exit with status 0");
    }
    check(a.data == b"before\r\n", "a client which left gets more output");
    let l = list();
    check(l.len() == 1 && l[0].name == "s", "the session is not listed once");
    check(is_attached(&l[0]), "a busy session is not listed as attached");
}
pub fn handover1() {
    handover(1);
}
pub fn handover2() {
    handover(2);
}
pub fn handover0() {
    handover(0);
}
