//! What the shell prints reaches the attached client, and then its exit status.
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;

/// The shell prints in bursts, then maybe ends with a status.
pub fn bursts() {
    boot();
    let _d = daemon("");
    let mut a = Client::named("s");
    check(a.created(), "the session is not created");
    settle();
    let mut want = vec![];
    let n = choose(4, "bursts");
    for _ in 0..n {
        let b: [u8; 2] = sym_array("printed");
        output(0, &b);
        want.extend_from_slice(&b);
        match choose(4, "pause") {
            0 => {}
            1 => settle(),
            2 => advance(30 * MS),
            _ => {
                advance(600 * MS);
                reach("heartbeat");
            }
        }
    }
    if choose_bool("exits") {
        let code = sym_u8("code");
        k().linger = n > 0 && choose_bool("background");
        if choose_bool("signalled") {
            killed_by(0, 9);
            finish(&mut a, &want, 1);
        } else {
            exit(0, code as i32);
            finish(&mut a, &want, code as i32);
        }
    } else {
        settle();
        a.pump();
        check(same(&a.data, &want), "output was lost or changed");
        check(!a.eof && a.exit.is_none(), "the client is dropped while the shell runs");
        reach("running");
    }
}
fn finish(a: &mut Client, want: &[u8], code: i32) {
    advance(2 * SEC);
    a.pump();
    check(same(&a.data, want), "output from just before the exit was lost or changed");
    match a.exit {
        None => fail("the client is not told the exit status"),
        Some(x) => check(x == code, "the client is told the wrong exit status"),
    }
    check(a.eof, "the connection stays open after the shell is gone");
    check(listed("s").is_none(), "a session whose shell is gone is still listed");
    reach("exited");
    let b = Client::named("s");
    check(b.created(), "the name of an ended session cannot be used again");
}

/// Lots of output, in pieces which do not fit the buffers, to a client which
/// reads slowly or not at all for a while.
pub fn bulk() {
    boot();
    limit(300 * SEC);
    // the client takes every frame in well under the time a stuck client gets
    let (cap, pause) = [
        (64usize, 0),
        (5000, 0),
        (5000, 40 * MS),
        (200_000, 0),
        (200_000, 40 * MS),
        (200_000, 400 * MS),
    ][choose(6, "client") as usize];
    k().sock_cap = cap;
    let _d = daemon("");
    let mut a = Client::named("s");
    check(a.created(), "the session is not created");
    settle();
    let sizes = [1usize, 4095, 4096, 20_000, 40_000];
    let n = sizes[choose(5, "size") as usize];
    k().ptys[0].max_read = [4095, 16384, 65536][choose(3, "max_read") as usize];
    let mut want = vec![b'.'; n];
    want[0] = sym_u8("first");
    want[n - 1] = sym_u8("last");
    output(0, &want);
    let exits = choose_bool("exits");
    if exits {
        exit(0, 3);
    }
    for _ in 0..2000 {
        if pause == 0 {
            settle();
        } else {
            advance(pause);
        }
        let before = a.raw.len();
        a.pump();
        if a.eof || (a.data.len() >= n && !exits) {
            break;
        }
        if a.raw.len() == before {
            advance(100 * MS);
            let before = a.raw.len();
            a.pump();
            if a.raw.len() == before && !exits {
                break;
            }
        }
    }
    check(a.max_chunk <= 16 * 1024, "a chunk is larger than clients accept");
    check(same(&a.data, &want), "bulk output was lost or changed");
    if exits {
        check(a.exit == Some(3), "the exit status is lost");
        reach("exited");
    } else {
        check(!a.eof, "the client is dropped");
        reach("running");
    }
}

/// The same with a daemon thread held up once, anywhere.
pub fn race() {
    raced(1);
}
pub fn race2() {
    raced(2);
}
fn raced(budget: u32) {
    boot();
    let _d = daemon("");
    let mut a = Client::named("s");
    check(a.created(), "the session is not created");
    settle();
    if budget == 1 {
        preempt_any(1, 200);
    } else {
        preempt(budget, &[0, 20 * MS, 120 * MS]);
    }
    let mut want = vec![];
    let b: [u8; 2] = sym_array("printed");
    output(0, &b);
    want.extend_from_slice(&b);
    if choose_bool("settle") {
        settle();
    }
    let b: [u8; 2] = sym_array("printed");
    output(0, &b);
    want.extend_from_slice(&b);
    if choose_bool("exits") {
        let code = sym_u8("code");
        exit(0, code as i32);
        finish(&mut a, &want, code as i32);
    } else {
        advance(700 * MS);
        a.pump();
        check(same(&a.data, &want), "output was lost or changed");
        check(!a.eof && a.exit.is_none(), "the client is dropped while the shell runs");
        reach("running");
    }
}

/// The shell ends some time after somebody asked to be attached again.
pub fn reattach() {
    boot();
    let _d = daemon("");
    let mut a = Client::named("s");
    check(a.created(), "the session is not created");
    settle();
    a.hangup();
    advance(700 * MS);
    let mut b = Client::begin(header("s"));
    advance(any_ms("gap", 255));
    let printed = choose_bool("prints");
    let x: [u8; 2] = sym_array("printed");
    if printed {
        output(0, &x);
        if choose_bool("pause") {
            // more than it takes the daemon to take the client over
            advance(60 * MS);
        }
    }
    let code = sym_u8("code");
    exit(0, code as i32);
    advance(2 * SEC);
    check(b.join().is_some(), "an attach request gets no answer");
    check(b.created() || b.reattached(), "an attach request fails");
    b.pump();
    if b.created() {
        check(!b.eof, "a client is dropped while its new shell runs");
        check(listed("s").is_some(), "a running session is not listed");
        reach("recreated");
        return;
    }
    if printed {
        check(b.data.is_empty() || same(&b.data, &x), "output is changed");
    }
    check(b.exit == Some(code as i32), "the client is not told the exit status");
    check(b.eof, "the connection stays open after the shell is gone");
    check(listed("s").is_none(), "a session whose shell is gone is still listed");
    reach("exited");
}

/// The shell ends, but a background job keeps its terminal and goes on printing.
pub fn linger() {
    boot();
    limit(60 * SEC);
    k().linger = true;
    let _d = daemon("");
    let mut a = Client::named("s");
    check(a.created(), "the session is not created");
    settle();
    let b: [u8; 2] = sym_array("printed");
    output(0, &b);
    let attached = choose_bool("attached");
    if !attached {
        settle();
        a.hangup();
        advance(700 * MS);
    } else if choose_bool("settle") {
        settle();
    }
    let code = sym_u8("code");
    exit(0, code as i32);
    let period = [3u64, 40, 170][choose(3, "period") as usize] * MS;
    let n = if attached { SEC / period } else { 1 + choose(3, "lines") as u64 };
    for _ in 0..n {
        output(0, b"job.");
        advance(period);
    }
    if attached {
        advance(SEC);
        a.pump();
        check(a.data.len() >= 2 && same(&a.data[..2], &b), "output from just before the exit was lost or changed");
        for i in 2..a.data.len() {
            check(a.data[i] == b"job."[(i - 2) % 4], "output is changed");
        }
        check(a.exit == Some(code as i32), "the client is told the wrong exit status, or none");
        check(a.eof, "the connection stays open after the shell is gone");
        check(listed("s").is_none(), "a session whose shell is gone is still listed");
        reach("exited");
    } else {
        reach("alone");
    }
    let mut c = within_s(|| Client::named("s"));
    check(c.created(), "the name of an ended session cannot be used again");
    let p = k().ptys.len() - 1;
    output(0, b"old");
    crate::daemon::attach::works(&mut c, p);
    check(c.data.len() == 1, "a client is shown the output of an ended session's job");
    let r = kill(&["s"]);
    check(r.not_found_sessions.is_empty() && list().is_empty(), "a session cannot be killed");
}
fn within_s<R>(f: impl FnOnce() -> R) -> R {
    let t = k().now;
    let r = f();
    check(k().now - t <= SEC, "an attach request takes too long");
    r
}
