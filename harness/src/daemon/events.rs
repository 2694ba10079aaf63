//! The event stream: whole lines, in order, nobody held up by anybody.
use super::attach::works;
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;
use libshpool::verif::daemon::events::Event;

const LINES: [&str; 4] = [
    "{\"type\":\"session.created\"}\n",
    "{\"type\":\"session.attached\"}\n",
    "{\"type\":\"session.detached\"}\n",
    "{\"type\":\"session.removed\"}\n",
];
fn event(i: usize) -> Event {
    match i {
        0 => Event::SessionCreated,
        1 => Event::SessionAttached,
        2 => Event::SessionDetached,
        _ => Event::SessionRemoved,
    }
}
fn sub(cap: usize) -> Sub {
    k().sock_cap = cap;
    let s = Sub::open();
    k().sock_cap = 200_000;
    s
}

/// Bursts of events to subscribers which are quick, slow, stuck, or leave.
pub fn bursts() {
    boot();
    limit(60 * SEC);
    let d = daemon("");
    let mut quick = sub(200_000);
    let cap = [7usize, 20, 27, 60, 5000][choose(5, "cap") as usize];
    let mut slow = sub(cap);
    let manner = choose(3, "manner");
    let mut late: Option<(Sub, usize)> = None;
    let mut all = String::new();
    let mut published = 0usize;
    let mut hung = false;
    for step in 0..3 {
        let n = [1usize, 3, 40, 70][choose(4, "burst") as usize];
        let first = choose(2, "kind") as usize;
        for j in 0..n {
            let e = (first + j * 3) % 4;
            let before = k().now;
            d.bus.publish(&event(e));
            check(k().now == before, "publishing an event waits");
            all.push_str(LINES[e]);
            published += 1;
        }
        settle();
        quick.pump();
        match manner {
            // reads all it can get
            0 => {
                for _ in 0..8000 {
                    let b = slow.raw.len();
                    slow.pump();
                    settle();
                    if slow.raw.len() == b {
                        break;
                    }
                }
            }
            // does not read at all
            1 => {}
            // leaves
            _ => {
                if step == 0 {
                    slow.pump();
                    slow.s = None;
                    hung = true;
                }
            }
        }
        check(same(&quick.raw, all.as_bytes()), "a subscriber does not get exactly the events");
        check(!quick.eof, "a subscriber which keeps up is dropped");
        if late.is_none() && step == 0 {
            late = Some((Sub::open(), all.len()));
        }
    }
    if let Some((l, at)) = &mut late {
        l.pump();
        check(same(&l.raw, &all.as_bytes()[*at..]), "a subscriber does not get exactly the events since it came");
    }
    if !hung {
        // whatever it was sent is the beginning of the stream
        for _ in 0..8000 {
            let b = slow.raw.len();
            slow.pump();
            settle();
            if slow.raw.len() == b {
                break;
            }
        }
        check(
            slow.raw.len() <= all.len() && same(&slow.raw, &all.as_bytes()[..slow.raw.len()]),
            "a slow subscriber gets something else than the events",
        );
        if slow.raw.len() < all.len() {
            check(slow.eof, "a subscriber misses events without being dropped");
            check(published > 64, "a subscriber which is not far behind is dropped");
            reach("dropped");
        } else {
            reach("complete");
        }
    } else {
        reach("left");
    }
}


/// What the history of one session is announced as.
pub fn story() {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    let mut sub = Sub::open();
    let mut want = String::new();
    let mut client: Option<Client> = None;
    let mut pty: Option<usize> = None;
    let mut ended = false;
    for _ in 0..5 {
        match choose(6, "op") {
            0 => {
                let c = Client::named("s");
                if client.is_some() {
                    check(c.busy(), "a second client is let into a session");
                } else if pty.is_some() && !ended {
                    check(c.reattached(), "a running session is not reattached");
                    want.push('a');
                    client = Some(c);
                } else {
                    check(c.created(), "a new session is not created");
                    want.push_str(if ended { "rca" } else { "ca" });
                    ended = false;
                    pty = Some(k().ptys.len() - 1);
                    client = Some(c);
                }
            }
            1 => {
                if client.take().is_none() {
                    return;
                }
                want.push('d');
            }
            2 => match &mut client {
                Some(c) => {
                    c.send(&[0, 17]);
                    settle();
                    client = None;
                    want.push('d');
                }
                None => return,
            },
            3 => {
                detach(&["s"]);
                if client.take().is_some() {
                    want.push('d');
                }
            }
            4 => {
                let p = match pty {
                    Some(p) if !ended => p,
                    _ => return,
                };
                exit(p, 0);
                if client.is_some() {
                    want.push('r');
                    advance(700 * MS);
                    client = None;
                    pty = None;
                } else {
                    ended = true;
                }
            }
            _ => {
                kill(&["s"]);
                if pty.take().is_some() {
                    want.push('r');
                }
                ended = false;
                advance(SEC);
                client = None;
            }
        }
        advance(700 * MS);
        check(sub.events() == want, "the events do not tell what happened");
    }
    reach("told");
}

static mut SEEN: Option<Vec<(String, bool)>> = None;
fn model() -> Vec<(String, bool)> {
    let mut v: Vec<(String, bool)> = list().iter().map(|s| (s.name.clone(), is_attached(s))).collect();
    v.sort();
    v
}
/// Somebody who asks for the list on every event knows how things are.
pub fn watch() {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    std::thread::spawn(|| {
        let s = ok(std::os::unix::net::UnixStream::connect(EVENTS), "cannot connect to the events socket");
        let mut b = [0u8; 512];
        loop {
            match std::io::Read::read(&mut &s, &mut b) {
                Ok(0) | Err(_) => return,
                Ok(_) => {
                    let m = model();
                    unsafe { SEEN = Some(m) };
                }
            }
        }
    });
    let n = k().th.len() - 1;
    k().th[n].harness = true;
    settle();
    let mut a = Client::named("s");
    check(a.created(), "the session is not created");
    advance(100 * MS);
    preempt_any(1, 40);
    let mut b = None;
    let op = choose(6, "op");
    match op {
        0 => a.hangup(),
        1 => a.send(&[0, 17]),
        2 => {
            detach(&["s"]);
        }
        3 => exit(0, 0),
        4 => {
            kill(&["s"]);
        }
        _ => {
            b = Some(Client::begin(header("t")));
        }
    }
    advance(1500 * MS);
    no_preempt();
    advance(200 * MS);
    let m = model();
    #[allow(static_mut_refs)]
    let seen = match unsafe { &SEEN } {
        Some(s) => s.clone(),
        None => fail("a subscriber hears nothing"),
    };
    check(seen == m, "a subscriber which asks for the list on every event does not know the latest state");
    if let Some(c) = &mut b {
        check(c.join().is_some() && c.created(), "the session is not created");
    }
    match op {
        0 | 1 | 2 => check(m.len() == 1 && !m[0].1, "a session which was left is not listed as detached"),
        3 | 4 => check(m.is_empty(), "an ended session is still listed"),
        _ => {
            check(m.len() == 2 && m[0].1 && m[1].1, "the sessions with a client are not listed as attached");
            works(&mut a, 0);
        }
    }
    reach("known");
}

/// Events published by two threads while subscribers come and go.
pub fn race() {
    race_with(false);
}
pub fn race2() {
    race_with(true);
}
fn race_with(twice: bool) {
    boot();
    limit(60 * SEC);
    let d = daemon("");
    let mut first = sub(200_000);
    let mut goes = sub(200_000);
    settle();
    if twice {
        preempt(2, &[0, 20 * MS]);
    } else {
        preempt_any(1, 60);
    }
    let bus = d.bus.clone();
    let h = std::thread::spawn(move || {
        bus.publish(&event(0));
        bus.publish(&event(1));
    });
    let pause = choose(3, "pause");
    if pause == 1 {
        settle();
    }
    let mut second = Sub::open();
    if choose(2, "goes") == 1 {
        goes.s = None;
    }
    if pause == 2 {
        settle();
    }
    let bus = d.bus.clone();
    let g = std::thread::spawn(move || {
        bus.publish(&event(2));
        bus.publish(&event(3));
    });
    advance(200 * MS);
    no_preempt();
    ok(h.join(), "join");
    ok(g.join(), "join");
    settle();
    first.pump();
    second.pump();
    let seq = |s: &mut Sub| s.events();
    let (a, b) = (seq(&mut first), seq(&mut second));
    check(a.len() == 4, "a subscriber does not get every event");
    let at = |x: &str, c: char| x.find(c).unwrap_or(99);
    check(at(&a, 'c') < at(&a, 'a') && at(&a, 'd') < at(&a, 'r') && at(&a, 'r') < 99 && at(&a, 'a') < 99, "events out of order");
    check(a.ends_with(&b), "a subscriber does not get exactly the events since it came");
    check(b.contains('d') && b.contains('r'), "a subscriber does not get every event since it came");
    check(!first.eof && !second.eof, "a subscriber which keeps up is dropped");
    reach("raced");
}
