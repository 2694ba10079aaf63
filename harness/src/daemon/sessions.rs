//! The session table over whole histories.
use super::attach::{alive, works};
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;

const NAMES: [&str; 2] = ["s", "t"];

/// What one name stands for.
struct Slot {
    /// the shell's terminal
    pty: Option<usize>,
    client: Option<Client>,
}

fn table(slots: &[Slot]) {
    let l = list();
    let want = slots.iter().filter(|x| x.pty.is_some()).count();
    check(l.len() == want, "the list does not have one entry for each session");
    for i in 0..slots.len() {
        let e = l.iter().find(|s| s.name == NAMES[i]);
        check(e.is_some() == slots[i].pty.is_some(), "the wrong sessions are listed");
        if let Some(e) = e {
            check(is_attached(e) == slots[i].client.is_some(), "a session is listed with the wrong status");
            check(
                e.attachments.len() == slots[i].client.is_some() as usize,
                "a session is listed with the wrong attachments",
            );
        }
    }
    check(alive() == want, "the shells running are not those of the sessions");
}

/// A history of requests, one after the other.
fn history(steps: usize, names: u32, linger: bool) {
    boot();
    limit(60 * SEC);
    k().linger = linger;
    let _d = daemon("");
    let mut sub = Sub::open();
    let mut t: Vec<Slot> = (0..names).map(|_| Slot { pty: None, client: None }).collect();
    let (mut made, mut gone) = (0usize, 0usize);
    for _ in 0..steps {
        let i = choose(names, "name") as usize;
        let name = NAMES[i];
        let x = &mut t[i];
        match choose(7, "op") {
            0 => {
                let mut c = Client::named(name);
                if x.client.is_some() {
                    check(c.busy(), "a second client is let into a session");
                    settle();
                    c.pump();
                    check(c.eof, "a rejected client is kept waiting");
                } else if x.pty.is_some() {
                    check(c.reattached(), "a running session is not reattached");
                    x.client = Some(c);
                } else {
                    check(c.created(), "a new session is not created");
                    x.pty = Some(k().ptys.len() - 1);
                    x.client = Some(c);
                    made += 1;
                }
            }
            1 => {
                if x.client.is_none() {
                    return;
                }
                x.client = None;
            }
            2 => {
                let mut c = match x.client.take() {
                    Some(c) => c,
                    None => return,
                };
                c.send(&[b'x', 0, 17]);
                advance(200 * MS);
                c.pump();
                check(c.eof && c.exit == Some(0), "a detach keybinding does not let the client go");
            }
            3 => {
                let r = detach(&[name]);
                check((r.not_found_sessions == [name]) == x.pty.is_none(), "a wrong reply to detach");
                check(
                    (r.not_attached_sessions == [name]) == (x.pty.is_some() && x.client.is_none()),
                    "a wrong reply to detach",
                );
                if let Some(mut c) = x.client.take() {
                    advance(200 * MS);
                    c.pump();
                    check(c.eof && c.exit == Some(0), "a detach request does not let the client go");
                }
            }
            4 => {
                let p = match x.pty.take() {
                    Some(p) => p,
                    None => return,
                };
                let attached = x.client.is_some();
                exit(p, 7);
                advance(700 * MS);
                if let Some(mut c) = x.client.take() {
                    c.pump();
                    check(c.eof && c.exit == Some(7), "a client is not told that its shell has ended");
                }
                if !attached {
                    // nobody notices until the name is used again
                    let e = kill(&[name]);
                    check(e.not_found_sessions.is_empty(), "a session vanished");
                }
                gone += 1;
            }
            5 => {
                let stubborn = choose_bool("stubborn");
                if let Some(p) = x.pty {
                    let ix = proc_ix(pid_of(p)).unwrap();
                    k().procs[ix].hup = if stubborn { Hup::Ignore } else { Hup::Die };
                }
                let r = kill(&[name]);
                check((r.not_found_sessions == [name]) == x.pty.is_none(), "a wrong reply to kill");
                if x.pty.take().is_some() {
                    gone += 1;
                    check(listed(name).is_none(), "a killed session is still listed");
                }
                if let Some(mut c) = x.client.take() {
                    advance(SEC);
                    c.pump();
                    check(c.eof, "a client is not let go when its session is killed");
                }
            }
            _ => {
                // all at once, one name twice
                let r = kill(&["s", "nope", "s", "t"]);
                let mut nf = r.not_found_sessions.clone();
                nf.sort();
                nf.dedup();
                check(nf.iter().any(|x| x == "nope"), "a session which never was is not reported as not found");
                for j in 0..t.len() {
                    let there = t[j].pty.take().is_some();
                    if there {
                        gone += 1;
                        check(!r.not_found_sessions.iter().any(|x| x == NAMES[j]), "a killed session is reported as not found");
                    } else {
                        check(r.not_found_sessions.iter().any(|x| x == NAMES[j]), "a wrong reply to kill");
                    }
                    t[j].client = None;
                }
            }
        }
        advance(700 * MS);
        table(&t);
        check(sub.count('c') == made, "creations are not announced once each");
        check(sub.count('r') == gone, "removals are not announced once each");
    }
    for i in 0..t.len() {
        if let Some(p) = t[i].pty {
            let mut c = match t[i].client.take() {
                Some(c) => c,
                None => {
                    let c = Client::named(NAMES[i]);
                    check(c.reattached(), "a running session is not reattached");
                    c
                }
            };
            works(&mut c, p);
            reach("session");
        }
    }
    if gone > 0 && made > 1 {
        reach("reused");
    }
}
pub fn history1() {
    history(5, 1, false);
}
pub fn history2() {
    history(4, 2, false);
}
/// Shells which leave background jobs on their terminals.
pub fn linger() {
    history(5, 1, true);
}
pub fn history1_deep() {
    history(6, 1, false);
}
pub fn history2_deep() {
    history(5, 2, false);
}

/// What everybody agrees on once things have calmed down.
fn audit(sub: &mut Sub, clients: &mut [Client]) {
    let l = list();
    for i in 0..l.len() {
        for j in 0..i {
            check(l[i].name != l[j].name, "a session is listed twice");
        }
    }
    let n = alive();
    check(n >= l.len(), "a session is listed which has no shell");
    check(n <= l.len(), "a shell runs which belongs to no session");
    let (c, r) = (sub.count('c'), sub.count('r'));
    check(c >= r && c - r == l.len(), "created and removed events do not add up to the list");
    let mut live = 0;
    for x in clients.iter_mut() {
        x.pump();
        if (x.created() || x.reattached()) && !x.eof {
            live += 1;
        }
    }
    let at = l.iter().filter(|s| is_attached(s)).count();
    check(at == live, "the attached sessions are not those with a client");
}

/// Two things happen to one session at about the same time.
fn clash(stalls: &'static [u64], any_gap: bool) {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    let mut sub = Sub::open();
    let mut cs = vec![Client::named("s")];
    check(cs[0].created(), "the session is not created");
    settle();
    if !any_gap {
        if stalls.is_empty() {
            preempt_any(1, 60);
        } else {
            preempt(1, stalls);
        }
    }
    let first = choose(5, "first");
    let mut killer = None;
    let mut killed = false;
    for step in 0..2 {
        let op = if step == 0 { first } else { choose(6, "second") };
        match op {
            0 => {
                // the shell ends
                if proc_state(pid_of(0)) == P::Alive {
                    exit(0, 5);
                }
            }
            1 => cs[0].hangup(),
            2 => cs[0].send(&[0, 17]),
            3 => {
                let r = shpool_protocol::KillRequest { sessions: vec![String::from("s")] };
                killer = Some(request(&shpool_protocol::ConnectHeader::Kill(r)));
                killed = true;
            }
            4 => {
                let c = Client::begin(header("s"));
                cs.push(c);
            }
            _ => {
                detach(&["s"]);
            }
        }
        if step == 0 {
            if any_gap {
                advance(any_ms("gap", 255));
            } else if choose_bool("gap") {
                settle();
            }
        }
    }
    advance(1500 * MS);
    if let Some(s) = &killer {
        let r: Option<shpool_protocol::KillReply> = reply(s);
        check(r.is_some(), "a kill request gets no answer");
    }
    for c in cs.iter_mut().skip(1) {
        check(c.join().is_some(), "an attach request gets no answer");
        check(c.created() || c.reattached() || c.busy(), "an attach request fails");
    }
    no_preempt();
    advance(300 * MS);
    if killed {
        check(proc_state(pid_of(0)) != P::Alive, "a killed session's shell lives on");
        reach("killed");
    }
    // an ended session nobody was attached to goes away when it is asked for
    let first_dead = proc_state(pid_of(0)) != P::Alive;
    if first_dead && alive() == 0 && listed("s").is_some() {
        check(!is_attached(&listed("s").unwrap()), "an ended session is listed as attached");
        kill(&["s"]);
    }
    audit(&mut sub, &mut cs);
    if listed("s").is_none() {
        let c = Client::named("s");
        check(c.created(), "the name of an ended session cannot be used again");
        cs.push(c);
        reach("again");
    } else if !is_attached(&listed("s").unwrap()) {
        let c = Client::named("s");
        check(c.reattached(), "a running session is not reattached");
        cs.push(c);
        reach("back");
    }
    advance(100 * MS);
    audit(&mut sub, &mut cs);
    for c in cs.iter_mut() {
        c.pump();
        if (c.created() || c.reattached()) && !c.eof {
            works(c, super::attach::newest());
        }
    }
}
pub fn clash1() {
    clash(&[0, 200 * MS], false);
}
pub fn clash2() {
    clash(&[], false);
}
pub fn clash0() {
    clash(&[], true);
}
