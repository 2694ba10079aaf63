//! Sessions with a time to live.
use super::attach::alive;
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;

const NAMES: [&str; 2] = ["s", "t"];
const TTL: [Option<u64>; 6] = [None, Some(0), Some(1), Some(2), Some(u64::MAX), Some(1 << 40)];
const NEVER: u64 = u64::MAX;

struct One {
    name: usize,
    pty: usize,
    deadline: u64,
    client: Option<Client>,
}

fn expire(live: &mut Vec<One>, sub: &mut Sub, made: usize, gone: &mut usize) {
    // a polite shell dies at once, so a moment is enough
    let now = k().now;
    let mut i = 0;
    while i < live.len() {
        if live[i].deadline <= now {
            let mut x = live.remove(i);
            *gone += 1;
            reach("reaped");
            check(proc_state(pid_of(x.pty)) != P::Alive, "a shell outlives its time to live");
            if let Some(c) = &mut x.client {
                // it is let go within the time its threads are joined in
                for _ in 0..20 {
                    c.pump();
                    if c.eof {
                        break;
                    }
                    advance(50 * MS);
                }
                c.pump();
                check(c.eof, "a client is not let go when its session's time is up");
            }
        } else {
            check(proc_state(pid_of(live[i].pty)) == P::Alive, "a shell is killed before its time");
            i += 1;
        }
    }
    let l = list();
    for x in live.iter() {
        check(l.iter().any(|s| s.name == NAMES[x.name]), "a session is removed before its time");
    }
    check(l.len() == live.len(), "a session is listed after its time to live");
    check(alive() == live.len(), "the shells running are not those of the sessions");
    check(sub.count('c') == made && sub.count('r') == *gone, "the events do not match what happened");
}

fn story(steps: usize, names: u32, ttls: &[usize], any_gap: bool) {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    let mut sub = Sub::open();
    let mut live: Vec<One> = vec![];
    let (mut made, mut gone) = (0, 0);
    for step in 0..steps {
        let name = choose(names, "name") as usize;
        let at = live.iter().position(|x| x.name == name);
        let op = if at.is_none() { 0 } else { choose(4, "op") };
        match (op, at) {
            (0, None) => {
                let t = ttls[choose(ttls.len() as u32, "ttl") as usize];
                let mut h = header(NAMES[name]);
                h.ttl_secs = TTL[t];
                let now = k().now;
                let c = Client::attach(h);
                check(c.created(), "the session is not created");
                made += 1;
                let deadline = match TTL[t] {
                    Some(x) if x < 1000 => now + x * SEC,
                    _ => NEVER,
                };
                live.push(One { name, pty: k().ptys.len() - 1, deadline, client: Some(c) });
            }
            (0, Some(i)) => {
                // asking again changes nothing about the time
                live[i].client = None;
                advance(700 * MS);
                expire(&mut live, &mut sub, made, &mut gone);
                if let Some(x) = live.iter_mut().find(|x| x.name == name) {
                    let mut h = header(NAMES[name]);
                    h.ttl_secs = [None, Some(1)][choose(2, "rettl") as usize];
                    let c = Client::attach(h);
                    check(c.reattached(), "a running session is not reattached");
                    x.client = Some(c);
                }
            }
            (1, Some(i)) => {
                kill(&[NAMES[name]]);
                live.remove(i);
                gone += 1;
            }
            (2, Some(i)) => {
                let had = live[i].client.is_some();
                exit(live[i].pty, 0);
                advance(500 * MS);
                if !had {
                    kill(&[NAMES[name]]);
                }
                live.remove(i);
                gone += 1;
            }
            (_, Some(i)) => live[i].client = None,
            _ => {}
        }
        if any_gap && step + 2 == steps {
            advance(any_ms("gap", 255) * 10);
            expire(&mut live, &mut sub, made, &mut gone);
            continue;
        }
        let gap = if step + 1 == steps { 1 } else { choose(2, "gap") };
        advance([330 * MS, 1570 * MS][gap as usize]);
        expire(&mut live, &mut sub, made, &mut gone);
    }
    if live.iter().any(|x| x.deadline == NEVER) {
        reach("kept");
    }
}
pub fn one() {
    story(4, 1, &[0, 1, 2, 3, 4], false);
}
pub fn two() {
    story(3, 2, &[0, 2, 3, 5], false);
}
pub fn any() {
    story(3, 1, &[0, 1, 2, 3], true);
}
pub fn one_deep() {
    story(5, 1, &[0, 1, 2, 3], false);
}
pub fn two_deep() {
    story(4, 2, &[0, 2, 3], false);
}

/// The time is up while something else happens, with a stubborn shell or not.
fn clash(stalls: &'static [u64]) {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    let mut sub = Sub::open();
    let mut h = header("s");
    h.ttl_secs = Some(1);
    let mut a = Client::attach(h);
    check(a.created(), "the session is not created");
    if choose_bool("stubborn") {
        let ix = proc_ix(pid_of(0)).unwrap();
        k().procs[ix].hup = Hup::Ignore;
    }
    advance(990 * MS);
    if stalls.is_empty() {
        preempt_any(1, 200);
    } else {
        preempt(1, stalls);
    }
    let op = choose(5, "op");
    let early = choose_bool("early");
    if !early {
        advance(20 * MS);
    }
    let mut b = None;
    match op {
        0 => a.hangup(),
        1 => exit(0, 0),
        2 => {
            kill(&["s"]);
        }
        3 => a.send(&[0, 17]),
        _ => b = Some(Client::begin(header("s"))),
    }
    advance(1500 * MS);
    no_preempt();
    advance(300 * MS);
    check(proc_state(pid_of(0)) != P::Alive, "a shell outlives its time to live");
    a.pump();
    check(a.eof, "a client is not let go when its session's time is up");
    let mut kept = false;
    if let Some(c) = &mut b {
        c.join();
        c.pump();
        if c.created() {
            check(!c.eof, "a new session goes with the old one of its name");
            kept = true;
            reach("renewed");
        } else {
            check(c.busy() && c.eof, "an attach request fails");
        }
    }
    check(listed("s").is_some() == kept, "the time to live removes the wrong session");
    check(alive() == kept as usize, "the shells running are not those of the sessions");
    check(sub.count('r') == 1, "the removal is not announced once");
    check(sub.count('c') == 1 + kept as usize, "the creation is not announced once");
    reach("over");
}
pub fn clash1() {
    clash(&[]);
}
