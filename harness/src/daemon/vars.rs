//! Variables: what is set is what is read, and attached clients hear of it.
use super::attach::works;
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;
use shpool_protocol::{ConnectHeader, MaybeSwitch, ModifyVarReply, ModifyVarRequest};
use std::os::unix::net::UnixStream;

type Vars = Vec<(&'static str, String)>;

fn modify(var: &str, val: Option<String>) -> UnixStream {
    request(&ConnectHeader::ModifyVar(ModifyVarRequest { var: var.to_string(), val }))
}
fn done(s: &UnixStream) -> bool {
    reply::<ModifyVarReply>(s).is_some()
}
fn get() -> MaybeSwitch {
    match rpc::<MaybeSwitch>(&ConnectHeader::GetVars) {
        Some(m) => m,
        None => fail("a request for the variables gets no answer"),
    }
}
fn put(vars: &mut Vars, var: &'static str, val: Option<String>) {
    vars.retain(|v| v.0 != var);
    if let Some(v) = val {
        vars.push((var, v));
    }
}
fn agrees(m: &MaybeSwitch, vars: &Vars) -> bool {
    let mut ok = m.vars.len() == vars.len();
    for (n, v) in vars.iter() {
        let mut found = false;
        for (mn, mv) in m.vars.iter() {
            if mn == n {
                found = same(mv.as_bytes(), v.as_bytes());
                break;
            }
        }
        ok &= found;
    }
    ok
}
fn alike(a: &MaybeSwitch, b: &MaybeSwitch) -> bool {
    let mut ok = a.vars.len() == b.vars.len();
    for (n, v) in a.vars.iter() {
        let mut found = false;
        for (mn, mv) in b.vars.iter() {
            if mn == n {
                found = same(mv.as_bytes(), v.as_bytes());
                break;
            }
        }
        ok &= found;
    }
    ok
}

/// A second session in some state, whose client if any is returned.
fn other() -> Option<Client> {
    let st = choose(5, "other");
    if st == 0 {
        return None;
    }
    let mut c = Client::named("t");
    check(c.created(), "the session is not created");
    match st {
        1 => return Some(c),
        2 => {
            c.hangup();
            advance(700 * MS);
        }
        3 => {
            c.hangup();
            advance(700 * MS);
            exit(k().ptys.len() - 1, 0);
            advance(400 * MS);
        }
        // about to be noticed as ended
        _ => {
            settle();
            exit(k().ptys.len() - 1, 0);
        }
    }
    None
}

fn heard(cs: &mut [Client], vars: &Vars) {
    for c in cs.iter_mut() {
        c.pump();
        check(!c.eof, "a client is dropped");
        match c.switches.last() {
            None => check(false, "an attached client is not told of a changed variable"),
            Some(m) => check(agrees(m, vars), "what a client was told last is not how the variables are"),
        }
    }
}

fn story(steps: usize) {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    let mut cs = vec![];
    if let Some(c) = other() {
        cs.push(c);
        reach("two");
    }
    let mut a = Client::named("s");
    check(a.created(), "the session is not created");
    let pty = k().ptys.len() - 1;
    if choose_bool("returns") {
        a.hangup();
        advance(700 * MS);
        a = Client::named("s");
        check(a.reattached(), "the session is not attached again");
    }
    cs.push(a);
    settle();
    let mut vars: Vars = vec![];
    for _ in 0..steps {
        let (var, val) = match choose(4, "op") {
            0 => ("a", Some(sym_ascii(0, 2, "value"))),
            1 => ("b", Some(sym_ascii(1, 1, "value"))),
            2 => ("a", None),
            _ => ("b", None),
        };
        let s = modify(var, val.clone());
        check(done(&s), "a request to change a variable gets no answer");
        put(&mut vars, var, val);
        check(agrees(&get(), &vars), "the variables are not as set");
        advance(60 * MS);
        heard(&mut cs, &vars);
    }
    reach("told");
    let n = cs.len() - 1;
    works(&mut cs[n], pty);
}
pub fn story1() {
    story(3);
}
pub fn deep() {
    story(4);
}

/// Two changes at about the same time, and somebody coming or going.
fn clash(any_gap: bool) {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    let mut cs = vec![];
    if let Some(c) = other() {
        cs.push(c);
    }
    let a = Client::named("s");
    check(a.created(), "the session is not created");
    let pty = k().ptys.len() - 1;
    cs.push(a);
    settle();
    if !any_gap {
        preempt_any(1, 50);
    }
    let x = sym_ascii(1, 1, "value");
    let y = sym_ascii(1, 1, "value");
    let p = modify("a", Some(x));
    if any_gap {
        advance(any_ms("gap", 100));
    }
    let q = match choose(2, "second") {
        0 => modify("a", Some(y)),
        _ => modify("a", None),
    };
    advance(1500 * MS);
    no_preempt();
    advance(200 * MS);
    check(done(&p) && done(&q), "a request to change a variable gets no answer");
    let now = get();
    for c in cs.iter_mut() {
        c.pump();
        check(!c.eof, "a client is dropped");
        match c.switches.last() {
            None => check(false, "an attached client is not told of a changed variable"),
            Some(m) => check(alike(m, &now), "what a client was told last is not how the variables are"),
        }
    }
    reach("told");
    let n = cs.len() - 1;
    works(&mut cs[n], pty);
}
pub fn clash1() {
    clash(false);
}
pub fn gap() {
    clash(true);
}

/// Values of any size leave clients in peace.
pub fn big() {
    boot();
    limit(60 * SEC);
    let _d = daemon("");
    let mut a = Client::named("s");
    check(a.created(), "the session is not created");
    settle();
    let n = [1000usize, 16_300, 16_384, 17_000, 40_000][choose(5, "size") as usize];
    let s = modify("a", Some("v".repeat(n)));
    check(done(&s), "a request to change a variable gets no answer");
    let m = get();
    check(m.vars.len() == 1 && m.vars[0].1.len() == n, "the variables are not as set");
    advance(60 * MS);
    a.pump();
    check(a.max_chunk <= 16 * 1024, "a chunk is larger than clients accept");
    let s = modify("a", None);
    check(done(&s), "a request to change a variable gets no answer");
    advance(60 * MS);
    heard(std::slice::from_mut(&mut a), &vec![]);
    works(&mut a, 0);
    reach("big");
}
