//! Starting and stopping the daemon.
use super::cli::shpool;
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;
use shpool_protocol::*;
use std::os::unix::net::{UnixListener, UnixStream};

const OTHER: &str = "/home/u/s.sock";
const OTHER_EVENTS: &str = "/home/u/events.socket";

/// The sockets of a daemon which was killed.
fn leave_behind(path: &str) {
    mkdirs(&path[..ok(path.rfind('/').ok_or(()), "path")]);
    drop(ok(UnixListener::bind(path), "bind"));
}
fn start(other: bool) {
    put_file(CFG, format!("{BASE}nodaemonize = true\n").as_bytes());
    let mut w = vec!["shpool", "-c", CFG];
    if other {
        w.extend_from_slice(&["--socket", OTHER]);
    }
    w.push("daemon");
    shpool(1, &w);
    advance(100 * MS);
}
fn answers(path: &str, n: usize) {
    let s = ok(UnixStream::connect(path), "the daemon does not listen on its socket");
    ok(libshpool::verif::protocol::encode_to(&ConnectHeader::List, &s), "request");
    match reply::<ListReply>(&s) {
        Some(l) => check(l.sessions.len() == n, "another number of sessions is listed"),
        None => fail("the daemon does not answer"),
    }
}

/// Whatever is left of a daemon which was killed, and what is left of this
/// one once it is told to end.
pub fn alone() {
    boot();
    let place = choose(3, "place");
    let other = place == 1;
    let (sock, ev) = [
        (SOCK, EVENTS),
        (OTHER, OTHER_EVENTS),
        // there is no $XDG_RUNTIME_DIR
        ("/home/u/.local/run/shpool/shpool.socket", "/home/u/.local/run/shpool/events.socket"),
    ][place as usize];
    if place == 2 {
        crate::sim::set_env(&[("HOME", "/home/u"), ("TERM", "xterm")]);
    }
    let had = choose(3, "main");
    if had == 1 {
        leave_behind(sock);
    }
    let had_ev = choose(3, "events");
    if had_ev == 1 {
        leave_behind(ev);
    } else if had_ev == 2 {
        put_file(ev, b"");
    }
    if place == 0 && had != 1 && had_ev == 0 && choose_bool("fresh") {
        // nothing was ever run here
        let d = mkdirs("/run");
        dir_del(d, "shpool");
    }
    start(other);
    check(ended(1).is_none(), "the daemon does not start");
    answers(sock, 0);
    answers(sock, 0);
    let e = UnixStream::connect(ev);
    check(e.is_ok(), "the daemon does not listen on its events socket");
    let mut sub = Sub { s: e.ok(), raw: vec![], eof: false };
    ok(sub.s.as_ref().unwrap().set_nonblocking(true), "nonblocking");
    settle();
    if choose_bool("used") {
        let s = ok(UnixStream::connect(sock), "connect");
        ok(libshpool::verif::protocol::encode_to(&ConnectHeader::Attach(header("s")), &s), "request");
        let r: Option<AttachReplyHeader> = reply(&s);
        check(
            matches!(r, Some(AttachReplyHeader { status: AttachStatus::Created { .. } })),
            "the session is not created",
        );
        settle();
        check(sub.events() == "ca", "events are not sent");
        answers(sock, 1);
        std::mem::forget(s);
    }
    match choose(4, "lost") {
        1 => drop(std::fs::remove_file(sock)),
        2 => drop(std::fs::remove_file(ev)),
        3 => {
            // somebody tidied up
            for p in [sock, ev] {
                drop(std::fs::remove_file(p));
            }
        }
        _ => {}
    }
    let sig = [libc::SIGTERM, libc::SIGINT, libc::SIGQUIT][choose(3, "signal") as usize];
    deliver(sig);
    advance(200 * MS);
    check(ended(1) == Some(0), "the daemon does not end when told to");
    check(!exists(sock) && !exists(ev), "a socket is left behind");
    check(UnixStream::connect(sock).is_err(), "somebody still listens");
    reach("ended");
}

/// Daemons on two sockets with sessions of the same name.
pub fn apart() {
    boot();
    let _d = daemon("");
    let first = choose_bool("first");
    let with = |agent: &str| {
        let mut h = header("s");
        h.local_env.push((String::from("SSH_AUTH_SOCK"), String::from(agent)));
        h
    };
    let mut a = None;
    if first {
        a = Some(Client::attach(with("/agent1")));
    }
    start(true);
    check(ended(1).is_none(), "the daemon does not start");
    answers(SOCK, first as usize);
    answers(OTHER, 0);
    let s = ok(UnixStream::connect(OTHER), "connect");
    ok(libshpool::verif::protocol::encode_to(&ConnectHeader::Attach(with("/agent2")), &s), "request");
    let r: Option<AttachReplyHeader> = reply(&s);
    check(
        matches!(r, Some(AttachReplyHeader { status: AttachStatus::Created { .. } })),
        "the session is not created",
    );
    settle();
    if !first {
        a = Some(Client::attach(with("/agent1")));
    }
    check(a.as_ref().map(|c| c.created()).unwrap_or(false), "the session is not created");
    advance(100 * MS);
    answers(SOCK, 1);
    answers(OTHER, 1);
    check(
        get_link("/run/shpool/sessions/s/ssh-auth-sock.socket").map(|l| l == "/agent1").unwrap_or(false),
        "the link of a session does not lead to its client's agent",
    );
    let n = |to: &str| k().ino.iter().filter(|i| matches!(&i.node, Node::Link(l) if l == to)).count();
    check(n("/agent1") == 1 && n("/agent2") == 1, "the links of two daemons' sessions are the same");
    drop(kill(&["s"]));
    answers(OTHER, 1);
    deliver(libc::SIGTERM);
    advance(200 * MS);
    check(!exists(OTHER) && !exists(OTHER_EVENTS), "a socket is left behind");
    reach("apart");
}

/// A daemon started where one runs already.
pub fn second() {
    boot();
    let _d = daemon("");
    let mut sub = Sub::open();
    let mut c = Client::named("s");
    check(c.created(), "the session is not created");
    settle();
    check(sub.events() == "ca", "events are not sent");
    start(false);
    let mut i = 0;
    while ended(1).is_none() {
        advance(100 * MS);
        i += 1;
        check(i < 50, "a second daemon runs on one socket");
    }
    check(ended(1) != Some(0), "a second daemon claims to have run");
    output(0, b"hi");
    advance(100 * MS);
    c.pump();
    check(same(&c.data, b"hi"), "an attached client does not get the shell's output");
    let l = list();
    check(l.len() == 1 && is_attached(&l[0]), "the sessions of the first daemon are lost");
    let mut late = Sub::open();
    kill(&["s"]);
    advance(500 * MS);
    check(same(sub.events().as_bytes(), b"cadr") || same(sub.events().as_bytes(), b"car"), "a subscriber of the first daemon misses events");
    let e = late.events();
    check(same(e.as_bytes(), b"dr") || same(e.as_bytes(), b"r"), "subscribing to the first daemon's events does not work any more");
    reach("refused");
}

/// A daemon which is told to end while it is starting.
pub fn early() {
    boot();
    let other = choose_bool("socket");
    let (sock, ev) = if other { (OTHER, OTHER_EVENTS) } else { (SOCK, EVENTS) };
    let stale = choose_bool("stale");
    put_file(CFG, format!("{BASE}nodaemonize = true\n").as_bytes());
    let mut w = vec!["shpool", "-c", CFG];
    if other {
        w.extend_from_slice(&["--socket", OTHER]);
    }
    w.push("daemon");
    if stale {
        leave_behind(sock);
        leave_behind(ev);
    }
    let ino = |p: &str| match lookup(p, false) {
        Ok(f) => f.ino,
        _ => None,
    };
    let old = [ino(sock), ino(ev)];
    // what another daemon has left it need not remove
    let clean = || [ino(sock), ino(ev)].iter().zip(&old).all(|(n, o)| n.is_none() || n == o);
    preempt_any(1, 60);
    shpool(1, &w);
    advance(30 * MS);
    let sig = [libc::SIGTERM, libc::SIGINT, libc::SIGQUIT][choose(3, "signal") as usize];
    check(ended(1).is_none(), "the daemon does not start");
    if k().sighandlers.iter().any(|x| x.0 == sig && x.1.sa_sigaction > 1) {
        deliver(sig);
        settle();
        no_preempt();
        advance(300 * MS);
        check(ended(1) == Some(0), "the daemon does not end when told to");
        check(clean(), "a socket is left behind");
        reach("told");
    } else {
        // that kills it
        check(clean(), "a socket is left behind");
        reach("killed");
    }
}

/// systemd has made the socket and keeps it.
pub fn activated() {
    boot();
    let n = choose(4, "fds");
    let mut env = vec![("HOME", "/home/u"), ("XDG_RUNTIME_DIR", "/run")];
    env.extend([("LISTEN_FDS", ["1", "0", "2", "x"][n as usize])]);
    crate::sim::set_env(&env);
    let l = ok(UnixListener::bind(SOCK), "bind");
    check(std::os::fd::AsRawFd::as_raw_fd(&l) == 3, "the socket is not where systemd passes it");
    if n != 0 {
        // not for us: the daemon has to do it itself
        let d = mkdirs(RUN);
        dir_del(d, "shpool.socket");
    }
    std::mem::forget(l);
    let early = n == 0 && choose_bool("early");
    let c = if early { UnixStream::connect(SOCK).ok() } else { None };
    if let Some(c) = &c {
        // a client may be there before the daemon
        ok(libshpool::verif::protocol::encode_to(&ConnectHeader::List, c), "request");
    }
    start(false);
    check(ended(1).is_none(), "the daemon does not start");
    if let Some(c) = &c {
        check(reply::<ListReply>(c).is_some(), "a client which was there first gets no answer");
    }
    answers(SOCK, 0);
    check(UnixStream::connect(EVENTS).is_ok(), "the daemon does not listen on its events socket");
    deliver([libc::SIGTERM, libc::SIGINT, libc::SIGQUIT][choose(3, "signal") as usize]);
    advance(200 * MS);
    check(ended(1) == Some(0), "the daemon does not end when told to");
    check(exists(SOCK) == (n == 0), "a socket is left behind, or systemd's is removed");
    check(!exists(EVENTS), "the events socket is left behind");
    reach("END");
}
