//! Daemons which clients launch when there is none.
use super::cli::shpool;
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;
use clap::Parser;
use libshpool::verif::consts;
use shpool_protocol::*;
use std::os::unix::net::{UnixListener, UnixStream};

const PIDFILE: &str = "/run/shpool/daemonized-shpool.pid";

fn argv(words: &[&str]) {
    let mut v: Vec<*const u8> = vec![];
    for w in words {
        v.push(Box::leak(format!("{w}\0").into_boxed_str()).as_ptr());
    }
    v.push(std::ptr::null());
    unsafe { rsym_argv_init(words.len() as i32, Vec::leak(v).as_ptr(), std::ptr::null()) };
}
fn clean_env(more: &[(&str, &str)]) {
    let mut v = vec![("HOME", "/home/u"), ("XDG_RUNTIME_DIR", "/run"), ("TERM", "xterm")];
    v.extend_from_slice(more);
    crate::sim::set_env(&v);
}
fn run(words: &[&str]) {
    argv(words);
    shpool(1, words);
}
fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

/// The program a client has started is a daemon on its socket with its configuration.
fn check_spawned(sock: &str, cfg: Option<&str>) {
    check(k().spawned.len() == 1, "not exactly one daemon is launched");
    let s = &k().spawned[0];
    let args: Vec<String> = s.args.iter().map(|a| text(a)).collect();
    check(s.path == std::env::args().next().unwrap(), "another program is launched");
    let a = match libshpool::Args::try_parse_from(args) {
        Ok(a) => a,
        Err(_) => fail("the daemon cannot make sense of its arguments"),
    };
    check(matches!(a.command, libshpool::Commands::Daemon), "what is launched is no daemon");
    check(a.socket.as_deref() == Some(sock), "the daemon is launched on another socket, or one which depends on the directory");
    check(a.config_file.as_deref() == cfg, "the daemon is given another configuration, or one which depends on the directory");
    let log = a.log_file.unwrap_or_default();
    check(log.starts_with('/'), "the daemon's log is not beside its socket");
    let var = format!("{}=true", consts::AUTODAEMONIZE_VAR);
    check(s.env.iter().any(|e| *e == var.as_bytes()), "the daemon is not told to go into the background");
    for v in ["HOME=/home/u", "XDG_RUNTIME_DIR=/run", "MINE=1"] {
        check(s.env.iter().any(|e| *e == v.as_bytes()), "the daemon loses the client's environment");
    }
    for i in 1..3 {
        check(!matches!(s.io[i], Some(Obj::Console(_))), "the daemon writes to the client's terminal");
    }
}

/// A client which finds a daemon, or not.
pub fn client() {
    boot();
    limit(100 * SEC);
    clean_env(&[("MINE", "1")]);
    let rel = choose(3, "paths");
    let (sock, abs) = [(None, SOCK), (Some("/run/shpool/shpool.socket"), SOCK), (Some("x/s.sock"), "/home/u/x/s.sock")][rel as usize];
    mkdirs("/home/u/x");
    mkdirs(RUN);
    k().cwd = String::from("/home/u");
    let conf = choose(4, "config");
    let set = choose(3, "nodaemonize");
    let forever = set == 0 && choose_bool("no_timeout");
    let mut c = String::from(["", "nodaemonize = true\n", "nodaemonize = false\n"][set as usize]);
    if forever {
        c.push_str("nodaemonize_timeout = true\n");
    }
    let mut w: Vec<&str> = vec!["shpool"];
    let mut cfg = None;
    match conf {
        0 => {
            put_file("/home/u/.config/shpool/config.toml", c.as_bytes());
        }
        1 => {
            put_file("/home/u/c.toml", c.as_bytes());
            w.extend_from_slice(&["-c", "/home/u/c.toml"]);
            cfg = Some("/home/u/c.toml");
        }
        2 => {
            put_file("/home/u/c.toml", c.as_bytes());
            w.extend_from_slice(&["--config-file", "c.toml"]);
            cfg = Some("/home/u/c.toml");
        }
        _ => {
            put_file("/etc/shpool/config.toml", c.as_bytes());
        }
    }
    if let Some(s) = sock {
        w.extend_from_slice(&["--socket", s]);
    }
    let flag = choose(3, "flag");
    match flag {
        1 => w.push("-d"),
        2 => w.push("-D"),
        _ => {}
    }
    w.push("list");
    let may = flag != 2 && (flag == 1 || set != 1);
    // what is there
    let there = choose(3, "there");
    let mut up = None;
    match there {
        1 => drop(ok(UnixListener::bind(abs), "bind")),
        2 => up = Some(ok(UnixListener::bind(abs), "bind")),
        _ => {}
    }
    run(&w);
    settle();
    if there == 2 {
        check(k().spawned.is_empty(), "a daemon is launched next to another");
        answer(up.as_ref().unwrap(), true);
        check(done() == 0, "a client cannot use a running daemon");
        reach("running");
        return;
    }
    if !may {
        check(done() == 1, "a client which may not launch a daemon does not fail");
        check(k().spawned.is_empty(), "a daemon is launched against the user's will");
        reach("not wanted");
        return;
    }
    check_spawned(abs, cfg);
    check(ended(1).is_none(), "the client does not wait for the daemon");
    let delay = [0, 15, 1500, 4500, 30_000][choose(5, "delay") as usize];
    advance(delay * MS);
    if delay == 30_000 && !forever {
        check(done() == 1, "a client waits for ever for a daemon which does not come up");
        check(k().spawned.len() == 1, "another daemon is launched");
        reach("never up");
        return;
    }
    check(ended(1).is_none(), "the client does not wait for the daemon");
    if exists(abs) {
        let i = abs.rfind('/').unwrap();
        let d = mkdirs(&abs[..i]);
        dir_del(d, &abs[i + 1..]);
    }
    let l = ok(UnixListener::bind(abs), "bind");
    answer(&l, false);
    check(done() == 0, "a client cannot use the daemon it launched");
    check(k().spawned.len() == 1, "another daemon is launched");
    reach("launched");
}
fn done() -> i32 {
    for _ in 0..100 {
        if let Some(c) = ended(1) {
            return c;
        }
        advance(100 * MS);
    }
    fail("the client does not end")
}
/// Play the daemon for a client which lists the sessions.
fn answer(l: &UnixListener, quick: bool) {
    ok(l.set_nonblocking(true), "nonblocking");
    let mut held = vec![];
    for _ in 0..if quick { 3 } else { 60 } {
        settle();
        while let Ok((s, _)) = l.accept() {
            let v = VersionHeader { version: shpool_protocol::VERSION.to_string() };
            let _ = libshpool::verif::protocol::encode_to(&v, &s);
            held.push(s);
        }
        settle();
        for s in &held {
            let _ = s.set_nonblocking(true);
            if let Ok(ConnectHeader::List) = libshpool::verif::protocol::decode_from::<ConnectHeader, _>(s) {
                let _ = libshpool::verif::protocol::encode_to(&ListReply { sessions: vec![] }, s);
                return;
            }
        }
        if !quick {
            advance(50 * MS);
        }
    }
    fail("the client does not ask the daemon")
}

/// A daemon is launched by somebody else while this client looks.
pub fn race() {
    boot();
    limit(100 * SEC);
    clean_env(&[("MINE", "1")]);
    mkdirs(RUN);
    k().cwd = String::from("/home/u");
    let stale = choose_bool("stale");
    if stale {
        drop(ok(UnixListener::bind(SOCK), "bind"));
    }
    put_file("/home/u/.config/shpool/config.toml", b"");
    preempt_any(1, 60);
    run(&["shpool", "list"]);
    advance(choose(2, "pause") as u64 * 5 * MS);
    if exists(SOCK) && UnixStream::connect(SOCK).is_err() {
        let d = mkdirs(RUN);
        dir_del(d, "shpool.socket");
    }
    let _d = daemon("");
    advance(200 * MS);
    no_preempt();
    advance(200 * MS);
    check(UnixStream::connect(SOCK).is_ok(), "a client makes a daemon unreachable");
    check(done() == 0, "a client does not find the daemon");
    check(k().spawned.len() <= 1, "several daemons are launched");
    reach(if k().spawned.is_empty() { "found" } else { "launched" });
}

static mut FOLLOW: [bool; 2] = [true, true];
static mut FORKS: usize = 0;
fn forked() -> bool {
    unsafe {
        let c = FOLLOW.get(FORKS).copied().unwrap_or(false);
        FORKS += 1;
        c
    }
}
fn detaching(parent: u32, sock: Option<&'static str>) -> Vec<&'static str> {
    clean_env(&[(consts::AUTODAEMONIZE_VAR, "true")]);
    mkdirs(RUN);
    put_file(CFG, BASE.as_bytes());
    k().cwd = String::from("/home/u");
    k().fork_real = true;
    unsafe {
        FOLLOW = [parent != 1, parent == 0];
        FORKS = 0;
    }
    k().fork_hook = Some(forked);
    let mut w = vec!["shpool", "-c", CFG];
    if let Some(s) = sock {
        w.extend_from_slice(&["--socket", s]);
    }
    w.push("daemon");
    w
}

/// The daemon's side of going into the background.
pub fn background() {
    boot();
    let old = choose(4, "old");
    let (sock, pidfile) = [(None, PIDFILE), (Some("/home/u/x/s.sock"), "/home/u/x/daemonized-shpool.pid")][choose(2, "socket") as usize];
    let s = sock.unwrap_or(SOCK);
    mkdirs("/home/u/x");
    let parent = choose(3, "parent");
    let w = detaching(parent, sock);
    match old {
        1 => {
            // left behind
            put_file(pidfile, b"1234567890\n");
            drop(ok(UnixListener::bind(s), "bind"));
        }
        2 => {
            put_file(pidfile, b"");
        }
        3 => {
            let i = put_file(pidfile, b"77\n");
            k().flocks.push((i, usize::MAX));
        }
        _ => {}
    }
    let other = if old == 3 { Some(ok(UnixListener::bind(s), "bind")) } else { None };
    let umask = k().umask;
    run(&w);
    settle();
    if parent == 1 {
        // stays until its child has told how it went
        let c = k().procs.last().unwrap().pid;
        check(ended(1).is_none(), "the launching process does not wait");
        let st = choose(3, "status");
        proc_exit(c, [0, 3 << 8, libc::SIGKILL][st as usize]);
        settle();
        check(ended(1) == Some([0, 3, 1][st as usize]), "the launching process does not tell how it went");
        check(!exists(s) || old == 1 || old == 3, "the launching process listens");
        reach("first");
        return;
    }
    if old == 3 {
        advance(SEC);
        check(ended(1).is_some() && ended(1) != Some(0), "a second daemon is started");
        check(get_file(pidfile).map(|f| same(&f, b"77\n")).unwrap_or(false), "the other daemon's pid file is changed");
        check(UnixStream::connect(s).is_ok(), "the other daemon is cut off");
        drop(other);
        reach("second daemon");
        return;
    }
    if parent == 2 {
        check(ended(1) == Some(0), "the intermediate process stays");
        check(exists(pidfile), "the pid file is removed under the daemon's hands");
        reach("intermediate");
        return;
    }
    advance(100 * MS);
    check(ended(1).is_none(), "the daemon does not start");
    check(k().own_sid, "the daemon stays in the client's session");
    check(k().umask == umask, "the daemon, and its shells with it, has another umask");
    check(same(k().cwd.as_bytes(), b"/"), "the daemon keeps a directory in use");
    let pid = format!("{}\n", k().pid);
    check(get_file(pidfile).map(|f| same(&f, pid.as_bytes())).unwrap_or(false), "the pid file does not hold the daemon's pid");
    check(k().flocks.len() == 1, "the pid file is not locked");
    for i in 0..3 {
        check(
            k().fds[i].map(|d| matches!(k().desc[d].obj, Obj::Null)).unwrap_or(false),
            "the daemon keeps the client's terminal",
        );
    }
    k().fork_hook = None;
    // it works
    let talk = |h: &ConnectHeader| {
        let c = ok(UnixStream::connect(s), "the daemon does not listen");
        ok(libshpool::verif::protocol::encode_to(h, &c), "request");
        c
    };
    let c = talk(&ConnectHeader::Attach(header("s")));
    let r: Option<AttachReplyHeader> = reply(&c);
    check(matches!(r, Some(AttachReplyHeader { status: AttachStatus::Created { .. } })), "the session is not created");
    settle();
    // and takes note of changes of its configuration
    put_file(CFG, format!("{BASE}motd = \"dump\"\n").as_bytes());
    put_file("/etc/motd", b"hello\n");
    super::watch::touched(CFG);
    advance(500 * MS);
    let mut c2 = {
        let c = talk(&ConnectHeader::Attach(header("t")));
        let r: Option<AttachReplyHeader> = reply(&c);
        check(matches!(r, Some(AttachReplyHeader { status: AttachStatus::Created { .. } })), "the session is not created");
        c
    };
    settle();
    output(1, b"$ ");
    advance(100 * MS);
    let _ = c2.set_nonblocking(true);
    let got = super::client::take(&mut c2);
    check(got.windows(5).any(|w| w == b"hello"), "the daemon does not take note of changes of its configuration");
    deliver(libc::SIGTERM);
    advance(200 * MS);
    check(ended(1) == Some(0), "the daemon does not end when told to");
    check(!exists(s) && !exists(pidfile), "a file is left behind");
    reach("background");
}
