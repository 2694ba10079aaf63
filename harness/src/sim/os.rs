//! What scenarios are written with: booting, files, clients, shells.
use super::kernel::*;
use crate::rt::{self, fail};
use libshpool::verif::{config, daemon::events, daemon::server::Server, protocol};
use shpool_protocol::*;
use std::io::Read;
use std::os::fd::AsRawFd;
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::Duration;

extern "C" {
    fn rt_sim_on();
}
#[no_mangle]
pub extern "C" fn simos_rt_sim_on() {}

pub const RUN: &str = "/run/shpool";
pub const SOCK: &str = "/run/shpool/shpool.socket";
pub const EVENTS: &str = "/run/shpool/events.socket";

// ------------------------------------------------------------------ files
pub fn mkdirs(path: &str) -> usize {
    let mut at = String::new();
    let mut d = 0;
    for c in path.split('/') {
        if c.is_empty() {
            continue;
        }
        at.push('/');
        at.push_str(c);
        d = match dir_get(d, c) {
            Some(i) => i,
            None => {
                let i = mknode(Node::Dir(vec![]), libc::S_IFDIR | 0o755);
                dir_put(d, c, i);
                i
            }
        };
    }
    d
}
pub fn put_file(path: &str, data: &[u8]) -> usize {
    let i = path.rfind('/').unwrap();
    let d = mkdirs(&path[..i]);
    if let Some(n) = dir_get(d, &path[i + 1..]) {
        if let Node::File(b) = &mut k().ino[n].node {
            b.clear();
            b.extend_from_slice(data);
            return n;
        }
        dir_del(d, &path[i + 1..]);
    }
    let n = mknode(Node::File(data.to_vec()), libc::S_IFREG | 0o644);
    dir_put(d, &path[i + 1..], n);
    n
}
pub fn get_file(path: &str) -> Option<Vec<u8>> {
    match lookup(path, true) {
        Ok(Found { ino: Some(i), .. }) => match &k().ino[i].node {
            Node::File(b) => Some(b.clone()),
            _ => None,
        },
        _ => None,
    }
}
pub fn get_link(path: &str) -> Option<String> {
    match lookup(path, false) {
        Ok(Found { ino: Some(i), .. }) => match &k().ino[i].node {
            Node::Link(b) => Some(b.clone()),
            _ => None,
        },
        _ => None,
    }
}
pub fn exists(path: &str) -> bool {
    matches!(lookup(path, false), Ok(Found { ino: Some(_), .. }))
}
pub fn mode_of(path: &str) -> Option<u32> {
    match lookup(path, true) {
        Ok(Found { ino: Some(i), .. }) => Some(k().ino[i].mode & 0o7777),
        _ => None,
    }
}

/// Boot the simulated system with the files every scenario needs.
pub fn boot() {
    kboot();
    let root = mknode(Node::Dir(vec![]), libc::S_IFDIR | 0o755);
    assert!(root == 0);
    let r = mkdirs(RUN);
    k().ino[r].mode = libc::S_IFDIR | 0o700;
    mkdirs("/etc");
    mkdirs("/home/u");
    mkdirs("/tmp");
    put_file("/usr/bin/shpool", b"");
    // magic, size of the name, no booleans, no numbers, 3 strings, 2 bytes of text
    let mut ti: Vec<u8> = vec![0x1a, 0x01, 2, 0, 0, 0, 0, 0, 3, 0, 2, 0];
    ti.extend_from_slice(b"x\0");
    ti.extend_from_slice(&[0xff, 0xff, 0xff, 0xff, 0, 0]);
    ti.extend_from_slice(b"\r\0");
    put_file("/usr/share/terminfo/x/xterm", &ti);
    super::set_env(&[("HOME", "/home/u"), ("XDG_RUNTIME_DIR", "/run"), ("TERM", "xterm")]);
    unsafe { rt_sim_on() };
    limit(20 * SEC);
}
/// Fail if the scenario needs more virtual time than this from now on.
pub fn limit(ns: u64) {
    k().limit = k().now + ns;
}

// ------------------------------------------------------------------ the daemon
pub struct NoHooks;
impl libshpool::Hooks for NoHooks {}

pub const CFG: &str = "/home/u/shpool.toml";
pub const BASE: &str = "session_restore_mode = \"simple\"\n";

pub struct Daemon {
    pub server: Arc<Server>,
    pub cm: config::Manager,
    pub bus: Arc<events::EventBus>,
    pub level: tracing_subscriber::reload::Handle<tracing_subscriber::filter::LevelFilter, tracing_subscriber::registry::Registry>,
}

pub fn daemon(cfg: &str) -> Daemon {
    daemon_hooks(cfg, Box::new(NoHooks))
}
pub fn daemon_hooks(cfg: &str, hooks: Box<dyn libshpool::Hooks + Send + Sync>) -> Daemon {
    let mut c = String::from(BASE);
    if cfg.contains("session_restore_mode") {
        c.clear();
    }
    c.push_str(cfg);
    put_file(CFG, c.as_bytes());
    let cm = ok(config::Manager::new(Some(CFG)), "loading the configuration");
    let (bus, guard) = ok(events::EventBus::start(PathBuf::from(EVENTS)), "starting the event bus");
    std::mem::forget(guard);
    let (l, handle) =
        tracing_subscriber::reload::Layer::new(tracing_subscriber::filter::LevelFilter::OFF);
    std::mem::forget(l);
    let level = handle.clone();
    let server = ok(
        Server::new(cm.clone(), hooks, PathBuf::from(RUN), handle, bus.clone()),
        "creating the server",
    );
    let l = ok(UnixListener::bind(SOCK), "binding the socket");
    let s = server.clone();
    std::thread::spawn(move || {
        let _ = Server::serve(s, l);
    });
    settle();
    Daemon { server, cm, bus, level }
}

pub fn ok<T, E>(r: Result<T, E>, what: &str) -> T {
    match r {
        Ok(x) => x,
        Err(_) => fail(what),
    }
}

// ------------------------------------------------------------------ clients
pub fn dial() -> UnixStream {
    let s = ok(UnixStream::connect(SOCK), "cannot connect to the daemon");
    ok(s.set_read_timeout(Some(Duration::from_secs(10))), "timeout");
    s
}
/// Send a request; the version header the daemon sends first is left for `reply`.
pub fn request(h: &ConnectHeader) -> UnixStream {
    let s = dial();
    ok(protocol::encode_to(h, &s), "sending a request");
    s
}
/// Read the version header and the reply.
pub fn reply<T>(s: &UnixStream) -> Option<T>
where
    for<'de> T: serde::Deserialize<'de>,
{
    let v: Result<VersionHeader, _> = protocol::decode_from(s);
    if v.is_err() {
        return None;
    }
    protocol::decode_from(s).ok()
}
pub fn rpc<T>(h: &ConnectHeader) -> Option<T>
where
    for<'de> T: serde::Deserialize<'de>,
{
    let s = request(h);
    let r = reply(&s);
    drop(s);
    r
}

pub fn header(name: &str) -> AttachHeader {
    AttachHeader {
        name: name.to_string(),
        name_template: name.to_string(),
        local_tty_size: TtySize { rows: 24, cols: 80, xpixel: 0, ypixel: 0 },
        local_env: vec![],
        ttl_secs: None,
        cmd: Some(String::from("cat")),
        dir: None,
        start_cmd: None,
    }
}

/// An attached client, reading the chunk stream.
pub struct Client {
    pub s: Option<UnixStream>,
    pub status: Option<AttachStatus>,
    pub raw: Vec<u8>,
    pub at: usize,
    pub data: Vec<u8>,
    pub exit: Option<i32>,
    pub eof: bool,
    pub beats: u32,
    pub switches: Vec<MaybeSwitch>,
    pub max_chunk: usize,
}
impl Client {
    /// Start to attach; the reply is read by `join`.
    pub fn begin(h: AttachHeader) -> Client {
        let s = request(&ConnectHeader::Attach(h));
        Client {
            s: Some(s),
            status: None,
            raw: vec![],
            at: 0,
            data: vec![],
            exit: None,
            eof: false,
            beats: 0,
            switches: vec![],
            max_chunk: 0,
        }
    }
    pub fn join(&mut self) -> Option<AttachStatus> {
        if let Some(s) = &self.s {
            self.status = reply::<AttachReplyHeader>(s).map(|r| r.status);
        }
        self.status.clone()
    }
    pub fn attach(h: AttachHeader) -> Client {
        let mut c = Client::begin(h);
        c.join();
        c
    }
    pub fn named(name: &str) -> Client {
        Client::attach(header(name))
    }
    pub fn created(&self) -> bool {
        matches!(self.status, Some(AttachStatus::Created { .. }))
    }
    pub fn reattached(&self) -> bool {
        matches!(self.status, Some(AttachStatus::Attached { .. }))
    }
    pub fn busy(&self) -> bool {
        matches!(self.status, Some(AttachStatus::Busy))
    }
    pub fn sock(&self) -> usize {
        let fd = self.s.as_ref().unwrap().as_raw_fd() as usize;
        match k().desc[k().fds[fd].unwrap()].obj {
            Obj::Sock(i) => i,
            _ => fail("not a socket"),
        }
    }
    /// Take in everything the daemon has sent so far.
    pub fn pump(&mut self) {
        if let Some(s) = &mut self.s {
            let i = {
                let fd = s.as_raw_fd() as usize;
                match k().desc[k().fds[fd].unwrap()].obj {
                    Obj::Sock(i) => i,
                    _ => fail("not a socket"),
                }
            };
            loop {
                let n = k().socks[i].rx.len();
                if n == 0 {
                    if k().socks[i].shut_rd {
                        self.eof = true;
                    }
                    break;
                }
                let o = self.raw.len();
                self.raw.resize(o + n, 0);
                match s.read(&mut self.raw[o..]) {
                    Ok(m) => self.raw.truncate(o + m),
                    Err(_) => {
                        self.raw.truncate(o);
                        self.eof = true;
                        break;
                    }
                }
            }
        }
        self.parse();
    }
    fn parse(&mut self) {
        loop {
            let r = &self.raw[self.at..];
            if r.is_empty() {
                return;
            }
            match rt::conc(r[0] as u64) as u8 {
                2 => {
                    if r.len() < 5 {
                        return;
                    }
                    if self.exit.is_some() {
                        fail("two exit chunks on one connection");
                    }
                    self.exit = Some(i32::from_le_bytes([r[1], r[2], r[3], r[4]]));
                    self.at += 5;
                }
                k @ (0 | 1 | 3) => {
                    if r.len() < 5 {
                        return;
                    }
                    let n = u32::from_le_bytes([r[1], r[2], r[3], r[4]]) as usize;
                    if r.len() < 5 + n {
                        return;
                    }
                    if n > self.max_chunk {
                        self.max_chunk = n;
                    }
                    if self.exit.is_some() && k != 1 {
                        fail("a chunk follows the exit chunk");
                    }
                    let body = r[5..5 + n].to_vec();
                    self.at += 5 + n;
                    match k {
                        0 => self.data.extend_from_slice(&body),
                        1 => self.beats += 1,
                        _ => match protocol::decode_from(&body[..]) {
                            Ok(m) => self.switches.push(m),
                            Err(_) => fail("undecodable switch chunk"),
                        },
                    }
                }
                _ => fail("the attach stream is corrupt"),
            }
        }
    }
    pub fn send(&mut self, d: &[u8]) {
        use std::io::Write;
        if let Some(s) = &mut self.s {
            let _ = s.write_all(d);
        }
    }
    pub fn hangup(&mut self) {
        self.s = None;
        self.eof = true;
    }
}

pub fn list() -> Vec<Session> {
    match rpc::<ListReply>(&ConnectHeader::List) {
        Some(l) => l.sessions,
        None => fail("no reply to a list request"),
    }
}
pub fn listed(name: &str) -> Option<Session> {
    list().into_iter().find(|s| s.name == name)
}
pub fn kill(names: &[&str]) -> KillReply {
    let r = KillRequest { sessions: names.iter().map(|s| s.to_string()).collect() };
    match rpc(&ConnectHeader::Kill(r)) {
        Some(r) => r,
        None => fail("no reply to a kill request"),
    }
}
pub fn detach(names: &[&str]) -> DetachReply {
    let r = DetachRequest { sessions: names.iter().map(|s| s.to_string()).collect() };
    match rpc(&ConnectHeader::Detach(r)) {
        Some(r) => r,
        None => fail("no reply to a detach request"),
    }
}
pub fn message(name: &str, payload: SessionMessageRequestPayload) -> Option<SessionMessageReply> {
    let r = SessionMessageRequest { session_name: name.to_string(), payload };
    rpc(&ConnectHeader::SessionMessage(r))
}
pub fn size(rows: u16, cols: u16) -> TtySize {
    TtySize { rows, cols, xpixel: 0, ypixel: 0 }
}
pub fn tty(s: [u16; 4]) -> TtySize {
    TtySize { rows: s[0], cols: s[1], xpixel: s[2], ypixel: s[3] }
}
pub fn resize(name: &str, s: [u16; 4]) -> Option<SessionMessageReply> {
    message(name, SessionMessageRequestPayload::Resize(ResizeRequest { tty_size: tty(s) }))
}

// ------------------------------------------------------------------ shells
/// The shell writes to its terminal.
pub fn output(pty: usize, d: &[u8]) {
    k().ptys[pty].out.push(d);
    wake(k_pty(pty), usize::MAX);
}
/// What the shell has been given to read so far.
pub fn input(pty: usize) -> Vec<u8> {
    let y = &mut k().ptys[pty];
    let n = y.inp.len();
    let mut v = vec![0; n];
    y.inp.take(v.as_mut_ptr(), n);
    wake(k_pty(pty), usize::MAX);
    v
}
pub fn pid_of(pty: usize) -> i32 {
    k().ptys[pty].pid
}
/// The shell's process ends with this status, closing its terminal.
pub fn exit(pty: usize, code: i32) {
    proc_exit(pid_of(pty), code << 8);
}
pub fn killed_by(pty: usize, sig: i32) {
    proc_exit(pid_of(pty), sig);
}
pub fn proc_state(pid: i32) -> P {
    match proc_ix(pid) {
        Some(i) => k().procs[i].st,
        None => fail("no such process"),
    }
}

/// From now on the daemon's threads may be held up at up to `budget` of their
/// synchronisation points and system calls, each for one of `stalls`
/// nanoseconds of virtual time (0: just behind every other runnable thread).
pub fn preempt(budget: u32, stalls: &'static [u64]) {
    preempt_in("", budget, stalls);
}
pub fn preempt_in(name: &'static str, budget: u32, stalls: &'static [u64]) {
    k().pre =
        Pre { budget, kinds: u32::MAX, stalls, any: 0, name, skip: 0, max_sites: u32::MAX };
}
/// Each hold-up takes any whole number of milliseconds up to `max`.
pub fn preempt_any(budget: u32, max: u8) {
    preempt(budget, &[]);
    k().pre.any = max;
}
pub fn no_preempt() {
    k().pre.budget = 0;
}
pub fn same(a: &[u8], b: &[u8]) -> bool {
    let mut ok = a.len() == b.len();
    if ok {
        for i in 0..a.len() {
            ok &= a[i] == b[i];
        }
    }
    ok
}
pub fn is_attached(s: &Session) -> bool {
    matches!(s.status, SessionStatus::Attached)
}

// ------------------------------------------------------------------ events
/// A subscriber to the event stream.
pub struct Sub {
    pub s: Option<UnixStream>,
    pub raw: Vec<u8>,
    pub eof: bool,
}
impl Sub {
    pub fn open() -> Sub {
        let s = ok(UnixStream::connect(EVENTS), "cannot connect to the events socket");
        ok(s.set_nonblocking(true), "nonblocking");
        settle();
        Sub { s: Some(s), raw: vec![], eof: false }
    }
    pub fn pump(&mut self) {
        if let Some(s) = &mut self.s {
            let mut b = [0u8; 512];
            loop {
                match s.read(&mut b) {
                    Ok(0) => {
                        self.eof = true;
                        return;
                    }
                    Ok(n) => self.raw.extend_from_slice(&b[..n]),
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return,
                    Err(_) => {
                        self.eof = true;
                        return;
                    }
                }
            }
        }
    }
    /// The events so far: c(reated), a(ttached), d(etached), r(emoved).
    pub fn events(&mut self) -> String {
        self.pump();
        let mut out = String::new();
        let mut r = &self.raw[..];
        loop {
            let n = match r.iter().position(|c| *c == b'\n') {
                Some(n) => n,
                None => break,
            };
            let l = &r[..n];
            r = &r[n + 1..];
            out.push(if l == b"{\"type\":\"session.created\"}" {
                'c'
            } else if l == b"{\"type\":\"session.attached\"}" {
                'a'
            } else if l == b"{\"type\":\"session.detached\"}" {
                'd'
            } else if l == b"{\"type\":\"session.removed\"}" {
                'r'
            } else {
                fail("a subscriber got something which is not an event")
            });
        }
        if !r.is_empty() {
            fail("a subscriber got part of an event");
        }
        out
    }
    pub fn count(&mut self, c: char) -> usize {
        self.events().chars().filter(|x| *x == c).count()
    }
}

// --------------------------------------------------------- client processes
/// Run a client command in a process of its own.
pub fn process(id: usize, f: impl FnOnce() -> anyhow::Result<()> + Send + 'static) {
    std::thread::spawn(move || {
        let me = k().cur;
        k().th[me].proc = id;
        let c = f().is_err() as i32;
        end_proc(c);
    });
}
/// How a client process ended, if it has.
pub fn ended(id: usize) -> Option<i32> {
    k().exited.iter().find(|x| x.0 == id).map(|x| x.1)
}
/// Type at the terminal.
pub fn type_in(b: &[u8]) {
    k().con_in.push(b);
    wake(K_CON, usize::MAX);
}
pub fn close_stdin() {
    k().con_eof = true;
    wake(K_CON, usize::MAX);
}
pub fn same_termios(a: &libc::termios, b: &libc::termios) -> bool {
    a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag
}
/// The terminal is resized.
pub fn winch(size: [u16; 4]) {
    k().con_size = size;
    deliver(libc::SIGWINCH);
    settle();
}
/// Start `shpool attach`.
pub fn attach_cmd(id: usize, cfg: &str, name: &str, force: bool, background: bool) {
    attach_cmd_to(id, cfg, name, force, background, None);
}
pub fn attach_cmd_to(id: usize, cfg: &str, name: &str, force: bool, background: bool, cmd: Option<&str>) {
    const CLIENT_CFG: &str = "/home/u/client.toml";
    put_file(CLIENT_CFG, cfg.as_bytes());
    let name = name.to_string();
    let cmd = cmd.map(|c| c.to_string());
    process(id, move || {
        let cm = config::Manager::new(Some(CLIENT_CFG))?;
        libshpool::verif::attach::run(PathBuf::from(SOCK), cm, name, force, background, None, cmd, None, None)
    });
}
