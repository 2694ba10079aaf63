//! A small deterministic operating system: threads, futexes, virtual time,
//! sockets, ptys, processes and an in-memory file system. The daemon's libc
//! calls land here, both in the symbolic executor (where they are resolved to
//! the simos_* functions) and natively (through rt.c, for replays).
//!
//! Exactly one thread runs at a time and control only moves in `resched`, so
//! the kernel is plain static state. No reference into it may be held over a
//! call of `block` or `yield_point`.
use crate::rt;
use std::collections::VecDeque;

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000 * MS;

#[derive(Clone, Copy, PartialEq)]
pub enum St {
    Run,
    Blocked,
    Settling,
    Done,
}

pub struct Th {
    pub rt: u32,
    pub st: St,
    pub keys: Vec<u64>,
    pub deadline: u64,
    pub woken: bool,
    pub name: [u8; 16],
    pub start: usize,
    pub arg: usize,
    pub ret: usize,
    pub tls: Vec<(u32, usize)>,
    pub dtors: Vec<(usize, usize)>,
    pub harness: bool,
    /// the process it belongs to: 0 is the daemon, others are clients
    pub proc: usize,
}

pub struct Q {
    pub b: Vec<u8>,
    pub h: usize,
}
impl Q {
    pub fn new() -> Q {
        Q { b: Vec::new(), h: 0 }
    }
    pub fn len(&self) -> usize {
        self.b.len() - self.h
    }
    pub fn push(&mut self, d: &[u8]) {
        self.b.extend_from_slice(d);
    }
    pub fn take(&mut self, p: *mut u8, n: usize) -> usize {
        let n = n.min(self.len());
        unsafe { std::ptr::copy_nonoverlapping(self.b.as_ptr().add(self.h), p, n) };
        self.h += n;
        if self.h == self.b.len() {
            self.b.clear();
            self.h = 0;
        }
        n
    }
}

pub struct Sock {
    pub rx: Q,
    pub cap: usize,
    pub shut_rd: bool,
    pub shut_wr: bool,
    pub reset: bool,
    pub open: bool,
    pub peer: usize,
    pub rto: u64,
    pub wto: u64,
    pub cred: (i32, u32),
    pub is_pipe: bool,
}
pub struct Pty {
    pub out: Q,
    pub inp: Q,
    /// the slave end is open somewhere
    pub slave: bool,
    /// it has been closed again
    pub closed: bool,
    pub master: bool,
    pub winsize: (u16, u16, u16, u16),
    pub winlog: Vec<(u64, [u16; 4])>,
    pub termios: libc::termios,
    /// largest number of bytes one read of the master returns
    pub max_read: usize,
    pub in_cap: usize,
    pub pid: i32,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Obj {
    Sock(usize),
    Listener(usize),
    Master(usize),
    Slave(usize),
    File(usize),
    Dir(usize),
    Console(u8),
    Null,
    Unbound,
}
pub struct Spawned {
    pub path: String,
    pub args: Vec<Vec<u8>>,
    pub env: Vec<Vec<u8>>,
    /// what its first three descriptors are
    pub io: [Option<Obj>; 3],
}
pub struct Desc {
    pub refs: usize,
    pub nonblock: bool,
    pub append: bool,
    pub pos: usize,
    pub obj: Obj,
}
pub struct Lst {
    pub q: VecDeque<usize>,
    pub open: bool,
    pub ino: usize,
}
pub enum Node {
    File(Vec<u8>),
    Dir(Vec<(String, usize)>),
    Link(String),
    Sock(usize),
    Dev(Obj),
}
pub struct Inode {
    pub node: Node,
    pub mode: u32,
    pub uid: u32,
    pub nlink: u32,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum P {
    Alive,
    Zombie(i32),
    Reaped,
}
/// What a process does when it is sent SIGHUP.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hup {
    Die,
    Ignore,
    DieAfter(u64),
}
pub struct Proc {
    pub pid: i32,
    pub st: P,
    pub hup: Hup,
    /// what it does when it is sent SIGTERM (interactive shells ignore it)
    pub term: Hup,
    pub comm: String,
    pub exe: String,
    pub sigs: Vec<i32>,
    /// signals sent after the pid had been reaped, when it may belong to anybody
    pub late: Vec<i32>,
    pub pty: Option<usize>,
}

pub struct Pre {
    pub budget: u32,
    pub kinds: u32,
    pub stalls: &'static [u64],
    /// hold up for any number of milliseconds up to this instead
    pub any: u8,
    /// only threads whose name starts like this
    pub name: &'static str,
    pub skip: u32,
    pub max_sites: u32,
}

pub struct K {
    pub now: u64,
    /// the last full second before now
    pub sec: u64,
    pub real: u64,
    pub wall0: i64,
    pub limit: u64,
    pub cur: usize,
    pub th: Vec<Th>,
    pub runq: VecDeque<usize>,
    pub fds: Vec<Option<usize>>,
    /// the process which opened each descriptor
    pub fd_proc: Vec<usize>,
    /// client processes which have ended, and how
    pub exited: Vec<(usize, i32)>,
    /// how much standard output takes before it blocks
    pub con_room: usize,
    pub desc: Vec<Desc>,
    pub socks: Vec<Sock>,
    pub ptys: Vec<Pty>,
    pub lst: Vec<Lst>,
    pub ino: Vec<Inode>,
    pub fslog: Vec<String>,
    pub procs: Vec<Proc>,
    pub next_pid: i32,
    pub next_pid_hint: Vec<i32>,
    pub cwd: String,
    pub uid: u32,
    pub pid: i32,
    /// credentials the next connect() carries
    pub cred: (i32, u32),
    pub gid: u32,
    /// the group of whoever is at the other end of a connection
    pub peer_gid: u32,
    pub sock_cap: usize,
    /// shells leave background jobs behind which keep their terminals open
    pub linger: bool,
    /// which of the standard descriptors are the terminal
    pub con_ttys: u8,
    pub con_in: Q,
    pub con_eof: bool,
    pub con_out: Vec<u8>,
    pub con_err: Vec<u8>,
    pub con_termios: libc::termios,
    pub con_termlog: Vec<libc::termios>,
    pub con_size: [u16; 4],
    pub sighandlers: Vec<(i32, libc::sigaction)>,
    pub exit_hook: Option<fn(i32)>,
    pub fork_hook: Option<fn() -> bool>,
    pub exec_hook: Option<unsafe fn(*const libc::c_char, *const *const libc::c_char, *const *const libc::c_char)>,
    pub in_child: bool,
    /// forking leads to a process of its own, with the forking thread only
    pub fork_real: bool,
    pub umask: u32,
    /// locked files, and the open file description which holds the lock
    pub flocks: Vec<(usize, usize)>,
    /// programs started by posix_spawn: path, arguments, environment
    pub spawned: Vec<Spawned>,
    /// setsid was called in the child
    pub own_sid: bool,
    pub no_close_range: bool,
    pub cloexec: Vec<bool>,
    pub pre: Pre,
    pub keyn: u32,
    pub key_dtors: Vec<usize>,
    pub short_reads: bool,
    pub passwd: (&'static str, &'static str, &'static str),
    pub next_hup: Hup,
    pub comm: String,
    pub fail_fork: bool,
    pub tie: bool,
}

static mut KP: *mut K = std::ptr::null_mut();
pub fn up() -> bool {
    unsafe { !KP.is_null() }
}
/// The kernel. See the module comment for when this reference may live.
#[allow(static_mut_refs)]
pub fn k() -> &'static mut K {
    unsafe { &mut *KP }
}

pub fn kboot() {
    let mut t: libc::termios = unsafe { std::mem::zeroed() };
    t.c_lflag = libc::ECHO | libc::ICANON | libc::ISIG | libc::IEXTEN;
    t.c_iflag = libc::ICRNL | libc::IXON;
    t.c_oflag = libc::OPOST | libc::ONLCR;
    let kk = Box::new(K {
        now: 1_000 * SEC,
        sec: 1_000 * SEC,
        real: 1_000 * SEC,
        wall0: 1_700_000_000,
        limit: 2_000 * SEC,
        cur: 0,
        th: vec![],
        runq: VecDeque::new(),
        fds: vec![],
        fd_proc: vec![],
        exited: vec![],
        con_room: usize::MAX,
        desc: vec![],
        socks: vec![],
        ptys: vec![],
        lst: vec![],
        ino: vec![],
        fslog: vec![],
        procs: vec![],
        next_pid: 1000,
        next_pid_hint: vec![],
        cwd: String::from("/"),
        uid: 1000,
        pid: 100,
        cred: (200, 1000),
        gid: 1000,
        peer_gid: 1000,
        sock_cap: 200_000,
        linger: false,
        con_ttys: 7,
        con_in: Q::new(),
        con_eof: false,
        con_out: vec![],
        con_err: vec![],
        con_termios: t,
        con_termlog: vec![],
        con_size: [24, 80, 0, 0],
        sighandlers: vec![],
        exit_hook: None,
        fork_hook: None,
        exec_hook: None,
        in_child: false,
        fork_real: false,
        umask: 0o022,
        flocks: vec![],
        spawned: vec![],
        own_sid: false,
        no_close_range: false,
        cloexec: vec![],
        pre: Pre { budget: 0, kinds: 0, stalls: &[], any: 0, name: "", skip: 0, max_sites: u32::MAX },
        keyn: 0,
        key_dtors: vec![],
        short_reads: false,
        passwd: ("u", "/home/u", "/bin/bash"),
        next_hup: Hup::Die,
        comm: String::from("bash"),
        fail_fork: false,
        tie: false,
    });
    unsafe { KP = Box::into_raw(kk) };
    new_th(0, 0, 0);
    k().th[0].harness = true;
    for i in 0..3 {
        let d = new_desc(Obj::Console(i));
        k().fds.push(Some(d));
    }
}

pub fn new_th(rt: u32, start: usize, arg: usize) -> usize {
    let proc = if k().th.is_empty() { 0 } else { k().th[k().cur].proc };
    k().th.push(Th {
        rt,
        st: St::Run,
        keys: vec![],
        deadline: u64::MAX,
        woken: false,
        name: [0; 16],
        start,
        arg,
        ret: 0,
        tls: vec![],
        dtors: vec![],
        harness: false,
        proc,
    });
    k().th.len() - 1
}

pub fn new_desc(obj: Obj) -> usize {
    k().desc.push(Desc { refs: 1, nonblock: false, append: false, pos: 0, obj });
    k().desc.len() - 1
}
pub fn new_fd(d: usize, from: usize) -> i32 {
    let f = &mut k().fds;
    let mut i = from;
    loop {
        if i >= f.len() {
            f.resize_with(i + 1, || None);
        }
        if f[i].is_none() {
            f[i] = Some(d);
            let p = k().th[k().cur].proc;
            let o = &mut k().fd_proc;
            if o.len() <= i {
                o.resize(i + 1, 0);
            }
            o[i] = p;
            let c = &mut k().cloexec;
            if c.len() <= i {
                c.resize(i + 1, false);
            }
            c[i] = false;
            return i as i32;
        }
        i += 1;
    }
}

/// Set close-on-exec on a descriptor just made.
pub fn cloexec(fd: i32, on: bool) -> i32 {
    if on && fd >= 0 {
        k().cloexec[fd as usize] = true;
    }
    fd
}

// wait keys
pub fn k_sock(i: usize) -> u64 {
    1 << 56 | i as u64
}
pub fn k_pty(i: usize) -> u64 {
    2 << 56 | i as u64
}
pub fn k_lst(i: usize) -> u64 {
    3 << 56 | i as u64
}
pub fn k_proc(p: i32) -> u64 {
    4 << 56 | p as u64
}
pub fn k_thread(i: usize) -> u64 {
    5 << 56 | i as u64
}
pub const K_CON: u64 = 6 << 56;

/// Wake up to n threads waiting for the key.
pub fn wake(key: u64, n: usize) -> usize {
    let kk = k();
    let mut c = 0;
    for i in 0..kk.th.len() {
        if c == n {
            break;
        }
        if kk.th[i].st == St::Blocked && kk.th[i].keys.iter().any(|x| *x == key) {
            kk.th[i].st = St::Run;
            kk.th[i].woken = true;
            kk.th[i].keys.clear();
            kk.runq.push_back(i);
            c += 1;
        }
    }
    c
}

/// Wait for one of the keys or the deadline; true if woken by a key.
pub fn block(keys: &[u64], deadline: u64) -> bool {
    let kk = k();
    let me = kk.cur;
    let t = &mut kk.th[me];
    t.keys.clear();
    t.keys.extend_from_slice(keys);
    t.deadline = deadline;
    t.woken = false;
    t.st = St::Blocked;
    resched();
    k().th[me].woken
}

fn go(t: usize) {
    let kk = k();
    if t == kk.cur {
        return;
    }
    kk.cur = t;
    let r = kk.th[t].rt;
    unsafe { rt::rsym_switch(r) };
}

pub fn resched() {
    loop {
        let kk = k();
        if let Some(t) = kk.runq.pop_front() {
            go(t);
            return;
        }
        let mut settled = None;
        let mut min = u64::MAX;
        for i in 0..kk.th.len() {
            let t = &kk.th[i];
            match t.st {
                St::Settling => {
                    settled = Some(i);
                    break;
                }
                St::Blocked if t.deadline < min => min = t.deadline,
                _ => {}
            }
        }
        if let Some(i) = settled {
            kk.th[i].st = St::Run;
            kk.runq.push_back(i);
            continue;
        }
        if min == u64::MAX {
            dump();
            rt::fail("deadlock: every thread is blocked forever");
        }
        if min > kk.now {
            kk.now = min;
        }
        if kk.now > kk.limit {
            dump();
            rt::fail("the scenario does not finish in its time limit");
        }
        for i in 0..kk.th.len() {
            let t = &mut kk.th[i];
            if t.st == St::Blocked && t.deadline <= kk.now {
                t.st = St::Run;
                t.woken = false;
                t.keys.clear();
                kk.runq.push_back(i);
            }
        }
        // threads whose timers fire at the same instant may run in any order
        if kk.tie && kk.runq.len() > 1 && rt::choose(2, "tie") == 1 {
            let f = kk.runq.pop_front().unwrap();
            kk.runq.push_back(f);
        }
    }
}

pub fn dump() {
    for (i, t) in k().th.iter().enumerate() {
        let n: String = t.name.iter().take_while(|c| **c != 0).map(|c| *c as char).collect();
        let s = match t.st {
            St::Run => "run",
            St::Blocked => "blocked",
            St::Settling => "settling",
            St::Done => "done",
        };
        rt::log(&format!("thread {} {} {} keys {:x?} deadline {}", i, n, s, t.keys, t.deadline));
    }
}

/// Let everything run until nothing can go on without time passing.
pub fn settle() {
    let kk = k();
    let me = kk.cur;
    kk.th[me].st = St::Settling;
    resched();
}
pub fn sleep(ns: u64) {
    block(&[], after(ns));
}
pub fn after(ns: u64) -> u64 {
    if ns >= 1 << 62 {
        u64::MAX
    } else {
        k().now + ns
    }
}
/// Let time pass, and everything which is due happen.
pub fn advance(ns: u64) {
    sleep(ns);
    settle();
}
pub fn to_back() {
    let kk = k();
    let me = kk.cur;
    kk.runq.push_back(me);
    resched();
}

/// An arbitrary time of up to `max` milliseconds, all of which are explored at
/// once: what happens first is decided by the solver when it matters.
pub fn any_ms(name: &str, max: u8) -> u64 {
    let v = rt::sym_u8(name);
    if max < 255 {
        rt::assume(v <= max);
    }
    v as u64 * MS
}

/// A point where the running thread may be preempted, if the scenario asks for it.
pub fn yield_point(kind: u32) {
    if !up() {
        return;
    }
    let kk = k();
    if kk.in_child {
        return;
    }
    let p = &mut kk.pre;
    if p.budget == 0 || p.kinds & (1 << kind) == 0 {
        return;
    }
    let t = &kk.th[kk.cur];
    if t.harness || !t.name.starts_with(p.name.as_bytes()) {
        return;
    }
    if p.skip > 0 {
        p.skip -= 1;
        return;
    }
    if p.max_sites == 0 {
        return;
    }
    p.max_sites -= 1;
    let any = p.any;
    let n = if any > 0 { 2 } else { 1 + p.stalls.len() as u32 };
    let c = rt::choose(n, "preempt");
    if c == 0 {
        return;
    }
    let kk = k();
    kk.pre.budget -= 1;
    if any > 0 {
        block(&[], kk.now + any_ms("stall", any));
        return;
    }
    let s = kk.pre.stalls[c as usize - 1];
    if s == 0 {
        to_back();
    } else {
        let d = kk.now + s;
        block(&[], d);
    }
}

// ---------------------------------------------------------------- sockets
pub fn new_sock(cred: (i32, u32)) -> usize {
    let cap = k().sock_cap;
    k().socks.push(Sock {
        rx: Q::new(),
        cap,
        shut_rd: false,
        shut_wr: false,
        reset: false,
        open: true,
        peer: usize::MAX,
        rto: 0,
        wto: 0,
        cred,
        is_pipe: false,
    });
    k().socks.len() - 1
}
pub fn pair(a: usize, b: usize) {
    k().socks[a].peer = b;
    k().socks[b].peer = a;
}
pub fn close_sock(i: usize) {
    let kk = k();
    kk.socks[i].open = false;
    let p = kk.socks[i].peer;
    if p != usize::MAX {
        if kk.socks[i].rx.len() > 0 && !kk.socks[i].is_pipe {
            kk.socks[p].reset = true;
        }
        kk.socks[p].shut_rd = true;
        kk.socks[p].shut_wr = true;
        wake(k_sock(p), usize::MAX);
    }
    wake(k_sock(i), usize::MAX);
}
pub fn drop_desc(d: usize) {
    let kk = k();
    kk.desc[d].refs -= 1;
    if kk.desc[d].refs > 0 {
        return;
    }
    kk.flocks.retain(|l| l.1 != d);
    match kk.desc[d].obj {
        Obj::Sock(i) => close_sock(i),
        Obj::Listener(i) => {
            kk.lst[i].open = false;
            while let Some(s) = k().lst[i].q.pop_front() {
                close_sock(s);
            }
        }
        Obj::Master(p) => {
            kk.ptys[p].master = false;
            // the shell loses its terminal
            let pid = kk.ptys[p].pid;
            wake(k_pty(p), usize::MAX);
            if pid != 0 {
                signal(pid, libc::SIGHUP);
            }
        }
        Obj::Slave(p) => slave_close(p),
        _ => {}
    }
}
pub fn slave_close(p: usize) {
    let t = &mut k().ptys[p];
    if t.slave {
        t.slave = false;
        t.closed = true;
        wake(k_pty(p), usize::MAX);
    }
}

// ---------------------------------------------------------------- processes
pub fn proc_ix(pid: i32) -> Option<usize> {
    k().procs.iter().rposition(|p| p.pid == pid)
}
pub fn proc_exit(pid: i32, status: i32) {
    if let Some(i) = proc_ix(pid) {
        let kk = k();
        if kk.procs[i].st != P::Alive {
            return;
        }
        kk.procs[i].st = P::Zombie(status);
        if let Some(p) = kk.procs[i].pty {
            if !kk.linger {
                slave_close(p);
            }
        }
        wake(k_proc(pid), usize::MAX);
    }
}
struct Later {
    pid: i32,
    ns: u64,
}
extern "C" fn later(p: *mut u8) {
    let l = unsafe { Box::from_raw(p as *mut Later) };
    sleep(l.ns);
    proc_exit(l.pid, libc::SIGHUP);
    thread_end();
}
/// Send a signal the way kill(2) would; an errno on failure.
pub fn signal(pid: i32, sig: i32) -> i32 {
    let i = match proc_ix(pid) {
        Some(i) => i,
        None => return libc::ESRCH,
    };
    let kk = k();
    let p = &mut kk.procs[i];
    match p.st {
        P::Reaped => {
            p.late.push(sig);
            libc::ESRCH
        }
        P::Zombie(_) => {
            p.sigs.push(sig);
            0
        }
        P::Alive => {
            p.sigs.push(sig);
            match (sig, if sig == libc::SIGTERM { p.term } else { p.hup }) {
                (libc::SIGKILL, _) => proc_exit(pid, libc::SIGKILL),
                (libc::SIGHUP | libc::SIGTERM, Hup::Die) => proc_exit(pid, sig),
                (libc::SIGHUP | libc::SIGTERM, Hup::DieAfter(ns)) => {
                    p.hup = Hup::Ignore;
                    p.term = Hup::Ignore;
                    let b = Box::into_raw(Box::new(Later { pid, ns }));
                    let r = unsafe { rt::rsym_thread_new(later, b as *mut u8) };
                    let t = new_th(r, 0, 0);
                    k().th[t].harness = true;
                    k().runq.push_back(t);
                }
                _ => {}
            }
            0
        }
    }
}

// ---------------------------------------------------------------- threads
pub fn thread_end() -> ! {
    let kk = k();
    let me = kk.cur;
    kk.th[me].st = St::Done;
    wake(k_thread(me), usize::MAX);
    resched();
    rt::fail("a finished thread ran again");
}

/// The current thread's process ends: its threads stop where they are and
/// its descriptors are closed.
pub fn end_proc(code: i32) -> ! {
    let me = k().cur;
    let p = k().th[me].proc;
    k().exited.push((p, code));
    for i in 0..k().th.len() {
        if i != me && k().th[i].proc == p {
            k().th[i].st = St::Done;
            k().th[i].keys.clear();
            k().runq.retain(|x| *x != i);
        }
    }
    for i in 0..k().fds.len() {
        if k().fd_proc.get(i).copied() == Some(p) {
            if let Some(d) = k().fds[i].take() {
                drop_desc(d);
            }
        }
    }
    thread_end()
}

// ---------------------------------------------------------------- files
pub fn mknode(node: Node, mode: u32) -> usize {
    let uid = k().uid;
    k().ino.push(Inode { node, mode, uid, nlink: 1 });
    k().ino.len() - 1
}
pub fn dir_get(d: usize, name: &str) -> Option<usize> {
    match &k().ino[d].node {
        Node::Dir(es) => es.iter().find(|e| e.0 == name).map(|e| e.1),
        _ => None,
    }
}
pub fn dir_put(d: usize, name: &str, i: usize) {
    if let Node::Dir(es) = &mut k().ino[d].node {
        es.push((name.to_string(), i));
    }
}
pub fn dir_del(d: usize, name: &str) {
    if let Node::Dir(es) = &mut k().ino[d].node {
        es.retain(|e| e.0 != name);
    }
}
/// Where a path leads: the directory it is in, its last component, the inode if it exists, and
/// the path with every link resolved.
pub struct Found {
    pub dir: usize,
    pub name: String,
    pub ino: Option<usize>,
    pub real: String,
}
pub fn lookup(path: &str, follow: bool) -> Result<Found, i32> {
    let mut todo: Vec<String> = vec![];
    let mut real: Vec<(String, usize)> = vec![];
    let push = |todo: &mut Vec<String>, p: &str| {
        for c in p.split('/').rev() {
            if !c.is_empty() {
                todo.push(c.to_string());
            }
        }
    };
    if path.is_empty() {
        return Err(libc::ENOENT);
    }
    push(&mut todo, path);
    if !path.starts_with('/') {
        let cwd = k().cwd.clone();
        push(&mut todo, &cwd);
    }
    let mut links = 0;
    let trail = path.ends_with('/');
    loop {
        let dir = real.last().map(|x| x.1).unwrap_or(0);
        let c = match todo.pop() {
            Some(c) => c,
            None => {
                let rp = rpath(&real);
                let name = real.last().map(|x| x.0.clone()).unwrap_or_default();
                let parent = if real.len() > 1 { real[real.len() - 2].1 } else { 0 };
                return Ok(Found { dir: parent, name, ino: Some(dir), real: rp });
            }
        };
        if !matches!(k().ino[dir].node, Node::Dir(_)) {
            return Err(libc::ENOTDIR);
        }
        if c == "." {
            continue;
        }
        if c == ".." {
            real.pop();
            continue;
        }
        if c.len() > 255 {
            return Err(libc::ENAMETOOLONG);
        }
        match dir_get(dir, &c) {
            None => {
                if todo.is_empty() {
                    let mut rp = rpath(&real);
                    if rp != "/" {
                        rp.push('/');
                    }
                    rp.push_str(&c);
                    return Ok(Found { dir, name: c, ino: None, real: rp });
                }
                return Err(libc::ENOENT);
            }
            Some(i) => {
                let link = match &k().ino[i].node {
                    Node::Link(t) => Some(t.clone()),
                    _ => None,
                };
                match link {
                    Some(t) if follow || trail || !todo.is_empty() => {
                        links += 1;
                        if links > 20 {
                            return Err(libc::ELOOP);
                        }
                        if t.starts_with('/') {
                            real.clear();
                        }
                        push(&mut todo, &t);
                    }
                    _ => real.push((c, i)),
                }
            }
        }
    }
}
fn rpath(v: &[(String, usize)]) -> String {
    if v.is_empty() {
        return String::from("/");
    }
    let mut s = String::new();
    for x in v {
        s.push('/');
        s.push_str(&x.0);
    }
    s
}
pub fn fslog(what: &str, path: &str) {
    let mut s = String::with_capacity(what.len() + path.len() + 1);
    s.push_str(what);
    s.push(' ');
    s.push_str(path);
    k().fslog.push(s);
}

/// Run the handler this process has for a signal.
pub fn deliver(sig: i32) {
    let mut h = 0;
    for x in k().sighandlers.iter() {
        if x.0 == sig {
            h = x.1.sa_sigaction;
        }
    }
    if h > 1 {
        let f: extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) = unsafe { std::mem::transmute(h) };
        let mut i: libc::siginfo_t = unsafe { std::mem::zeroed() };
        f(sig, &mut i, std::ptr::null_mut());
    }
}
