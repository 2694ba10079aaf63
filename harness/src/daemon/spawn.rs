//! What a new session runs, and in what surroundings.
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;
use libc::c_char;
use std::ffi::CStr;

/// What the program should find.
struct Want {
    prog: Vec<u8>,
    args: Vec<Vec<u8>>,
    env: Vec<(Vec<u8>, Vec<u8>)>,
    cwd: Vec<u8>,
    noecho: bool,
    pty: usize,
    /// whether it can be started at all
    ok: bool,
}
static mut WANT: Option<Want> = None;
#[allow(static_mut_refs)]
fn want() -> &'static mut Want {
    unsafe { WANT.as_mut().unwrap() }
}
fn set(env: &mut Vec<(Vec<u8>, Vec<u8>)>, k: &str, v: &[u8]) {
    env.retain(|e| e.0 != k.as_bytes());
    env.push((k.as_bytes().to_vec(), v.to_vec()));
}

unsafe fn strings(mut p: *const *const c_char) -> Vec<Vec<u8>> {
    let mut v = vec![];
    while !(*p).is_null() {
        v.push(CStr::from_ptr(*p).to_bytes().to_vec());
        p = p.add(1);
    }
    v
}
unsafe fn exec(path: *const c_char, argv: *const *const c_char, envp: *const *const c_char) {
    let w = want();
    check(w.ok, "a program is run in another directory than the one asked for");
    check(same(CStr::from_ptr(path).to_bytes(), &w.prog), "another program is run");
    let args = strings(argv);
    check(args.len() == w.args.len(), "the program gets another number of arguments");
    for (a, b) in args.iter().zip(w.args.iter()) {
        check(same(a, b), "the program gets other arguments");
    }
    let env = strings(envp);
    check(env.len() == w.env.len(), "the environment has another number of variables");
    for (k, v) in w.env.iter() {
        let mut n = 0;
        for e in env.iter() {
            if e.len() > k.len() && e[k.len()] == b'=' && e[..k.len()] == k[..] {
                n += 1;
                check(same(&e[k.len() + 1..], v), "a variable of the environment has another value");
            }
        }
        check(n == 1, "a variable of the environment is missing");
    }
    let kk = k();
    check(same(kk.cwd.as_bytes(), &w.cwd), "the program is run in another directory");
    check(kk.own_sid, "the program is not in a session of its own");
    for fd in 0..kk.fds.len() {
        if let Some(d) = kk.fds[fd] {
            if fd < 3 {
                check(matches!(kk.desc[d].obj, Obj::Slave(p) if p == w.pty), "the standard streams are not the session's terminal");
            } else {
                check(kk.cloexec[fd], "the program inherits a descriptor which is not its own");
            }
        } else {
            check(fd >= 3, "a standard stream is closed");
        }
    }
    let echo = kk.ptys[w.pty].termios.c_lflag & libc::ECHO != 0;
    check(echo != w.noecho, "the terminal echoes when it should not, or the other way round");
    reach("run");
    reach("END");
}
fn not_run(code: i32) {
    check(!want().ok, "the program is not run");
    check(code != 0, "a program which could not be run ends in success");
    reach("not run");
    reach("END");
}
static mut CHILD: bool = false;
fn fork() -> bool {
    unsafe { CHILD }
}
/// From here on, look at what the child does instead of the daemon.
fn in_child(w: Want) {
    unsafe {
        WANT = Some(w);
        CHILD = true;
    }
    k().fork_hook = Some(fork);
    k().exec_hook = Some(exec);
    k().exit_hook = Some(not_run);
}
fn v(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}
fn base(name: &str) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut e = vec![];
    set(&mut e, "HOME", b"/home/u");
    set(&mut e, "PATH", b"/usr/bin:/bin:/usr/sbin:/sbin");
    set(&mut e, "SHPOOL_SESSION_NAME", name.as_bytes());
    set(&mut e, "SHPOOL_SESSION_DIR", format!("/run/shpool/sessions/{name}").as_bytes());
    set(&mut e, "SHELL", b"/bin/bash");
    set(&mut e, "USER", b"u");
    set(&mut e, "SSH_AUTH_SOCK", format!("/run/shpool/sessions/{name}/ssh-auth-sock.socket").as_bytes());
    set(&mut e, "XDG_RUNTIME_DIR", b"/run");
    e
}

/// The environment is made of what it should be made of, and nothing else.
pub fn env() {
    boot();
    let xdg = choose_bool("xdg");
    if xdg {
        crate::sim::set_env(&[("HOME", "/home/u"), ("XDG_RUNTIME_DIR", "/run"), ("TERM", "d"), ("SECRET", "1")]);
    } else {
        crate::sim::set_env(&[("HOME", "/home/u"), ("TERM", "d"), ("SECRET", "1")]);
    }
    let mut cfg = String::new();
    let mut e = base("n1");
    if !xdg {
        e.retain(|x| x.0 != b"XDG_RUNTIME_DIR");
    }
    if choose_bool("path") {
        cfg.push_str("initial_path = \"/opt/bin\"\n");
        set(&mut e, "PATH", b"/opt/bin");
    }
    let mut h = header("n1");
    h.cmd = Some(String::from("prog"));
    let (val, other): ([u8; 2], [u8; 1]) = (sym_array("value"), sym_array("term"));
    assume(val[0] > 0 && val[0] < 128 && val[1] > 0 && val[1] < 128);
    assume(other[0] >= b'a' && other[0] <= b'c');
    let text = |b: &[u8]| unsafe { String::from_utf8_unchecked(b.to_vec()) };
    let etc = choose(3, "etc");
    if etc > 0 {
        put_file("/etc/environment", b"A=etc\nX=etc\n# B=1\n");
    }
    if etc == 2 {
        cfg.push_str("noread_etc_environment = true\n");
    }
    let cterm = choose(4, "cterm");
    let mut term: Option<Vec<u8>> = None;
    if choose_bool("hterm") {
        h.local_env.push((String::from("TERM"), text(&other)));
        term = Some(other.to_vec());
    }
    if cterm > 0 {
        cfg.push_str("[env]\nX = \"cfg\"\nY = \"cfg\"\n");
        set(&mut e, "X", b"cfg");
        set(&mut e, "Y", b"cfg");
        match cterm {
            1 => {}
            2 => {
                cfg.push_str("TERM = \"\"\n");
                term = None;
            }
            _ => {
                cfg.push_str("TERM = \"t9\"\n");
                term = Some(v("t9"));
            }
        }
    }
    if let Some(t) = &term {
        set(&mut e, "TERM", t);
    }
    match choose(3, "henv") {
        0 => {}
        1 => {
            h.local_env.push((String::from("LANG"), text(&val)));
            set(&mut e, "LANG", &val);
        }
        _ => {
            h.local_env.push((String::from("SSH_AUTH_SOCK"), String::from("/tmp/agent")));
            h.local_env.push((String::from("Y"), text(&val)));
            set(&mut e, "Y", &val);
        }
    }
    if etc == 1 {
        set(&mut e, "A", b"etc");
        set(&mut e, "X", b"etc");
    }
    let _d = daemon(&cfg);
    in_child(Want { prog: v("prog"), args: vec![v("prog")], env: e, cwd: v("/home/u"), noecho: false, pty: 0, ok: true });
    let c = Client::attach(h);
    drop(c);
    fail("nothing is run");
}

/// The program, its arguments, its directory and its descriptors.
pub fn program() {
    boot();
    mkdirs("/w/d");
    k().passwd = ("u", "/home/u", ["/bin/bash", "/usr/bin/zsh"][choose(2, "login") as usize]);
    let mut e = base("n2");
    set(&mut e, "SHELL", k().passwd.2.as_bytes());
    let mut cfg = String::from("prompt_prefix = \"\"\n");
    let mut shell = k().passwd.2;
    match choose(4, "shell") {
        0 => {}
        n => {
            shell = ["/usr/bin/fish", "/opt/x", "bash"][n as usize - 1];
            cfg.push_str(&format!("shell = \"{shell}\"\n"));
        }
    }
    let norc = choose_bool("norc");
    // an old kernel
    k().no_close_range = norc;
    if norc {
        cfg.push_str("norc = true\n");
    }
    let noecho = choose_bool("noecho");
    if noecho {
        cfg.push_str("noecho = true\n");
    }
    let mut h = header("n2");
    let x: [u8; 1] = sym_array("byte");
    assume(x[0] > 0 && x[0] < 128 && x[0] != b'\'');
    let q = unsafe { String::from_utf8_unchecked(x.to_vec()) };
    let (prog, args) = match choose(4, "cmd") {
        0 => {
            h.cmd = None;
            let mut a = vec![v(&format!("-{}", &shell[shell.rfind('/').map_or(0, |i| i + 1)..]))];
            if norc {
                let r: &[&str] = if shell.ends_with("bash") {
                    &["--norc", "--noprofile"]
                } else if shell.ends_with("zsh") {
                    &["--no-rcs"]
                } else if shell.ends_with("fish") {
                    &["--no-config"]
                } else {
                    &[]
                };
                a.extend(r.iter().map(|s| v(s)));
            }
            (v(shell), a)
        }
        1 => {
            h.cmd = Some(format!("prog -x 'a {q}' \"b c\"d e\\ f ''"));
            (v("prog"), vec![v("prog"), v("-x"), v(&format!("a {q}")), v("b cd"), v("e f"), v("")])
        }
        2 => {
            h.cmd = Some(String::from("/bin/sh -c 'echo $HOME; exit 3'"));
            (v("/bin/sh"), vec![v("/bin/sh"), v("-c"), v("echo $HOME; exit 3")])
        }
        _ => {
            h.cmd = Some(String::from("bash"));
            (v("bash"), vec![v("bash")])
        }
    };
    let mut cwd = v("/home/u");
    let mut can = true;
    match choose(3, "dir") {
        0 => {}
        1 => {
            h.dir = Some(String::from("/w/d"));
            cwd = v("/w/d");
        }
        _ => {
            h.dir = Some(String::from("/w/gone"));
            can = false;
        }
    }
    let _d = daemon(&cfg);
    let _s = Sub::open();
    // whoever else is there
    let others = choose(3, "others") as usize;
    let mut cs = vec![];
    for i in 0..others {
        let c = Client::named(["a", "b"][i]);
        check(c.created(), "the session is not created");
        cs.push(c);
    }
    if others == 2 && choose_bool("left") {
        cs[1].hangup();
    }
    settle();
    in_child(Want { prog, args, env: e, cwd, noecho, pty: others, ok: can });
    let c = Client::attach(h);
    drop(c);
    fail("nothing is run");
}

/// Commands which cannot be run leave nothing behind.
pub fn bad() {
    boot();
    let _d = daemon("");
    let mut h = header("s");
    h.cmd = Some(String::from(["", "  ", "a 'b", "a \"b"][choose(4, "cmd") as usize]));
    let mut c = Client::attach(h);
    check(!c.created(), "a session which runs nothing is created");
    advance(SEC);
    c.pump();
    check(c.eof, "the connection of a client which cannot attach is kept");
    check(list().is_empty(), "a session which runs nothing is listed");
    check(k().procs.is_empty(), "something is run");
    let c = Client::named("s");
    check(c.created(), "the name cannot be used any more");
    reach("turned down");
}
/// There are no processes left.
pub fn no_fork() {
    boot();
    let _d = daemon("");
    k().fail_fork = true;
    let mut c = Client::named("s");
    check(!c.created(), "a session without a process is created");
    advance(SEC);
    c.pump();
    check(c.eof, "the connection of a client which cannot attach is kept");
    check(list().is_empty(), "a session without a process is listed");
    k().fail_fork = false;
    let c = Client::named("s");
    check(c.created(), "the name cannot be used any more");
    reach("turned down");
}

static mut SKIP: usize = 0;
fn later_fork() -> bool {
    unsafe {
        if SKIP > 0 {
            SKIP -= 1;
            return false;
        }
    }
    true
}
unsafe fn pager_exec(path: *const c_char, argv: *const *const c_char, envp: *const *const c_char) {
    let w = want();
    let mut args = strings(argv);
    check(args.len() == 2 && args[1].starts_with(b"/tmp/shpool_pager"), "the pager is not given its file");
    w.args = args.split_off(0);
    exec(path, argv, envp);
}
/// The pager of a session, in surroundings like the shell's.
pub fn pager() {
    boot();
    put_file("/etc/motd", b"hello\n");
    let mut e = base("n3");
    let v2: [u8; 2] = sym_array("value");
    assume(v2[0] > 0 && v2[0] < 128 && v2[1] > 0 && v2[1] < 128);
    let mut cfg = String::from("session_restore_mode = \"simple\"\n");
    if choose_bool("path") {
        cfg.push_str("initial_path = \"/opt/bin\"\n");
        set(&mut e, "PATH", b"/opt/bin");
    }
    k().no_close_range = choose_bool("old");
    cfg.push_str("[env]\nX = \"cfg\"\n[motd.pager]\nbin = \"/opt/less\"\n");
    set(&mut e, "X", b"cfg");
    let mut h = header("n3");
    h.local_env.push((String::from("LANG"), unsafe { String::from_utf8_unchecked(v2.to_vec()) }));
    set(&mut e, "LANG", &v2);
    let t = h.local_env.iter().find(|x| x.0 == "TERM").map(|x| x.1.clone());
    if let Some(t) = t {
        set(&mut e, "TERM", t.as_bytes());
    }
    h.cmd = Some(String::from("prog"));
    let _d = daemon(&cfg);
    let _s = Sub::open();
    let others = choose(2, "others") as usize;
    let mut cs = vec![];
    for _ in 0..others {
        let mut c = Client::named("a");
        check(c.created(), "the session is not created");
        advance(300 * MS);
        c.pump();
        check(k().ptys.len() == 2, "no pager is run");
        cs.push(c);
    }
    in_child(Want { prog: v("/opt/less"), args: vec![], env: e, cwd: v(&k().cwd.clone()), noecho: false, pty: 2 * others + 1, ok: true });
    unsafe { SKIP = 1 };
    k().fork_hook = Some(later_fork);
    k().exec_hook = Some(pager_exec);
    let c = Client::attach(h);
    advance(SEC);
    drop(c);
    fail("no pager is run");
}
