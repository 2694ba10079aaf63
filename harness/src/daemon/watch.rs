//! The configuration: which files make it up, and that the daemon notices when they change.
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;
use libshpool::verif::config::{Config, Manager};
use notify::event::{CreateKind, DataChange, MetadataKind, ModifyKind, RemoveKind, RenameMode};
use notify::EventKind;
use std::path::Path;

const SYS: &str = "/etc/shpool/config.toml";
const USER: &str = "/home/u/.config/shpool/config.toml";

fn ino(p: &str) -> Option<u64> {
    match lookup(p, false) {
        Ok(Found { ino: Some(i), .. }) => Some(i as u64 + 10),
        _ => None,
    }
}
fn split(p: &str) -> (&str, &str) {
    let i = p.rfind('/').unwrap();
    (if i == 0 { "/" } else { &p[..i] }, &p[i + 1..])
}
fn emit(kind: EventKind, p: &str, file: Option<u64>, dir: bool) {
    let d = if dir { ino(split(p).0) } else { None };
    notify::sim::emit(kind, Path::new(p), file, d);
}
fn data() -> EventKind {
    EventKind::Modify(ModifyKind::Data(DataChange::Any))
}
fn attrib() -> EventKind {
    EventKind::Modify(ModifyKind::Metadata(MetadataKind::Any))
}
fn name(m: RenameMode) -> EventKind {
    EventKind::Modify(ModifyKind::Name(m))
}
/// The contents of a file have been changed already.
pub fn touched(p: &str) {
    emit(data(), p, ino(p), true);
}
/// Make the directories which lead to `p`, one by one.
pub fn mkdir_p(p: &str) {
    let mut at = String::new();
    for c in p.split('/').filter(|c| !c.is_empty()) {
        at.push('/');
        at.push_str(c);
        if ino(&at).is_none() {
            mkdirs(&at);
            emit(EventKind::Create(CreateKind::Folder), &at, None, true);
            gap();
        }
    }
}
fn gap() {
    if unsafe { GAPS } {
        settle();
    }
}
static mut GAPS: bool = false;

/// As a shell's `>` does.
pub fn write(p: &str, d: &str) {
    mkdir_p(split(p).0);
    let there = ino(p).is_some();
    put_file(p, b"");
    if there {
        touched(p);
    } else {
        emit(EventKind::Create(CreateKind::File), p, ino(p), true);
    }
    gap();
    if !d.is_empty() {
        put_file(p, d.as_bytes());
        touched(p);
    }
}
/// As editors do which write another file and move it into place. The old file may be kept
/// under another name, or by somebody who has it open.
pub fn replace(p: &str, d: &str, kept: bool) {
    let (dir, base) = split(p);
    let t = format!("{p}.tmp");
    write(&t, d);
    gap();
    let old = ino(p);
    let di = mkdirs(dir);
    let n = (ino(&t).unwrap() - 10) as usize;
    dir_del(di, &split(&t).1);
    dir_del(di, base);
    dir_put(di, base, n);
    emit(name(RenameMode::From), &t, None, true);
    emit(name(RenameMode::To), p, None, true);
    if old.is_some() {
        emit(attrib(), p, old, false);
        if !kept {
            gone(p, old);
        }
    }
}
fn gone(p: &str, i: Option<u64>) {
    emit(EventKind::Remove(RemoveKind::File), p, i, false);
    if let Some(i) = i {
        notify::sim::forget(i);
    }
}
pub fn remove(p: &str) {
    let (dir, base) = split(p);
    let i = ino(p);
    dir_del(mkdirs(dir), base);
    emit(attrib(), p, i, false);
    emit(EventKind::Remove(RemoveKind::File), p, None, true);
    gone(p, i);
}
/// Out of the way, in the same directory.
pub fn move_away(p: &str) {
    let (dir, base) = split(p);
    let i = ino(p);
    let n = (i.unwrap() - 10) as usize;
    let d = mkdirs(dir);
    dir_del(d, base);
    dir_del(d, &format!("{base}~"));
    dir_put(d, &format!("{base}~"), n);
    emit(name(RenameMode::From), p, None, true);
    emit(name(RenameMode::To), &format!("{p}~"), None, true);
    emit(name(RenameMode::From), p, i, false);
}
/// rm -r of the directory
pub fn remove_dir(p: &str) {
    let (dir, _) = split(p);
    remove(p);
    gap();
    let i = ino(dir);
    let (up, base) = split(dir);
    dir_del(mkdirs(up), base);
    emit(EventKind::Remove(RemoveKind::Folder), dir, i, false);
    emit(EventKind::Remove(RemoveKind::Folder), dir, None, true);
    if let Some(i) = i {
        notify::sim::forget(i);
    }
}

/// What a file of the model holds.
#[derive(Clone, PartialEq)]
enum F {
    None,
    Good(u32),
    Bad,
}
fn text(which: usize, n: u32) -> String {
    format!("prompt_prefix = \"{which}{n}\"\n{}", ["shell = \"/bin/sys\"\n", "default_dir = \"/tmp\"\n"][which])
}
/// What the daemon should go by: `None` if nothing can be made of the files.
fn wanted(f: &[F; 2]) -> Option<(Option<String>, bool, bool)> {
    let mut prefix = None;
    let mut set = [false, false];
    for i in 0..2 {
        match &f[i] {
            F::Bad => return None,
            F::Good(n) => {
                prefix = Some(format!("{i}{n}"));
                set[i] = true;
            }
            F::None => {}
        }
    }
    Some((prefix, set[0], set[1]))
}
fn have(c: &Config) -> (Option<String>, bool, bool) {
    (c.prompt_prefix.clone(), c.shell.is_some(), c.default_dir.is_some())
}
/// One thing a user does to a file.
fn act(op: u32, p: &str, i: usize, n: u32, f: &mut F) {
    let there = ino(p).is_some();
    match op {
        0 => {
            write(p, &text(i, n));
            *f = F::Good(n);
        }
        1 | 2 => {
            replace(p, &text(i, n), op == 2);
            *f = F::Good(n);
        }
        3 => {
            write(p, "prompt_prefix = [\n");
            *f = F::Bad;
        }
        4..=6 => {
            if there {
                match op {
                    4 => remove(p),
                    5 => remove_dir(p),
                    _ => move_away(p),
                }
            }
            *f = F::None;
        }
        7 => notify::sim::rescan(),
        _ => notify::sim::error(),
    }
}

fn start(which: Option<&str>) -> Manager {
    match Manager::new(which) {
        Ok(m) => m,
        Err(_) => fail("the configuration cannot be loaded"),
    }
}
fn place(p: &str, i: usize, what: u32) -> F {
    match what {
        0 => F::None,
        1 => {
            mkdirs(split(p).0);
            F::None
        }
        _ => {
            put_file(p, text(i, 0).as_bytes());
            F::Good(0)
        }
    }
}
type Seen = (Option<String>, bool, bool);
/// `may`: what the daemon may go by as long as the files make no sense.
fn agree(m: &Manager, f: &[F; 2], may: &mut Vec<Seen>) {
    let got = have(&m.get());
    match wanted(f) {
        Some(w) => {
            check(got == w, "the configuration is not that of the files");
            *may = vec![w];
        }
        None => {
            check(may.contains(&got), "a file which makes no sense changes the configuration");
            *may = vec![got];
        }
    }
}
fn world() {
    boot();
    limit(100 * SEC);
    mkdirs("/etc");
    mkdirs("/home/u");
}
/// Steps on either file, with or without time for the daemon to look in between.
fn steps(n: u32, f: &mut [F; 2], paths: [&str; 2], m: &Manager, ops: &[u32]) {
    let mut may = vec![];
    agree(m, f, &mut may);
    for s in 0..n {
        let i = choose(2, "file") as usize;
        let op = ops[choose(ops.len() as u32, "op") as usize];
        act(op, paths[i], i, s + 1, &mut f[i]);
        if s + 1 < n && choose_bool("hurry") {
            // the daemon need not notice what is there for a moment
            if n == 2 {
                advance(any_ms("gap", 255));
            } else {
                settle();
            }
            may.extend(wanted(f));
            continue;
        }
        advance(400 * MS);
        agree(m, f, &mut may);
    }
    reach("steps");
}

/// Whatever has happened, the next change is noticed.
fn alert(m: &Manager, f: &mut [F; 2], paths: [&str; 2]) {
    let mut may = vec![];
    for i in [1, 0] {
        write(paths[i], &text(i, 8));
        f[i] = F::Good(8);
        advance(400 * MS);
        if f.iter().all(|f| *f != F::Bad) {
            agree(m, f, &mut may);
        }
    }
    agree(m, f, &mut may);
}
fn user_file() -> &'static str {
    if choose_bool("beside") {
        // what is missing may have to be looked for in the same directory
        crate::sim::set_env(&[("HOME", "/home/u"), ("XDG_CONFIG_HOME", "/etc/xdg")]);
        "/etc/xdg/shpool/config.toml"
    } else {
        crate::sim::set_env(&[("HOME", "/home/u")]);
        USER
    }
}
/// Two things happen to the files.
pub fn reload() {
    world();
    let user = user_file();
    let mut f = [F::None, F::None];
    f[0] = place(SYS, 0, choose(3, "system"));
    f[1] = place(user, 1, choose(3, "user"));
    unsafe { GAPS = choose_bool("gaps") };
    let m = start(None);
    advance(200 * MS);
    steps(2, &mut f, [SYS, user], &m, &[0, 1, 2, 3, 4, 5, 6, 7, 8]);
    alert(&m, &mut f, [SYS, user]);
    reach("END");
}
/// Three.
pub fn long() {
    world();
    crate::sim::set_env(&[("HOME", "/home/u")]);
    let mut f = [F::None, F::None];
    f[1] = place(USER, 1, choose(3, "user"));
    unsafe { GAPS = true };
    let m = start(None);
    advance(200 * MS);
    steps(3, &mut f, [SYS, USER], &m, &[0, 1, 2, 3, 4, 5, 6, 7]);
    alert(&m, &mut f, [SYS, USER]);
    reach("END");
}

/// One thing happens, and the daemon is slow to look.
pub fn race() {
    world();
    let mut f = [F::None, F::None];
    unsafe { GAPS = true };
    let user = user_file();
    f[1] = place(user, 1, choose(3, "user"));
    let m = start(None);
    advance(200 * MS);
    preempt_any(1, 60);
    let op = [0, 1, 5, 6, 7][choose(5, "op") as usize];
    act(op, user, 1, 1, &mut f[1]);
    advance(choose(2, "pause") as u64 * 5 * MS);
    if choose_bool("more") {
        let op = [0, 1, 4][choose(3, "second") as usize];
        act(op, user, 1, 2, &mut f[1]);
    }
    advance(100 * MS);
    no_preempt();
    advance(500 * MS);
    let mut may = vec![];
    agree(&m, &f, &mut may);
    unsafe { GAPS = false };
    alert(&m, &mut f, [SYS, user]);
    reach("END");
}

type Field = (&'static str, [&'static str; 2], fn(&Config) -> String);
const FIELDS: [Field; 20] = [
    ("norc", ["true", "false"], |c| format!("{:?}", c.norc)),
    ("noecho", ["true", "false"], |c| format!("{:?}", c.noecho)),
    ("nosymlink_ssh_auth_sock", ["true", "false"], |c| format!("{:?}", c.nosymlink_ssh_auth_sock)),
    ("noread_etc_environment", ["true", "false"], |c| format!("{:?}", c.noread_etc_environment)),
    ("nodaemonize", ["true", "false"], |c| format!("{:?}", c.nodaemonize)),
    ("nodaemonize_timeout", ["true", "false"], |c| format!("{:?}", c.nodaemonize_timeout)),
    ("shell", ["\"/a\"", "\"/b\""], |c| format!("{:?}", c.shell)),
    ("env", ["{A = \"1\"}", "{B = \"2\"}"], |c| format!("{:?}", c.env)),
    ("default_dir", ["\"/a\"", "\"/b\""], |c| format!("{:?}", c.default_dir)),
    ("forward_env", ["[\"A\"]", "[\"B\"]"], |c| format!("{:?}", c.forward_env)),
    ("initial_path", ["\"/a\"", "\"/b\""], |c| format!("{:?}", c.initial_path)),
    ("session_restore_mode", ["\"simple\"", "{lines = 5}"], |c| format!("{:?}", c.session_restore_mode)),
    ("session_restore_engine", ["\"vt100\"", "\"vterm\""], |c| format!("{:?}", c.session_restore_engine)),
    ("output_spool_lines", ["5", "0"], |c| format!("{:?}", c.output_spool_lines)),
    ("vt100_output_spool_width", ["5", "0"], |c| format!("{:?}", c.vt100_output_spool_width)),
    ("keybinding", ["[{binding = \"Ctrl-a\", action = \"detach\"}]", "[{binding = \"Ctrl-b\", action = \"noop\"}]"], |c| format!("{:?}", c.keybinding)),
    ("prompt_prefix", ["\"a\"", "\"\""], |c| format!("{:?}", c.prompt_prefix)),
    ("motd", ["\"dump\"", "\"never\""], |c| format!("{:?}", c.motd)),
    ("motd_args", ["[\"A\"]", "[]"], |c| format!("{:?}", c.motd_args)),
    ("var_default", ["[{var = \"a\", value = \"1\"}]", "[]"], |c| format!("{:?}", c.var_default)),
];

/// Each field comes from the file which counts most.
pub fn merge() {
    world();
    crate::sim::set_env(&[("HOME", "/home/u")]);
    let (field, val, get) = FIELDS[choose(20, "field") as usize];
    let home = choose(3, "home");
    let user = match home {
        0 => USER,
        1 => {
            crate::sim::set_env(&[("HOME", "/home/u"), ("XDG_CONFIG_HOME", "/home/u/xdg")]);
            // the usual place does not count then
            put_file(USER, format!("{field} = {}\n", val[0]).as_bytes());
            "/home/u/xdg/shpool/config.toml"
        }
        _ => "/home/u/mine.toml",
    };
    // none, without the field, with it
    let here = [choose(4, "system"), choose(4, "user")];
    for (i, p) in [SYS, user].iter().enumerate() {
        let line = match here[i] {
            0 => continue,
            1 => String::new(),
            n => format!("{field} = {}\n", val[n as usize - 2]),
        };
        put_file(p, line.as_bytes());
    }
    if home == 2 {
        put_file(USER, format!("{field} = {}\n", val[0]).as_bytes());
    }
    let m = start(if home == 2 { Some(user) } else { None });
    let of = |n: u32| match n {
        0 | 1 => None,
        n => Some(format!("{field} = {}\n", val[n as usize - 2])),
    };
    let from = of(here[1]).or(if home == 2 { None } else { of(here[0]) });
    let want: Config = match toml::from_str(&from.clone().unwrap_or_default()) {
        Ok(c) => c,
        Err(_) => fail("the configuration does not parse"),
    };
    check(get(&m.get()) == get(&want), "a setting does not come from the file which counts");
    check((get(&want) != get(&Config::default())) == from.is_some(), "a setting is not understood");
    for (other, _, get) in FIELDS {
        if other != field {
            check(get(&m.get()) == get(&Config::default()), "a setting is changed which is in no file");
        }
    }
    reach("END");
}

/// A file which makes no sense, or cannot be read, when a command starts.
pub fn invalid() {
    world();
    let which = choose(2, "file") as usize;
    let explicit = choose_bool("explicit");
    let bad = ["prompt_prefix = [\n", "norc = 3\n", "motd = \"loud\"\n", "x", "norc = true\nnorc = false\n"][choose(5, "what") as usize];
    put_file([SYS, USER][which], bad.as_bytes());
    put_file([USER, SYS][which], b"norc = true\n");
    if explicit {
        put_file("/home/u/c.toml", b"noecho = true\n");
        let m = start(Some("/home/u/c.toml"));
        check(m.get().norc.is_none() && m.get().noecho == Some(true), "other files count although one is given");
        reach("explicit");
        return;
    }
    check(Manager::new(None).is_err(), "a configuration which makes no sense is ignored");
    reach("END");
}

/// A given file is watched as well, under a path which leads through the directory one is in.
pub fn explicit() {
    world();
    k().cwd = String::from("/home/u");
    let rel = choose_bool("relative");
    let mut f = [F::None, place("/home/u/x/c.toml", 1, choose(3, "there"))];
    unsafe { GAPS = choose_bool("gaps") };
    let m = start(Some(if rel { "x/c.toml" } else { "/home/u/x/c.toml" }));
    advance(200 * MS);
    let mut may = vec![];
    agree(&m, &f, &mut may);
    for s in 0..2 {
        let op = choose(7, "op");
        act(op, "/home/u/x/c.toml", 1, s + 1, &mut f[1]);
        advance(400 * MS);
        agree(&m, &f, &mut may);
    }
    reach("END");
}

/// Files which keep changing: the daemon must not wait for them to come to rest.
pub fn restless() {
    world();
    let user = user_file();
    let mut f = [place(SYS, 0, 2 * choose(2, "system")), place(user, 1, 2 * choose(2, "user"))];
    let m = start(None);
    advance(200 * MS);
    let how = choose(4, "how");
    let gap = any_ms("gap", 255);
    // what was written, and when
    let mut old: Vec<(u64, Option<Seen>)> = vec![(k().now, wanted(&f))];
    for s in 1..=14 {
        match how {
            0 => act(0, user, 1, s, &mut f[1]),
            1 => act(1, user, 1, s, &mut f[1]),
            2 => {
                let i = s as usize % 2;
                act(0, [SYS, user][i], i, s, &mut f[i]);
            }
            _ => act(if s % 3 == 0 { 4 } else { 0 }, user, 1, s, &mut f[1]),
        }
        old.push((k().now, wanted(&f)));
        advance(gap);
        let got = Some(have(&m.get()));
        let mut i = old.len() - 1;
        while old[i].1 != got {
            check(i > 0, "the configuration is not that of the files");
            // the next one was written long enough ago
            check(k().now - old[i].0 < 500 * MS, "the configuration is out of date");
            i -= 1;
        }
    }
    advance(500 * MS);
    agree(&m, &f, &mut vec![]);
    reach("END");
}
