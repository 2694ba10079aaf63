//! The other commands of the client, from the command line to what they print.
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;
use clap::Parser;
use shpool_protocol::*;

/// Run this command line in a process of its own.
pub fn shpool(id: usize, words: &[&str]) {
    let w: Vec<String> = words.iter().map(|s| s.to_string()).collect();
    process(id, move || {
        let a = libshpool::Args::try_parse_from(w);
        match a {
            Ok(a) => unsafe { libshpool::run(a, None) },
            Err(_) => fail("a documented command line is not accepted"),
        }
    });
}
fn finish(id: usize) -> i32 {
    for _ in 0..40 {
        if let Some(c) = ended(id) {
            return c;
        }
        advance(100 * MS);
    }
    fail("the command does not end")
}
fn env(session: Option<&str>, more: &[(&str, &str)]) {
    let mut v = vec![("HOME", "/home/u"), ("XDG_RUNTIME_DIR", "/run"), ("TERM", "xterm")];
    if let Some(s) = session {
        v.push(("SHPOOL_SESSION_NAME", s));
    }
    v.extend_from_slice(more);
    crate::sim::set_env(&v);
}
fn words<'a>(socket: bool, cmd: &[&'a str]) -> Vec<&'a str> {
    put_file("/home/u/client.toml", b"nodaemonize = true\n");
    let mut w = vec!["shpool", "-c", "/home/u/client.toml"];
    if socket {
        w.extend_from_slice(&["--socket", SOCK]);
    }
    w.extend_from_slice(cmd);
    w
}
fn vars() -> Vec<(String, String)> {
    match rpc::<MaybeSwitch>(&ConnectHeader::GetVars) {
        Some(m) => m.vars,
        None => fail("no reply to a variables request"),
    }
}
fn mentions(what: &[u8], word: &str) -> bool {
    what.split(|c| !(*c == b'_' || c.is_ascii_alphanumeric())).any(|w| w == word.as_bytes())
}

/// Kill and detach: which sessions, what is reported, and the exit status.
pub fn ops() {
    boot();
    let cur = [None, Some("sa"), Some("sb"), Some("sz")][choose(4, "current") as usize];
    let _d = daemon("");
    let mut a = Client::named("sa");
    check(a.created(), "the session is not created");
    let mut b = Client::named("sb");
    check(b.created(), "the session is not created");
    settle();
    b.hangup();
    advance(700 * MS);
    let kill = choose_bool("kill");
    let lists: [&[&str]; 9] = [
        &[], &["sa"], &["sb"], &["sz"], &["sa", "sb"], &["sz", "sa"], &["sb", "sz"], &["sa", "sa"], &["sy", "sz"],
    ];
    let args = lists[choose(9, "args") as usize];
    let mut cmd = vec![if kill { "kill" } else { "detach" }];
    cmd.extend_from_slice(args);
    env(cur, &[]);
    shpool(1, &words(choose_bool("socket"), &cmd));
    let rc = finish(1);
    let mut names: Vec<&str> = args.to_vec();
    if names.is_empty() {
        names.extend(cur.iter());
    }
    let lost: Vec<&str> = names.iter().copied().filter(|n| *n != "sa" && *n != "sb").collect();
    let (na, nb) = (names.contains(&"sa"), names.contains(&"sb"));
    let twice = names.len() == 2 && names[0] == names[1];
    let fine = !names.is_empty() && lost.is_empty() && (kill || !nb);
    if !twice {
        check((rc == 0) == fine, "the exit status does not tell how the command went");
    }
    check(k().con_out.is_empty(), "something is printed");
    let err = k().con_err.clone();
    if !fine {
        check(!err.is_empty(), "what went wrong is not said");
    }
    for n in ["sa", "sb", "sz", "sy"] {
        let bad = lost.contains(&n) || (!kill && n == "sb" && nb && lost.is_empty());
        if bad {
            check(mentions(&err, n), "a session which was not found, or not attached, is not named");
        } else if !twice && !(!kill && n == "sb" && nb) {
            check(!mentions(&err, n), "a session is named without need");
        }
    }
    advance(700 * MS);
    a.pump();
    check(a.eof == na, "not exactly the sessions named are acted on");
    let l = list();
    let find = |n: &str| l.iter().find(|s| s.name == n);
    if kill {
        check(find("sa").is_none() == na && find("sb").is_none() == nb, "not exactly the sessions named are killed");
        check(proc_state(pid_of(0)) == P::Alive || na, "another shell is killed");
        check(proc_state(pid_of(1)) == P::Alive || nb, "another shell is killed");
    } else {
        check(l.len() == 2, "a session is lost by detaching");
        check(is_attached(find("sa").unwrap()) != na, "the session is not detached, or another one is");
    }
    reach(if fine { "fine" } else { "bad" });
}

/// What JSON calls this character in a string.
fn json_char(c: u8, out: &mut Vec<u8>) {
    match c {
        b'"' => out.extend_from_slice(b"\\\""),
        b'\\' => out.extend_from_slice(b"\\\\"),
        8 => out.extend_from_slice(b"\\b"),
        12 => out.extend_from_slice(b"\\f"),
        0..=31 => out.extend_from_slice(format!("\\u{:04x}", conc(c as u64)).as_bytes()),
        _ => out.push(c),
    }
}
fn has(hay: &[u8], needle: &[u8]) -> bool {
    (0..hay.len()).any(|i| i + needle.len() <= hay.len() && same(&hay[i..i + needle.len()], needle))
}
/// What is listed, for people and for programs.
pub fn lists() {
    boot();
    let _d = daemon("");
    let json = choose_bool("json");
    let n = choose(3, "sessions") as usize;
    let x: [u8; 1] = sym_array("name");
    assume(x[0] > 0 && x[0] < 128 && x[0] != b'/' && x[0] != b' ' && !(x[0] >= 9 && x[0] <= 13) && x[0] != b'.');
    let odd = unsafe { String::from_utf8_unchecked(vec![x[0]]) };
    let names = [odd.clone(), String::from("longer")];
    let mut cs = vec![];
    for i in 0..n {
        let mut c = Client::named(&names[i]);
        check(c.created(), "the session is not created");
        if i == 1 {
            settle();
            c.hangup();
            advance(700 * MS);
        }
        cs.push(c);
    }
    settle();
    let w: &[&str] = if json { &["list", "--json"] } else { &["list"] };
    let w = words(true, w);
    shpool(1, &w);
    check(finish(1) == 0, "listing fails");
    let out = k().con_out.clone();
    check(k().con_err.is_empty(), "a warning without need");
    if json {
        // any order of sessions and keys, as long as it says this
        check(out.iter().filter(|c| **c == b'{').count() >= 1 + n, "not one object for each session");
        for i in 0..n {
            let mut s: Vec<u8> = b"\"name\": \"".to_vec();
            if i == 0 {
                json_char(x[0], &mut s);
            } else {
                s.extend_from_slice(names[1].as_bytes());
            }
            s.push(b'"');
            check(has(&out, &s), "a session is not listed under its name");
        }
        let count = |w: &str| (0..out.len()).filter(|i| out[*i..].starts_with(w.as_bytes())).count();
        check(count("\"Attached\"") == (n >= 1) as usize, "the status is not told");
        check(count("\"Disconnected\"") == (n == 2) as usize, "the status is not told");
        check(count("\"started_at_unix_ms\": ") == n, "the time of the start is not told");
        check(out.starts_with(b"{") && out.ends_with(b"}\n"), "the output is not one object");
        reach("json");
    } else {
        let mut l = out.split(|c| *c == b'\n');
        check(same(l.next().unwrap(), b"NAME\tSTATUS"), "the heading is missing");
        let rows: Vec<&[u8]> = l.collect();
        check(rows.len() == n + 1 && rows[n].is_empty(), "not one line for each session");
        for i in 0..n {
            let mut s = names[i].as_bytes().to_vec();
            if n == 2 && i == 0 {
                s.extend_from_slice(b"     ");
            }
            s.extend_from_slice(if i == 0 { b"\tattached" } else { b"\tdisconnected" });
            let mut seen = 0;
            for r in &rows[..n] {
                seen += same(r, &s) as usize;
            }
            check(seen == 1, "a session is not listed with its status");
        }
        reach("text");
    }
}

/// Variables.
pub fn var() {
    boot();
    let _d = daemon("");
    let set = |v: &str, x: &str| {
        let r = ModifyVarRequest { var: v.to_string(), val: Some(x.to_string()) };
        check(rpc::<ModifyVarReply>(&ConnectHeader::ModifyVar(r)).is_some(), "no reply");
    };
    let v: [u8; 1] = sym_array("value");
    assume(v[0] > 0 && v[0] < 128 && v[0] != b'\n' && v[0] != b'-');
    let val = unsafe { String::from_utf8_unchecked(vec![v[0]]) };
    let mut have: Vec<(&str, String)> = vec![];
    let two = choose(5, "vars") as usize;
    for n in 0..two.min(2) {
        // names which differ a little are others all the same
        have.push((["x", ["yy", "X", "xx"][two.max(2) - 2]][n], if n == 0 { val.clone() } else { String::from("w") }));
    }
    for (n, x) in &have {
        set(n, x);
    }
    let name = ["x", "X", "z"][choose(3, "name") as usize];
    let op = choose(5, "op");
    let w: Vec<&str> = match op {
        0 => vec!["var", "list"],
        1 => vec!["var", "list", "--json"],
        2 => vec!["var", "get", name],
        3 => vec!["var", "set", name, &val],
        _ => vec!["var", "unset", name],
    };
    shpool(1, &words(true, &w));
    check(finish(1) == 0, "the command fails");
    check(k().con_err.is_empty(), "a warning without need");
    let out = k().con_out.clone();
    match op {
        0 => {
            check(out.iter().filter(|c| **c == b'\n').count() == have.len(), "not one line for each variable");
            for (n, x) in &have {
                check(has(&out, format!("{n}\t{x}\n").as_bytes()), "a variable is not listed");
            }
            reach("list");
        }
        1 => {
            let count = |w: &[u8]| (0..out.len()).filter(|i| out[*i..].starts_with(w)).count();
            check(count(b"\": \"") == have.len(), "not one entry for each variable");
            for (n, x) in &have {
                let mut s = format!("\"{n}\": \"").into_bytes();
                for c in x.bytes() {
                    if c == 9 {
                        s.extend_from_slice(b"\\t");
                    } else if c == 13 {
                        s.extend_from_slice(b"\\r");
                    } else {
                        json_char(c, &mut s);
                    }
                }
                s.push(b'"');
                check(has(&out, &s), "a variable is not listed");
            }
            reach("json");
        }
        2 => {
            match have.iter().find(|h| h.0 == name) {
                Some(h) => check(same(&out, format!("{}\n", h.1).as_bytes()), "another value is printed"),
                None => check(out.is_empty(), "a value is made up"),
            }
            reach("get");
        }
        _ => {
            check(out.is_empty(), "something is printed");
            have.retain(|h| h.0 != name);
            if op == 3 {
                have.push((name, val.clone()));
            }
            let now = vars();
            check(now.len() == have.len(), "another variable is changed");
            for (n, x) in &have {
                check(now.iter().any(|y| y.0 == *n && same(y.1.as_bytes(), x.as_bytes())), "a variable has another value");
            }
            reach("set");
        }
    }
}

/// Commands against daemons of other versions, and none.
pub fn versions() {
    boot();
    let d: [u8; 3] = sym_array("digits");
    assume(d.iter().all(|c| c.is_ascii_digit()));
    let how = choose(6, "daemon");
    let ver = match how {
        0 => None,
        1 => Some(unsafe { String::from_utf8_unchecked(vec![d[0], b'.', d[1], b'.', d[2]]) }),
        2 => Some(String::from("0.10.1")),
        3 => Some(String::from("1.2")),
        _ => None,
    };
    let more: Vec<(&str, &str)> = match &ver {
        Some(v) => vec![("SHPOOL_TEST__OVERRIDE_VERSION", v)],
        None => vec![],
    };
    env(None, &more);
    let _d;
    match how {
        // nobody listens
        4 => drop(std::os::unix::net::UnixListener::bind(SOCK)),
        5 => {}
        _ => {
            _d = daemon("");
            let c = Client::named("s");
            check(c.created(), "the session is not created");
            settle();
            std::mem::forget(c);
        }
    }
    let cmds: [&[&str]; 6] = [&["list"], &["kill", "s"], &["detach", "s"], &["var", "set", "a", "b"], &["set-log-level", "debug"], &["var", "get", "a"]];
    let c = choose(6, "command") as usize;
    shpool(1, &words(true, cmds[c]));
    let rc = finish(1);
    let err = k().con_err.clone();
    match how {
        4 | 5 => {
            check(rc == 1, "success without a daemon");
            check(how == 4 || !err.is_empty(), "what went wrong is not said");
            check(k().con_out.is_empty(), "something is printed without a daemon");
            check(exists(SOCK) == (how == 4), "the socket is touched");
            reach("no daemon");
        }
        3 => {
            // which version this is cannot be told
            reach("odd");
        }
        _ => {
            check(rc == 0, "a daemon of another version is not used");
            let parts: Vec<u8> = match &ver {
                None => vec![],
                Some(v) if how == 1 => v.bytes().filter(|c| *c != b'.').map(|c| c - b'0').collect(),
                _ => vec![0, 10, 1],
            };
            let own: Vec<u8> = VERSION.split('.').map(|p| p.parse().unwrap()).collect();
            let other = !parts.is_empty()
                && (parts[0] != own[0] || (own[0] == 0 && parts[1] != own[1]));
            check(err.is_empty() != other, "not exactly daemons of another version are warned about");
            match c {
                0 => check(mentions(&k().con_out.clone(), "attached"), "the sessions are not listed"),
                1 => check(list().is_empty(), "the session is not killed"),
                2 => {
                    advance(300 * MS);
                    check(!is_attached(&list()[0]), "the session is not detached");
                }
                3 => check(vars().len() == 1, "the variable is not set"),
                _ => {}
            }
            reach(if other { "warned" } else { "silent" });
        }
    }
}

/// Each log level.
pub fn level() {
    use tracing_subscriber::filter::LevelFilter as F;
    boot();
    env(None, &[]);
    let d = daemon("");
    for _ in 0..2 {
        let i = choose(7, "level") as usize;
        let name = ["off", "error", "warn", "info", "debug", "trace", "loud"][i];
        if i == 6 {
            check(libshpool::Args::try_parse_from(["shpool", "set-log-level", name]).is_err(), "a level which does not exist is accepted");
            reach("bad");
            return;
        }
        let r = SetLogLevelRequest { level: [LogLevel::Off, LogLevel::Error, LogLevel::Warn, LogLevel::Info, LogLevel::Debug, LogLevel::Trace].into_iter().nth(i).unwrap() };
        if choose_bool("direct") {
            check(rpc::<SetLogLevelReply>(&ConnectHeader::SetLogLevel(r)).is_some(), "no answer to a log level request");
        } else {
            shpool(1, &words(true, &["set-log-level", name]));
            check(finish(1) == 0, "the log level cannot be set");
        }
        let want = [F::OFF, F::ERROR, F::WARN, F::INFO, F::DEBUG, F::TRACE][i];
        check(d.level.clone_current() == Some(want), "another log level is set");
        if choose_bool("once") {
            break;
        }
        if ended(1).is_some() {
            break;
        }
    }
    let c = Client::named("s");
    check(c.created(), "the session is not created");
    reach("set");
}

/// Attaching through a daemon of another version.
pub fn old() {
    boot();
    let more = [("SHPOOL_TEST__OVERRIDE_VERSION", ["0.1.0", "99.0.0"][choose(2, "version") as usize])];
    env(None, &more);
    let _d = daemon("");
    // 0: in the background, 1: anew, 2: which moves on, 3: taking a session over
    let how = choose(4, "how");
    let mut first = None;
    if how == 3 {
        first = Some(Client::named("s"));
    }
    settle();
    let have = list().len();
    let b: [u8; 2] = sym_array("typed");
    shpool(1, &words(true, [&["attach", "-b", "-c", "cat", "s"][..], &["attach", "-c", "cat", "s"], &["attach", "-c", "cat", "s{x}"], &["attach", "-f", "s"]][how as usize]));
    advance(300 * MS);
    if how == 0 {
        type_in(&b);
        check(finish(1) == 0, "a daemon of another version is not used");
        check(k().con_in.len() == 2, "a background attach reads the terminal");
        check(list().len() == 1 && !is_attached(&list()[0]), "there is no session, or one with a client");
        check(!k().con_err.is_empty(), "a daemon of another version is not warned about");
        reach("background");
        return;
    }
    check(ended(1).is_none(), "the client does not wait to be told to go on");
    check(list().len() == have, "a session is made without asking");
    let said = k().con_err.len();
    check(said > 0, "a daemon of another version is not warned about");
    // only the end of a line counts
    let go = match choose(4, "answer") {
        0 => {
            assume(b[0] != b'\n' && b[1] != b'\n');
            type_in(&b);
            advance(300 * MS);
            false
        }
        1 => {
            assume(b[0] != b'\n');
            type_in(&b[..1]);
            advance(100 * MS);
            check(list().len() == have, "a session is made without asking");
            type_in(b"\n");
            advance(500 * MS);
            true
        }
        2 => {
            type_in(b"\nab");
            advance(500 * MS);
            true
        }
        _ => {
            close_stdin();
            advance(500 * MS);
            check(list().len() == 1, "no session is asked for");
            finish(1);
            reach("end");
            return;
        }
    };
    if !go {
        check(ended(1).is_none(), "the client does not wait to be told to go on");
        check(list().len() == have, "a session is made without asking");
        check(have == 0 || is_attached(&list()[0]), "a client is detached without asking");
        reach("waiting");
        return;
    }
    check(ended(1).is_none(), "the client does not go on");
    check(list().len() == 1 && is_attached(&list()[0]), "the client is not attached");
    if let Some(c) = &mut first {
        c.pump();
        check(c.eof, "the client to be replaced stays");
    }
    type_in(&b"cd"[..]);
    advance(100 * MS);
    let got = input(0);
    check(got == b"cd" || got == b"abcd", "what is typed does not reach the shell");
    if how == 2 {
        let r = ModifyVarRequest { var: String::from("x"), val: Some(String::from("2")) };
        check(rpc::<ModifyVarReply>(&ConnectHeader::ModifyVar(r)).is_some(), "no reply to a variables request");
        advance(1000 * MS);
        check(listed("s2").is_some(), "the client does not move on");
        check(ended(1).is_none(), "the client ends");
    }
    check(k().con_err.len() == said, "the warning is repeated");
    reach("went on");
}

/// `shpool events` prints each event when it happens.
pub fn events() {
    boot();
    let _d = daemon("");
    let late = choose_bool("late");
    let mut c = None;
    if late {
        c = Some(Client::named("s"));
        settle();
    }
    shpool(1, &words(choose_bool("socket"), &["events"]));
    advance(100 * MS);
    let mut want: Vec<&str> = vec![];
    if !late {
        c = Some(Client::named("s"));
        want.extend_from_slice(&["created", "attached"]);
        settle();
    }
    let check_out = |want: &[&str]| {
        let mut w = String::new();
        for e in want {
            w.push_str(&format!("{{\"type\":\"session.{e}\"}}\n"));
        }
        check(same(&k().con_out, w.as_bytes()), "the events printed are not those which happened");
    };
    check_out(&want);
    if choose_bool("leave") {
        c.take();
        advance(700 * MS);
        want.push("detached");
        check_out(&want);
    }
    kill(&["s"]);
    advance(700 * MS);
    want.push("removed");
    check_out(&want);
    check(ended(1).is_none(), "the command ends while the daemon runs");
    reach("events");
}

/// What the daemon is asked for by `shpool attach`.
pub fn attach() {
    boot();
    let v: [u8; 2] = sym_array("value");
    assume(v[0] > b' ' && v[0] < 127 && v[1] > b' ' && v[1] < 127 && v[0] != b'/' && v[1] != b'/');
    let val = unsafe { String::from_utf8_unchecked(v.to_vec()) };
    let f = super::client::Fake::new();
    let mut cfg = String::from("nodaemonize = true\n");
    let dd = choose(4, "default_dir") as usize;
    if dd > 0 {
        cfg.push_str(&format!("default_dir = \"{}\"\n", ["", ".", "$HOME", "/some/where"][dd]));
    }
    let fwd = choose_bool("forward");
    if fwd {
        cfg.push_str("forward_env = [\"MINE\", \"NONE\"]\n");
    }
    put_file("/home/u/c.toml", cfg.as_bytes());
    env(None, &[("MINE", &val), ("OTHER", "o"), ("SSH_AUTH_SOCK", "/agent")]);
    let mut w = vec!["shpool", "-c", "/home/u/c.toml", "attach"];
    let short = choose_bool("short");
    let o = |a: &'static str, b: &'static str| if short { b } else { a };
    let force = choose_bool("force");
    if force {
        w.push(o("--force", "-f"));
    }
    let ttl = choose_bool("ttl");
    if ttl {
        w.extend_from_slice(&["--ttl", "01:30"]);
    }
    let cmd = choose_bool("cmd");
    if cmd {
        w.extend_from_slice(&[o("--cmd", "-c"), "run {x} 'it'"]);
    }
    let start = choose_bool("start");
    if start {
        w.extend_from_slice(&[o("--start-cmd", "-s"), "cd {x}"]);
    }
    let dir = choose(3, "dir") as usize;
    if dir > 0 {
        w.extend_from_slice(&[o("--dir", "-d"), ["", ".", "/w/{x}"][dir]]);
    }
    let tmpl = choose_bool("template");
    w.push(if tmpl { "n-{x}" } else { "n1" });
    shpool(1, &w);
    f.vars(&[("x", &val)]);
    let (s, h) = f.accept();
    let h = match h {
        ConnectHeader::Attach(h) => h,
        _ => fail("the client does not ask to be attached"),
    };
    let is = |a: &str, b: &str| same(a.as_bytes(), b.as_bytes());
    let opt = |a: &Option<String>, b: Option<String>| match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a.as_bytes(), b.as_bytes()),
        _ => false,
    };
    check(is(&h.name, &if tmpl { format!("n-{val}") } else { String::from("n1") }), "another session is asked for");
    check(is(&h.name_template, if tmpl { "n-{x}" } else { "n1" }), "another template is reported");
    check(h.ttl_secs == if ttl { Some(90) } else { None }, "another time to live is asked for");
    check(opt(&h.cmd, if cmd { Some(format!("run {val} 'it'")) } else { None }), "another command is asked for");
    check(opt(&h.start_cmd, if start { Some(format!("cd {val}")) } else { None }), "another start command is asked for");
    let cwd = k().cwd.clone();
    let want = match (dir, dd) {
        (1, _) | (0, 1) => Some(cwd),
        (2, _) => Some(format!("/w/{val}")),
        (0, 3) => Some(String::from("/some/where")),
        _ => None,
    };
    check(opt(&h.dir, want), "another directory is asked for");
    let mut e = vec![("TERM", "xterm"), ("SSH_AUTH_SOCK", "/agent")];
    if fwd {
        e.push(("MINE", &val));
    }
    check(h.local_env.len() == e.len(), "not exactly the documented variables are forwarded");
    for (n, x) in e {
        check(h.local_env.iter().any(|y| y.0 == n && is(&y.1, x)), "a variable is forwarded wrongly");
    }
    let z = &h.local_tty_size;
    check([z.rows, z.cols, z.xpixel, z.ypixel] == k().con_size, "another size is reported");
    ok(
        libshpool::verif::protocol::encode_to(&AttachReplyHeader { status: AttachStatus::Busy }, &s),
        "reply",
    );
    advance(50 * MS);
    if force {
        let (_, h) = f.accept();
        check(
            matches!(h, ConnectHeader::Detach(d) if d.sessions.len() == 1),
            "the other client is not detached",
        );
        reach("forced");
    } else {
        check(ended(1) == Some(0) && !k().con_err.is_empty(), "a busy session is not reported");
        reach("asked");
    }
}
