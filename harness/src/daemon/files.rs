//! What the daemon keeps in its directory for a session: the link to the
//! agent of its client and the client's variables. And who it talks to.
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;
use shpool_protocol::*;

fn link_of(name: &str) -> String {
    format!("{RUN}/sessions/{name}/ssh-auth-sock.socket")
}
fn env_of(name: &str) -> String {
    format!("{RUN}/sessions/{name}/forward.env")
}
struct St {
    link: Option<String>,
    env: Option<String>,
}
fn check_files(name: &str, st: &St) {
    match (&st.link, get_link(&link_of(name))) {
        (None, None) => {}
        (Some(a), Some(b)) => check(same(a.as_bytes(), b.as_bytes()), "the link does not lead to the agent of the last client"),
        _ => fail("the link to the agent is missing, or is there without need"),
    }
    match (&st.env, get_file(&env_of(name))) {
        (None, None) => {}
        (Some(a), Some(b)) => check(same(a.as_bytes(), &b), "forward.env does not hold the variables of the last client"),
        _ => fail("forward.env is missing, or is there without need"),
    }
    if st.link.is_some() {
        check(mode_of(&format!("{RUN}/sessions")) == Some(0o700), "others may use the agent");
    }
}

/// A history of clients attaching with and without an agent.
fn history(n: usize) {
    boot();
    let how = choose(4, "how");
    let nolink = how == 1;
    if how == 3 {
        // something else is in the way
        mkdirs(&format!("{RUN}/sessions/a"));
        put_file(&link_of("a"), b"");
    }
    if how == 2 {
        // left behind by something else
        let d = mkdirs(&format!("{RUN}/sessions"));
        let m: [u8; 2] = sym_array("mode");
        let m = u16::from_le_bytes(m) as u32;
        assume(m < 0o1000);
        k().ino[d].mode = libc::S_IFDIR | m;
    }
    let _d = daemon(if nolink { "nosymlink_ssh_auth_sock = true\n" } else { "" });
    let mut st = [St { link: None, env: None }, St { link: None, env: None }];
    let mut at: [Option<Client>; 2] = [None, None];
    let val: [u8; 2] = sym_array("value");
    assume(val[0] > 0 && val[0] < 128 && val[1] > 0 && val[1] < 128);
    let val = unsafe { String::from_utf8_unchecked(val.to_vec()) };
    for i in 0..n {
        let s = if i == 0 { 0 } else { choose(2, "session") as usize };
        let name = ["a", "b"][s];
        match if i == 0 { 1 + choose(2, "op") } else { choose(3, "op") } {
            0 => {
                // leave
                if let Some(mut c) = at[s].take() {
                    if choose_bool("kill") {
                        kill(&[name]);
                        advance(700 * MS);
                    }
                    c.hangup();
                    advance(700 * MS);
                } else {
                    assume(false);
                }
            }
            op => {
                let mut h = header(name);
                let agent = if op == 1 { Some(format!("/tmp/agent{i}{val}")) } else { None };
                let mut env = String::new();
                if op == 2 {
                    h.local_env.push((String::from("DISPLAY"), String::new()));
                    env.push_str("DISPLAY=\n");
                }
                if op == 2 || i == 2 {
                    h.local_env.push((String::from("LANG"), format!("{val}{i}")));
                    env.push_str(&format!("LANG={val}{i}"));
                }
                if let Some(a) = &agent {
                    h.local_env.push((String::from("SSH_AUTH_SOCK"), a.clone()));
                    if !env.is_empty() {
                        env.push('\n');
                    }
                    env.push_str(&format!("SSH_AUTH_SOCK={a}"));
                }
                let c = Client::attach(h);
                if at[s].is_some() {
                    check(c.busy(), "two clients attached to one session");
                    reach("busy");
                } else {
                    check(c.created() || c.reattached(), "cannot attach");
                    if c.reattached() {
                        reach("again");
                    }
                    at[s] = Some(c);
                    if !nolink && agent.is_some() {
                        st[s].link = agent;
                    }
                    st[s].env = Some(env);
                }
            }
        }
        settle();
        for s in 0..2 {
            check_files(["a", "b"][s], &st[s]);
        }
    }
    reach("ok");
}
pub fn links() {
    history(3);
}
pub fn links_deep() {
    history(4);
}
/// The files cannot be made.
pub fn hopeless() {
    boot();
    let name = match choose(5, "how") {
        0 => "n".repeat(256),
        1 => {
            put_file(&format!("{RUN}/sessions"), b"");
            String::from("a")
        }
        2 => {
            mkdirs(&format!("{RUN}/sessions"));
            put_file(&format!("{RUN}/sessions/a"), b"");
            String::from("a")
        }
        3 => {
            mkdirs(&link_of("a"));
            String::from("a")
        }
        _ => {
            mkdirs(&env_of("a"));
            String::from("a")
        }
    };
    let _d = daemon("");
    let mut sub = Sub::open();
    for i in 0..2 {
        let mut h = header(&name);
        if choose_bool("agent") {
            h.local_env.push((String::from("SSH_AUTH_SOCK"), String::from("/tmp/agent")));
        }
        let mut c = Client::attach(h);
        check(if i == 0 { c.created() } else { c.reattached() }, "cannot attach to a session whose files cannot be written");
        crate::daemon::attach::works(&mut c, 0);
        let l = list();
        check(l.len() == 1 && l[0].name == name && is_attached(&l[0]), "a session with a client is not listed as attached");
        if i == 0 && choose_bool("key") {
            c.send(&[0, 17]);
        } else {
            c.hangup();
        }
        advance(700 * MS);
        let l = list();
        check(l.len() == 1 && !is_attached(&l[0]) && l[0].attachments.is_empty(), "a detached session is listed as attached");
    }
    check(sub.events() == "cadad", "the events are not those which happened");
    reach("ok");
}
/// Two clients at a time: the files are those of the one which got in.
pub fn links_race() {
    boot();
    let _d = daemon("");
    let with = |n: &str, agent: &str| {
        let mut h = header(n);
        h.local_env.push((String::from("SSH_AUTH_SOCK"), String::from(agent)));
        h
    };
    if choose_bool("before") {
        let mut c = Client::attach(with("a", "/tmp/0"));
        check(c.created(), "the session is not created");
        settle();
        c.hangup();
        advance(700 * MS);
    }
    let other = choose_bool("other");
    preempt_any(1, 60);
    let mut c1 = Client::begin(with("a", "/tmp/1"));
    let mut c2 = Client::begin(with(if other { "b" } else { "a" }, "/tmp/2"));
    c1.join();
    c2.join();
    no_preempt();
    advance(150 * MS);
    let (in1, in2) = (c1.created() || c1.reattached(), c2.created() || c2.reattached());
    check(if other { in1 && in2 } else { in1 != in2 && (c1.busy() || c2.busy()) }, "not exactly one client got in");
    let st = |a: &str| St { link: Some(a.to_string()), env: Some(format!("SSH_AUTH_SOCK={a}")) };
    check_files("a", &st(if in1 { "/tmp/1" } else { "/tmp/2" }));
    if other {
        check_files("b", &st("/tmp/2"));
        reach("both");
    } else {
        reach("one");
    }
}

/// Which names are taken, and that nothing is touched outside their directory.
pub fn names() {
    boot();
    let _d = daemon("");
    let uni = ["\u{85}", "a\u{2003}", "\u{a0}b", "\u{3000}", "é", "...", "..a", ".a"];
    let name = match choose(1 + uni.len() as u32, "name") as usize {
        0 => {
            let b = sym_vec(0, 3, "len");
            let mut ok = true;
            for x in b.iter() {
                ok &= *x > 0 && *x < 128;
            }
            assume(ok);
            unsafe { String::from_utf8_unchecked(b) }
        }
        i => String::from(uni[i - 1]),
    };
    let b = name.as_bytes();
    let mut bad = b.is_empty() || b == b"." || b == b"..";
    for (i, x) in b.iter().enumerate() {
        bad |= *x == b'/' || *x == b' ' || (*x >= 9 && *x <= 13) || (*x == 0xa0 && b[i - 1] == 0xc2) || *x == 0x85 || *x == 0xe2 || *x == 0xe3;
    }
    let before = k().ino.len();
    let mut h = header(&name);
    h.local_env.push((String::from("SSH_AUTH_SOCK"), String::from("/tmp/agent")));
    let mut c = Client::attach(h);
    settle();
    if bad {
        check(
            matches!(c.status, Some(AttachStatus::UnexpectedError(_))),
            "an illegal session name is not turned down",
        );
        check(k().procs.is_empty(), "a program is run for an illegal session name");
        check(k().ino.len() == before, "files are made for an illegal session name");
        c.pump();
        advance(100 * MS);
        c.pump();
        check(c.eof, "the connection of a client turned down is kept");
        check(list().is_empty(), "a session with an illegal name is listed");
        reach("bad");
    } else {
        check(c.created(), "a legal session name is turned down");
        // one directory each for all sessions and this one, and two files
        check(k().ino.len() <= before + 4, "more files are made than promised");
        check(get_link(&link_of(&name)).is_some(), "the link to the agent is missing");
        check(get_file(&env_of(&name)).is_some(), "forward.env is missing");
        check(list().len() == 1 && same(list()[0].name.as_bytes(), b), "the session is not listed under its name");
        reach("good");
    }
}

/// Other users get nothing.
pub fn peers() {
    boot();
    let _d = daemon("");
    let a = Client::named("a");
    check(a.created(), "the session is not created");
    settle();
    let uid = sym_u32("uid");
    assume(uid != k().uid);
    let mine = k().cred;
    // a process the daemon may look at, or any
    k().cred = (if choose_bool("known") { mine.0 } else { sym_u32("pid") as i32 }, uid);
    k().peer_gid = sym_u32("gid");
    let all = |n: &str| vec![n.to_string()];
    let q = match choose(8, "request") {
        0 => ConnectHeader::Attach(header("b")),
        1 => ConnectHeader::Attach(header("a")),
        2 => ConnectHeader::Detach(DetachRequest { sessions: all("a") }),
        3 => ConnectHeader::Kill(KillRequest { sessions: all("a") }),
        4 => ConnectHeader::List,
        5 => ConnectHeader::GetVars,
        6 => ConnectHeader::ModifyVar(ModifyVarRequest { var: String::from("x"), val: Some(String::from("y")) }),
        _ => ConnectHeader::SessionMessage(SessionMessageRequest {
            session_name: String::from("a"),
            payload: SessionMessageRequestPayload::Resize(ResizeRequest { tty_size: size(1, 1) }),
        }),
    };
    let s = dial();
    k().cred = mine;
    // it may well be cut off before it is done asking
    let _ = libshpool::verif::protocol::encode_to(&q, &s);
    let v: Result<VersionHeader, _> = libshpool::verif::protocol::decode_from(&s);
    if v.is_ok() && matches!(q, ConnectHeader::Attach(_)) {
        let r: Result<AttachReplyHeader, _> = libshpool::verif::protocol::decode_from(&s);
        check(
            matches!(r, Ok(AttachReplyHeader { status: AttachStatus::Forbidden(_) })),
            "another user is not told that it may not attach",
        );
    }
    advance(600 * MS);
    let mut b = [0u8; 64];
    let n = std::io::Read::read(&mut &s, &mut b);
    check(!matches!(n, Ok(n) if n > 0), "another user gets an answer");
    let l = list();
    check(l.len() == 1 && l[0].name == "a" && is_attached(&l[0]), "another user's request has an effect");
    check(k().ptys.len() == 1 && k().ptys[0].winsize.0 == 24, "another user's request has an effect");
    let v: Option<MaybeSwitch> = rpc(&ConnectHeader::GetVars);
    check(matches!(v, Some(MaybeSwitch { vars, .. }) if vars.is_empty()), "another user's request has an effect");
    reach("refused");
}
