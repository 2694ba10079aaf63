//! Setting up the prompt and the start command of a new shell.
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;
use libshpool::verif::consts::*;

fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    (0..hay.len()).find(|i| hay[*i..].starts_with(needle))
}
/// Until the shell is started.
fn wait_shell() {
    while k().ptys.is_empty() || k().ptys[0].pid == 0 {
        advance(5 * MS);
    }
}
/// Where a line which is exactly this command starts.
fn line(hay: &[u8], cmd: &str) -> Option<usize> {
    let mut at = 0;
    for l in hay.split(|b| *b == b'\n') {
        if l.iter().copied().skip_while(|b| *b == b' ').collect::<Vec<u8>>() == cmd.as_bytes() {
            return Some(at);
        }
        at += l.len() + 1;
    }
    None
}
fn sentinel_cmd(which: &str) -> String {
    format!("{SENTINEL_FLAG_VAR}={which} /usr/bin/shpool daemon")
}

const COMMS: [&str; 4] = ["bash", "zsh", "fish", "dash"];
const PREFIXES: [Option<&str>; 4] = [None, Some(""), Some("P$SHPOOL_SESSION_NAME> "), Some("$SHPOOL_SESSION_NAME-$SHPOOL_SESSION_NAME")];
const STARTS: [Option<&str>; 3] = [None, Some(""), Some("run 'it' && $x")];

struct Setup {
    comm: &'static str,
    prefix: Option<&'static str>,
    start: Option<&'static str>,
    shell: &'static str,
    cmd: bool,
}
impl Setup {
    fn header(&self) -> shpool_protocol::AttachHeader {
        let mut h = header("n1");
        if !self.cmd {
            h.cmd = None;
        }
        h.start_cmd = self.start.map(|s| s.to_string());
        h
    }
    fn cfg(&self) -> String {
        let mut c = format!("shell = \"{}\"\n", self.shell);
        if let Some(p) = self.prefix {
            c.push_str(&format!("prompt_prefix = \"{p}\"\n"));
        }
        c
    }
    fn boot(&self) -> Daemon {
        boot();
        limit(300 * SEC);
        k().comm = self.comm.to_string();
        daemon(&self.cfg())
    }
    /// A shell is asked to print the sentinels if there is anything to set up.
    fn injects(&self) -> bool {
        !self.cmd
            && !self.shell.ends_with("nu")
            && (self.prefix != Some("") || self.start.map(|s| !s.is_empty()).unwrap_or(false))
    }
    fn check_script(&self, s: &[u8]) {
        let end = line(s, &sentinel_cmd("prompt"));
        check(end.is_some(), "the shell is not asked to say when it is set up");
        check(
            s[end.unwrap()..].iter().filter(|b| **b == b'\n').count() == 1,
            "there is set-up left to do when the shell says it is done",
        );
        if let Some(c) = self.start.filter(|c| !c.is_empty()) {
            let at = line(s, c);
            check(at.is_some(), "the start command is not run");
            check(at < end, "the start command is run after the end of the set-up");
            check(line(&s[at.unwrap() + 1..], c).is_none(), "the start command is run twice");
        }
        let want = match self.prefix {
            None => "shpool:n1 ",
            Some(p) if p.is_empty() => "",
            Some(p) if p.starts_with('P') => "Pn1> ",
            _ => "n1-n1",
        };
        if want.is_empty() {
            return;
        }
        let (var, cmd) = match self.comm {
            "bash" => ("PS1=\"", ""),
            "zsh" => ("PROMPT=\"", ""),
            "fish" => ("echo -n \"", "shpool__old_prompt"),
            _ => {
                check(find(s, b"PS1").is_none() && find(s, want.as_bytes()).is_none(), "an unknown shell gets a prompt");
                return;
            }
        };
        let at = find(s, format!("{var}{want}").as_bytes());
        check(at.is_some(), "the prompt prefix is not set up");
        check(at < end, "the prompt is set up after the end of the set-up");
        check(find(s, cmd.as_bytes()).is_some(), "the old prompt is lost");
    }
}

/// Output in two writes, split anywhere out of a few places.
fn split_output(pre: &[u8], word: &[u8], post: &[u8]) {
    let mut v = pre.to_vec();
    v.extend_from_slice(word);
    v.extend_from_slice(post);
    let cuts = [0, pre.len() + 1, pre.len() + word.len() / 2, pre.len() + word.len() - 1, pre.len() + word.len()];
    let cut = cuts[choose(cuts.len() as u32, "split") as usize];
    if cut > 0 {
        output(0, &v[..cut]);
        advance([0, 20 * MS][choose(2, "pause") as usize]);
    }
    output(0, &v[cut..]);
}

fn halves(pre: &[u8], word: &[u8], post: &[u8], split: bool) {
    let mut v = pre.to_vec();
    v.extend_from_slice(word);
    v.extend_from_slice(post);
    let cut = pre.len() + 7;
    if split {
        output(0, &v[..cut]);
        advance(20 * MS);
        output(0, &v[cut..]);
    } else {
        output(0, &v);
    }
}

/// A new shell, from its start up to its first prompt and beyond.
fn story(s: Setup, noise: &[u8], reattach: bool) {
    let _d = s.boot();
    let mut c = Client::begin(s.header());
    advance(20 * MS);
    let more: [u8; 2] = sym_array("after");
    let mut want: Vec<u8> = vec![];
    if s.injects() {
        let first = input(0);
        check(line(&first, &sentinel_cmd("startup")).is_some(), "the shell is not asked to say when it is up");
        check(
            first.iter().filter(|b| **b > b' ').count()
                == sentinel_cmd("startup").bytes().filter(|b| *b > b' ').count(),
            "the shell is given something before it is up",
        );
        split_output(noise, STARTUP_SENTINEL.as_bytes(), b"");
        c.join();
        check(c.created(), "the session is not created");
        settle();
        let script = input(0);
        s.check_script(&script);
        c.pump();
        check(c.data.is_empty(), "output of the shell's start reaches the client");
        if reattach {
            c.hangup();
            advance(700 * MS);
            let h = s.header();
            c = Client::attach(h);
            check(c.reattached(), "cannot attach to a shell being set up");
            advance(100 * MS);
        }
        let mut n = noise.to_vec();
        n.extend_from_slice(b"$ run it\r\n");
        let post: &[u8] = if choose_bool("at_once") { b"$ " } else { b"" };
        split_output(&n, PROMPT_SENTINEL.as_bytes(), post);
        want.extend_from_slice(post);
        reach("set up");
    } else {
        c.join();
        check(c.created(), "the session is not created");
        settle();
        output(0, noise);
        want.extend_from_slice(noise);
        reach("as is");
    }
    advance(60 * MS);
    c.pump();
    check(same(&c.data, &want), "the client is not shown what follows the set-up");
    output(0, &more);
    // the shell may well print the same words later on
    output(0, PROMPT_SENTINEL.as_bytes());
    output(0, b"x");
    want.extend_from_slice(&more);
    want.extend_from_slice(PROMPT_SENTINEL.as_bytes());
    want.push(b'x');
    advance(60 * MS);
    c.pump();
    check(same(&c.data, &want), "output after the set-up is lost or changed");
    check(input(0).is_empty(), "the shell is given input nobody typed");
    c.send(b"ls\n");
    advance(60 * MS);
    check(same(&input(0), b"ls\n"), "the shell does not get what is typed");
    exit(0, 3);
    advance(900 * MS);
    c.pump();
    check(c.exit == Some(3), "the exit status is lost");
    check(list().is_empty(), "a session without a shell is listed");
}
pub fn kinds() {
    let s = Setup {
        comm: COMMS[choose(4, "comm") as usize],
        prefix: PREFIXES[choose(4, "prefix") as usize],
        start: STARTS[choose(3, "start") as usize],
        shell: ["/bin/bash", "/usr/bin/nu"][choose(2, "shell") as usize],
        cmd: choose_bool("cmd"),
    };
    story(s, b"hi", false);
}
pub fn splits() {
    let s = Setup { comm: "bash", prefix: None, start: STARTS[2], shell: "/bin/bash", cmd: false };
    let again = choose_bool("reattach");
    let v: [u8; 1] = sym_array("noise");
    story(s, &v, again);
}

/// More start-up output than is read at a time.
pub fn big() {
    let s = Setup { comm: "bash", prefix: None, start: None, shell: "/bin/bash", cmd: false };
    let _d = s.boot();
    let mut c = Client::begin(s.header());
    advance(20 * MS);
    let n = [100, 2040, 2048, 4090][choose(4, "start") as usize];
    let mut v = vec![b'.'; n];
    v.extend_from_slice(STARTUP_SENTINEL.as_bytes());
    v.resize(v.len() + [0, 3000][choose(2, "tail") as usize], b'-');
    output(0, &v);
    c.join();
    check(c.created(), "the session is not created");
    settle();
    let n = [100, 16380, 16384, 32760][choose(4, "setup") as usize];
    let mut v = vec![b'.'; n];
    v.extend_from_slice(PROMPT_SENTINEL.as_bytes());
    let m = [0, 1, 16384, 40000][choose(4, "then") as usize];
    let post: Vec<u8> = (0..m).map(|i| b'a' + (i % 23) as u8).collect();
    v.extend_from_slice(&post);
    output(0, &v);
    for _ in 0..5 {
        advance(60 * MS);
        c.pump();
    }
    check(same(&c.data, &post), "the client is not shown what follows the set-up");
    check(c.max_chunk <= 16 * 1024, "a frame clients do not accept");
    reach("set up");
}

/// The shell does not come up, or takes its time.
pub fn late() {
    let s = Setup { comm: "bash", prefix: None, start: None, shell: "/bin/bash", cmd: false };
    let _d = s.boot();
    let mut c = Client::begin(s.header());
    advance(20 * MS);
    input(0);
    // 0: no sentinel at all, 1: no sentinel, but output all the time, 2..: the shell ends
    let what = choose(4, "what");
    match what {
        0 => advance(89 * SEC),
        1 => {
            for _ in 0..3 {
                output(0, b"still busy\r\n");
                advance(29 * SEC);
            }
        }
        2 => exit(0, 3),
        _ => {
            output(0, b"oops\r\n");
            exit(0, 3);
        }
    }
    // others are not held up
    check(listed("n1").map(|_| true).unwrap_or(true), "");
    check(kill(&["n2"]).not_found_sessions.len() == 1, "killed an unknown session");
    if what < 2 {
        advance(6 * SEC);
        c.join();
        check(c.created(), "a shell which is slow to start cannot be attached to");
        settle();
        c.pump();
        output(0, b"here now\r\n");
        advance(100 * MS);
        c.pump();
        check(c.data.ends_with(b"here now\r\n"), "the output of a shell which could not be set up is not shown");
        reach("slow");
        exit(0, 4);
        advance(900 * MS);
        c.pump();
        check(c.exit == Some(4), "the exit status is lost");
    } else {
        c.join();
        advance(2 * SEC);
        c.pump();
        check(c.exit == Some(3) || (!c.created() && c.eof), "the exit status of a shell which ended at once is lost");
        check(c.created(), "a shell which ended at once");
        reach("gone");
    }
    advance(SEC);
    check(list().is_empty(), "a session without a shell is listed");
    let n = Client::begin(header("n1"));
    let mut n = n;
    n.join();
    check(n.created(), "the name cannot be used again");
}

/// The shell ends at any point of the set-up.
pub fn ends() {
    let s = Setup { comm: "bash", prefix: None, start: None, shell: "/bin/bash", cmd: false };
    let _d = s.boot();
    preempt_any(1, 60);
    let mut c = Client::begin(s.header());
    advance(20 * MS);
    wait_shell();
    let at = choose(3, "at");
    if at > 0 {
        output(0, STARTUP_SENTINEL.as_bytes());
        let mut got: Vec<u8> = vec![];
        while line(&got, &sentinel_cmd("prompt")).is_none() {
            advance(5 * MS);
            got.extend_from_slice(&input(0));
        }
    }
    if at > 1 {
        output(0, PROMPT_SENTINEL.as_bytes());
        output(0, b"bye");
    }
    exit(0, 3);
    c.join();
    no_preempt();
    advance(2 * SEC);
    c.pump();
    check(c.created(), "the session is not created");
    check(c.exit == Some(3), "the exit status is lost");
    if at > 1 {
        check(same(&c.data, b"bye"), "the last output is lost");
    } else {
        check(c.data.is_empty(), "output of the shell's start reaches the client");
    }
    check(list().is_empty(), "a session without a shell is listed");
    reach("ended");
}
/// Hold-ups anywhere.
pub fn race() {
    let s = Setup { comm: "zsh", prefix: None, start: None, shell: "/bin/bash", cmd: false };
    let _d = s.boot();
    preempt_any(1, 60);
    let mut c = Client::begin(s.header());
    advance(choose(2, "pause") as u64 * 50 * MS);
    wait_shell();
    let second = choose_bool("second");
    halves(b"hello", STARTUP_SENTINEL.as_bytes(), b"", second);
    let mut got: Vec<u8> = vec![];
    while line(&got, &sentinel_cmd("prompt")).is_none() {
        advance(5 * MS);
        got.extend_from_slice(&input(0));
    }
    halves(b"echo", PROMPT_SENTINEL.as_bytes(), b"$ ", !second);
    c.join();
    no_preempt();
    advance(200 * MS);
    c.pump();
    check(c.created(), "the session is not created");
    let _ = s;
    check(same(&c.data, b"$ "), "the client is not shown what follows the set-up");
    reach("set up");
}

/// What the shell runs to say that it is up, or done.
pub fn says() {
    use clap::Parser;
    boot();
    let which = choose(3, "which") as usize;
    let word = ["startup", "prompt", "something"][which];
    // it runs within a session, whatever its daemon was told
    let cfg = choose_bool("config");
    if cfg {
        put_file("/home/u/.config/shpool/config.toml", b"prompt_prefix = [\n");
    }
    let sock = choose_bool("running");
    let _d = if sock { Some(daemon("")) } else { None };
    crate::sim::set_env(&[("HOME", "/home/u"), ("XDG_RUNTIME_DIR", "/run"), (SENTINEL_FLAG_VAR, word), ("SHPOOL_SESSION_NAME", "s")]);
    process(1, || match libshpool::Args::try_parse_from(["/usr/bin/shpool", "daemon"]) {
        Ok(a) => unsafe { libshpool::run(a, None) },
        Err(_) => fail("the command is not accepted"),
    });
    advance(100 * MS);
    if which == 2 {
        // no such thing to say
        check(ended(1) != Some(0), "a daemon ends without need");
        check(!k().con_out.starts_with(b"SHPOOL_"), "a sentinel is printed without need");
        reach("END");
        return;
    }
    check(ended(1) == Some(0), "saying so fails");
    let said = [STARTUP_SENTINEL, PROMPT_SENTINEL][which];
    let out = k().con_out.clone();
    check(same(&out, format!("{said}\n").as_bytes()), "something else is said");
    check(k().con_err.is_empty(), "more is said");
    if sock {
        check(list().is_empty(), "the daemon does not answer");
    } else {
        check(!exists(SOCK) && !exists(EVENTS), "a daemon is started");
    }
    reach("said");
    reach("END");
}
