//! What a program which embeds shpool is told through its hooks.
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;

static mut SAID: Vec<u8> = Vec::new();
static mut FAILS: bool = false;
const NAMES: [&str; 2] = ["s", "t"];

struct Note;
fn note(what: u8, name: &str) -> anyhow::Result<()> {
    check(name == "s" || name == "t", "a hook is given another name");
    unsafe {
        #[allow(static_mut_refs)]
        SAID.extend_from_slice(&[what, name.as_bytes()[0]]);
        if FAILS {
            return Err(anyhow::anyhow!("no"));
        }
    }
    Ok(())
}
impl libshpool::Hooks for Note {
    fn on_new_session(&self, n: &str) -> anyhow::Result<()> {
        note(b'n', n)
    }
    fn on_reattach(&self, n: &str) -> anyhow::Result<()> {
        note(b'r', n)
    }
    fn on_busy(&self, n: &str) -> anyhow::Result<()> {
        note(b'b', n)
    }
    fn on_client_disconnect(&self, n: &str) -> anyhow::Result<()> {
        note(b'c', n)
    }
    fn on_shell_disconnect(&self, n: &str) -> anyhow::Result<()> {
        note(b'x', n)
    }
}
/// The hooks called since this was last asked.
#[allow(static_mut_refs)]
fn said() -> Vec<u8> {
    unsafe { std::mem::take(&mut SAID) }
}
fn start() -> Daemon {
    boot();
    limit(60 * SEC);
    unsafe { FAILS = choose_bool("fails") };
    daemon_hooks("", Box::new(Note))
}

/// Histories of requests.
pub fn story() {
    hist(3);
}
pub fn story_deep() {
    hist(4);
}
fn hist(steps: usize) {
    let _d = start();
    let mut pty: [Option<usize>; 2] = [None, None];
    let mut cl: [Option<Client>; 2] = [None, None];
    for _ in 0..steps {
        let i = choose(2, "name") as usize;
        let name = NAMES[i];
        let n = name.as_bytes()[0];
        let want: Vec<u8> = match choose(8, "op") {
            0 => {
                let mut h = header(name);
                let ttl = pty[i].is_none() && choose_bool("ttl");
                if ttl {
                    h.ttl_secs = Some(2);
                }
                let mut c = Client::attach(h);
                if cl[i].is_some() {
                    check(c.busy(), "a second client is let in");
                    settle();
                    vec![b'b', n]
                } else if pty[i].is_some() {
                    check(c.reattached(), "a running session is not reattached");
                    cl[i] = Some(c);
                    vec![b'r', n]
                } else {
                    check(c.created(), "a session is not created");
                    pty[i] = Some(k().ptys.len() - 1);
                    if ttl {
                        let g = said();
                        check(g == [b'n', n], "not exactly the hook of a new session is called");
                        advance(4 * SEC);
                        c.pump();
                        check(c.eof, "a client outlives its session");
                        pty[i] = None;
                        reach("reaped");
                        vec![b'x', n]
                    } else {
                        cl[i] = Some(c);
                        vec![b'n', n]
                    }
                }
            }
            1 => {
                if cl[i].is_none() {
                    return;
                }
                cl[i] = None;
                vec![b'c', n]
            }
            2 => {
                match &mut cl[i] {
                    Some(c) => c.send(&[0, 17]),
                    None => return,
                }
                cl[i] = None;
                vec![b'c', n]
            }
            3 => {
                let r = detach(&[name]);
                let had = cl[i].take().is_some();
                check(r.not_attached_sessions.is_empty() == (had || pty[i].is_none()), "the wrong sessions are reported");
                if had {
                    vec![b'c', n]
                } else {
                    vec![]
                }
            }
            4 => {
                let r = kill(&[name]);
                check(r.not_found_sessions.is_empty() == pty[i].is_some(), "the wrong sessions are reported");
                pty[i] = None;
                if cl[i].take().is_some() {
                    vec![b'x', n]
                } else {
                    vec![]
                }
            }
            5 => {
                let p = match (pty[i], &cl[i]) {
                    (Some(p), Some(_)) => p,
                    _ => return,
                };
                exit(p, 3);
                advance(700 * MS);
                let mut c = cl[i].take().unwrap();
                c.pump();
                check(c.exit == Some(3) && c.eof, "the exit status is not sent");
                pty[i] = None;
                vec![b'x', n]
            }
            6 => {
                // things nobody needs to be told of
                check(resize(name, [30, 90, 0, 0]).is_some(), "no answer to a resize");
                let _ = list();
                drop(dial());
                if let Some(p) = pty[i] {
                    output(p, b"hello");
                }
                vec![]
            }
            _ => {
                // refused
                let mut h = header(name);
                h.name = String::from("no/t");
                let c = Client::attach(h);
                check(!c.created() && !c.reattached(), "an illegal name is used");
                vec![]
            }
        };
        advance(700 * MS);
        let got = said();
        check(same(&got, &want), "not exactly the hooks of what happened are called");
    }
    reach("steps");
}

/// Clients at once, one of which may leave.
pub fn race() {
    let _d = start();
    preempt_any(1, 60);
    let mut a = Client::begin(header("s"));
    let how = choose(3, "how");
    let mut b = Client::begin(header("s"));
    if how == 1 {
        a.hangup();
    } else if how == 2 {
        advance([0, 5 * MS, 40 * MS][choose(3, "later") as usize]);
        if k().ptys.len() > 0 {
            exit(0, 1);
        }
    }
    if how != 1 {
        a.join();
    }
    b.join();
    advance(700 * MS);
    no_preempt();
    advance(SEC);
    let got = said();
    let count = |w: u8| got.iter().step_by(2).filter(|x| **x == w).count();
    let (n, r, x, c, u) = (count(b'n'), count(b'r'), count(b'x'), count(b'c'), count(b'b'));
    let is = |c: &Client| (c.created() as usize, c.reattached() as usize, c.busy() as usize);
    let (bn, br, bb) = is(&b);
    check(bn + br + bb == 1, "the second client is not answered");
    if how == 0 {
        let (an, ar, ab) = is(&a);
        check(n == an + bn && r == ar + br && u == ab + bb && c == 0 && x == 0, "not exactly the hooks of what happened are called");
        reach("both");
    } else if how == 2 {
        let (an, ar, ab) = is(&a);
        check(n == an + bn && r == ar + br && u == ab + bb, "not exactly the hooks of what happened are called");
        let left = list().len();
        check(x + c + left == n + r, "not exactly the hooks of what happened are called");
        reach("ended");
    } else {
        // the one which leaves may or may not have got in
        check(n == 1 && r == br, "not exactly the hooks of what happened are called");
        check(c + (bn + br) == n + r && x == 0, "not exactly the hooks of what happened are called");
        check(u >= bb && u <= 1, "not exactly the hooks of what happened are called");
        reach("left");
    }
}
