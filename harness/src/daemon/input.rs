//! What a client types reaches the shell.
use crate::rt::*;
use crate::sim::kernel::*;
use crate::sim::os::*;

struct Set {
    cfg: &'static str,
    b: &'static [(&'static [u8], bool)],
}
/// bindings, and whether each detaches
const SETS: [Set; 5] = [
    Set { cfg: "", b: &[(&[0, 17], true)] },
    Set {
        cfg: "[[keybinding]]\nbinding = \"a b\"\naction = \"noop\"\n",
        b: &[(b"ab", false)],
    },
    Set {
        cfg: "[[keybinding]]\nbinding = \"a a b\"\naction = \"noop\"\n",
        b: &[(b"aab", false)],
    },
    Set {
        cfg: "[[keybinding]]\nbinding = \"a b\"\naction = \"noop\"\n[[keybinding]]\nbinding = \"c\"\naction = \"noop\"\n",
        b: &[(b"ab", false), (b"c", false)],
    },
    Set {
        cfg: "[[keybinding]]\nbinding = \"a b c\"\naction = \"detach\"\n[[keybinding]]\nbinding = \"b\"\naction = \"noop\"\n",
        b: &[(b"abc", true), (b"b", false)],
    },
];

struct Ref {
    b: &'static [(&'static [u8], bool)],
    pre: Vec<u8>,
    out: Vec<u8>,
    gone: bool,
    hit: bool,
}
impl Ref {
    fn feed(&mut self, x: u8) {
        if self.gone {
            return;
        }
        self.pre.push(x);
        let mut full = None;
        let mut part = false;
        for (c, d) in self.b {
            if c.len() >= self.pre.len() && c[..self.pre.len()] == self.pre[..] {
                if c.len() == self.pre.len() {
                    full = Some(*d);
                } else {
                    part = true;
                }
            }
        }
        if let Some(d) = full {
            self.hit = true;
            self.pre.clear();
            self.gone = d;
        } else if !part {
            let p = std::mem::take(&mut self.pre);
            self.out.extend_from_slice(&p);
        }
    }
}

fn stream(set: &'static Set, n: usize) {
    boot();
    let _d = daemon(set.cfg);
    let mut a = Client::named("s");
    check(a.created(), "the session is not created");
    settle();
    let mut r = Ref { b: set.b, pre: vec![], out: vec![], gone: false, hit: false };
    let mut got: Vec<u8> = vec![];
    let mut data = vec![0u8; n];
    sym_bytes(&mut data, "typed");
    let mut i = 0;
    while i < n {
        let mut m = 1 + choose((n - i) as u32, "read") as usize;
        if m > n - i {
            m = n - i;
        }
        if !r.gone {
            a.send(&data[i..i + m]);
        }
        settle();
        for x in &data[i..i + m] {
            r.feed(*x);
        }
        i += m;
        got.extend_from_slice(&input(0));
        check(got.len() == r.out.len(), "the shell got the wrong number of bytes");
        let mut same = true;
        for j in 0..got.len() {
            same &= got[j] == r.out[j];
        }
        check(same, "the shell got other bytes than were typed");
    }
    if r.hit {
        reach("hit");
    }
    advance(200 * MS);
    a.pump();
    if r.gone {
        reach("detached");
        check(a.eof, "a detach binding does not detach the client");
        check(a.exit == Some(0), "a detached client does not exit with status 0");
        let l = listed("s");
        check(l.is_some(), "detaching ended the session");
        check(proc_state(pid_of(0)) == P::Alive, "detaching ended the shell");
    } else {
        check(!a.eof && a.exit.is_none(), "the client is dropped while it types");
        reach("typed");
    }
}

pub fn default_binding() {
    stream(&SETS[0], 5);
}
pub fn other_bindings() {
    stream(&SETS[1 + choose(4, "set") as usize], 5);
}
