//! The keybinding language and the matching engine.
use crate::rt::*;
use libshpool::verif::daemon::keybindings::{Action, BindingResult, Bindings};

const SYMS: [&str; 44] = [
    "Space", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s",
    "t", "u", "v", "w", "x", "y", "z", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "\\", "[", "]", "@",
    "^", "_", "?",
];

fn plain_code(s: &str) -> u8 {
    if s == "Space" {
        b' '
    } else {
        s.as_bytes()[0]
    }
}
/// What a terminal sends for Ctrl plus the key (VT100 rules).
fn ctrl_code(s: &str) -> Option<u8> {
    let c = plain_code(s);
    Some(match c {
        b' ' | b'@' | b'2' => 0,
        b'a'..=b'z' => c - b'a' + 1,
        b'[' | b'3' => 27,
        b'\\' | b'4' => 28,
        b']' | b'5' => 29,
        b'^' | b'6' => 30,
        b'_' | b'7' => 31,
        b'?' | b'8' => 127,
        _ => return None,
    })
}

/// Every chord alone, against every input byte.
pub fn table() {
    let k = SYMS[choose(SYMS.len() as u32, "sym") as usize];
    let ctrl = choose_bool("ctrl");
    let src = if ctrl { format!("Ctrl-{k}") } else { k.to_string() };
    let b = Bindings::new(vec![(src.as_str(), Action::Detach)]);
    let want = if ctrl { ctrl_code(k) } else { Some(plain_code(k)) };
    let Some(want) = want else {
        // keys for which terminals have no control code (Ctrl-0, Ctrl-1, Ctrl-9)
        // may be rejected or mapped, but must not crash.
        return;
    };
    let Ok(mut b) = b else { fail("a documented chord was rejected") };
    let x = sym_u8("byte");
    let got = b.transition(x);
    if x == want {
        reach("match");
        check(got == BindingResult::Match(Action::Detach), "the chord's own key code did not match");
    } else {
        reach("nomatch");
        check(got == BindingResult::NoMatch, "a different byte matched the chord");
    }
}

const ALPHA: [(&str, u8); 6] =
    [("a", b'a'), ("Ctrl-a", 1), ("Ctrl-@", 0), ("Ctrl-Space", 0), ("Ctrl-2", 0), ("Space", b' ')];

fn run_seqs(nbind: usize, maxlen: u32, nalpha: u32, nbytes: usize) {
    let mut srcs: Vec<(String, Vec<u8>, Action)> = vec![];
    for i in 0..nbind {
        let n = 1 + choose(maxlen, "len");
        let mut s = String::new();
        let mut codes = vec![];
        for j in 0..n {
            let (t, c) = ALPHA[choose(nalpha, "chord") as usize];
            if j > 0 {
                s.push(' ');
            }
            s.push_str(t);
            codes.push(c);
        }
        srcs.push((s, codes, if i == 0 { Action::Detach } else { Action::NoOp }));
    }
    let b = Bindings::new(srcs.iter().map(|(s, _, a)| (s.as_str(), *a)));
    let Ok(mut b) = b else { fail("a well formed binding was rejected") };
    // reference matcher
    let mut pre: Vec<u8> = vec![];
    for i in 0..nbytes {
        let x = sym_u8("byte");
        let got = b.transition(x);
        pre.push(x);
        let mut want = BindingResult::NoMatch;
        let mut full = None;
        let mut partial = false;
        for (_, c, a) in srcs.iter() {
            if c.len() >= pre.len() && c[..pre.len()] == pre[..] {
                if c.len() == pre.len() {
                    full = Some(*a);
                } else {
                    partial = true;
                }
            }
        }
        if let Some(a) = full {
            want = BindingResult::Match(a);
            reach("match");
            pre.clear();
        } else if partial {
            want = BindingResult::Partial;
            reach("partial");
        } else {
            if i > 0 {
                reach("broken");
            }
            pre.clear();
        }
        check(got == want, "keybinding engine reported the wrong result for a byte stream");
    }
}
/// One binding of up to three chords over five symbolic bytes.
pub fn one() {
    run_seqs(1, 3, 4, 5)
}
/// Two bindings of up to two chords over three symbolic bytes.
pub fn two() {
    run_seqs(2, 2, 5, 3)
}

/// Any short text in a binding: no crash, and what is accepted is well formed.
pub fn text() {
    let s = sym_ascii(0, 3, "s");
    judge_text(&s);
}
/// Fragments of keywords glued together.
pub fn frags() {
    const FR: [&str; 9] = ["Ctrl", "-", " ", "q", "Space", "Sp", "C", "Ctr", "A"];
    let n = choose(5, "n");
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(FR[choose(FR.len() as u32, "frag") as usize]);
    }
    judge_text(&s);
}
fn judge_text(s: &str) {
    let got = Bindings::new(vec![(s, Action::Detach)]);
    let want = reference(s.as_bytes());
    match (got, want) {
        (Ok(mut b), Some(codes)) => {
            reach("accepted");
            let n = codes.len();
            for (i, c) in codes.iter().enumerate() {
                let r = b.transition(*c);
                if i + 1 == n {
                    check(r == BindingResult::Match(Action::Detach), "accepted binding does not fire");
                } else {
                    check(r == BindingResult::Partial, "accepted binding fires early");
                }
            }
        }
        (Err(_), None) => reach("rejected"),
        (Ok(_), None) => fail("malformed keybinding accepted"),
        (Err(_), Some(_)) => fail("well formed keybinding rejected"),
    }
}
/// Reference parser: whitespace only separates, Ctrl only as 'Ctrl-key'.
fn reference(s: &[u8]) -> Option<Vec<u8>> {
    // tokens: None is a dash, Some(0xff) Ctrl, Some(c) a key
    let mut toks: Vec<Option<u8>> = vec![];
    let t: Vec<u8> = s.iter().copied().filter(|c| !(*c as char).is_whitespace()).collect();
    let mut i = 0;
    while i < t.len() {
        let r = &t[i..];
        if r.starts_with(b"Ctrl") {
            toks.push(Some(0xff));
            i += 4;
        } else if r.starts_with(b"Space") {
            toks.push(Some(b' '));
            i += 5;
        } else if r[0] == b'-' {
            toks.push(None);
            i += 1;
        } else if r[0].is_ascii_lowercase() || r[0].is_ascii_digit() || br"\[]@^_?".contains(&r[0]) {
            toks.push(Some(r[0]));
            i += 1;
        } else {
            return None;
        }
    }
    let mut out = vec![];
    let mut j = 0;
    while j < toks.len() {
        match toks[j] {
            None => return None,
            Some(0xff) => {
                if j + 2 < toks.len() + 0 && toks[j + 1].is_none() {
                    let k = toks[j + 2]?;
                    if k == 0xff {
                        return None;
                    }
                    let name = if k == b' ' { "Space".to_string() } else { (k as char).to_string() };
                    let code = if k == b'0' { 127 } else { ctrl_code(&name)? };
                    out.push(code);
                    j += 3;
                } else {
                    return None;
                }
            }
            Some(k) => {
                out.push(k);
                j += 1;
            }
        }
        if j < toks.len() && toks[j].is_none() {
            return None;
        }
    }
    if out.is_empty() {
        return None;
    }
    Some(out)
}
