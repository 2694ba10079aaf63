//! Finding the prompt sentinel in shell output.
use crate::rt::*;
use libshpool::verif::daemon::shell_inject::SentinelScanner;

/// A byte stream over an arbitrary alphabet: the scanner fires at the end
/// of the first occurrence and nowhere else.
fn run(sentinel: &str, n: usize) {
    let s = sentinel.as_bytes();
    let mut sc = SentinelScanner::new(sentinel);
    let mut seen: Vec<u8> = vec![];
    let mut fired = false;
    for _ in 0..n {
        let b = sym_u8("byte");
        seen.push(b);
        let got = sc.transition(b);
        let here = !fired && seen.len() >= s.len() && seen[seen.len() - s.len()..] == *s;
        check(got == here, "sentinel scanner fired at the wrong place");
        if here {
            fired = true;
            reach("fired");
        }
    }
}
pub fn overlap() {
    match choose(3, "sentinel") {
        0 => run("AAB", 6),
        1 => run("ABAC", 6),
        _ => run("AB", 5),
    }
}
/// The real sentinels, preceded by arbitrary output.
pub fn real() {
    use libshpool::verif::consts::*;
    let s = [STARTUP_SENTINEL, PROMPT_SENTINEL][choose(2, "which") as usize];
    let mut sc = SentinelScanner::new(s);
    let cut = choose(s.len() as u32, "cut") as usize;
    let mut out: Vec<u8> = s.as_bytes()[..cut].to_vec();
    let pre: [u8; 2] = sym_array("noise");
    out.extend_from_slice(&pre);
    for i in 0..out.len() {
        assume(!out[..=i].ends_with(s.as_bytes()));
    }
    for b in out.iter() {
        check(!sc.transition(*b), "fired without a sentinel");
    }
    for (i, b) in s.bytes().enumerate() {
        let got = sc.transition(b);
        check(got == (i + 1 == s.len()), "sentinel missed or seen early");
    }
    reach("fired");
}
