//! Duration strings (attach --ttl, show_every).
use crate::rt::*;
use libshpool::verif::duration::parse;

/// The documented forms: two to four colon separated numbers, or one
/// number followed by a one letter unit. Anything else is an error.
fn reference(s: &[u8]) -> Option<u64> {
    if s.contains(&b':') {
        let parts: Vec<&[u8]> = s.split(|c| *c == b':').collect();
        if parts.len() > 4 {
            return None;
        }
        let mults = [1u64, 60, 3600, 86400];
        let mut tot = 0u64;
        for (i, p) in parts.iter().rev().enumerate() {
            tot = tot.checked_add(num(p)?.checked_mul(mults[i])?)?;
        }
        Some(tot)
    } else {
        let (u, n) = s.split_last()?;
        let m = match *u {
            b's' => 1u64,
            b'm' => 60,
            b'h' => 3600,
            b'd' => 86400,
            _ => return None,
        };
        num(n)?.checked_mul(m)
    }
}
fn num(s: &[u8]) -> Option<u64> {
    if s.is_empty() {
        return None;
    }
    let mut v = 0u64;
    for c in s {
        if !c.is_ascii_digit() {
            return None;
        }
        v = v.checked_mul(10)?.checked_add((*c - b'0') as u64)?;
    }
    Some(v)
}

fn judge(s: &str) {
    // a sign is neither documented nor forbidden
    let mut plus = false;
    for b in s.bytes() {
        plus |= b == b'+';
    }
    assume(!plus);
    let got = parse(s);
    let want = reference(s.as_bytes());
    match (got, want) {
        (Ok(d), Some(w)) => {
            check(d.as_secs() == w && d.subsec_nanos() == 0, "duration parsed to the wrong value");
            reach("accepted");
        }
        (Err(_), None) => reach("rejected"),
        (Ok(_), None) => fail("malformed or overflowing duration accepted"),
        (Err(_), Some(_)) => fail("well formed duration rejected"),
    }
}

/// Every ascii string of up to 5 characters.
pub fn short() {
    let s = sym_ascii(0, 4, "s");
    judge(&s);
}

/// Long numbers: leading digits symbolic, so every overflow edge is covered.
pub fn wide() {
    let n = 17 + choose(4, "ndigits") as usize;
    let mut v = vec![b'9'; n];
    let d: [u8; 3] = sym_array("digits");
    for b in d {
        assume(b.is_ascii_digit());
    }
    v[0] = d[0];
    v[1] = d[1];
    v[n - 1] = d[2];
    match choose(3, "form") {
        0 => v.push([b's', b'm', b'h', b'd'][choose(4, "unit") as usize]),
        1 => {
            let k = 1 + choose(3, "field") as usize;
            for _ in 0..k {
                v.extend_from_slice(b":59");
            }
        }
        _ => {
            let mut w = b"7:7:".to_vec();
            w.extend_from_slice(&v);
            v = w;
        }
    }
    judge(std::str::from_utf8(&v).unwrap());
}
