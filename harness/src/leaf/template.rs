//! Session name templates.
use crate::rt::*;
use libshpool::verif::template::Template;
use std::collections::HashMap;

fn ident_ok(v: &[u8]) -> bool {
    if v.is_empty() || v[0].is_ascii_digit() {
        return false;
    }
    v.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}

/// Text with every `{name}` replaced, or None if it is not a template.
fn reference(s: &[u8], vars: &[(&[u8], Vec<u8>)]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'{' {
            let mut j = i + 1;
            while j < s.len() && s[j] != b'}' {
                j += 1;
            }
            if j == s.len() {
                return None;
            }
            let name = &s[i + 1..j];
            if !ident_ok(name) {
                return None;
            }
            for (k, v) in vars {
                if *k == name {
                    out.extend_from_slice(v);
                }
            }
            i = j + 1;
        } else {
            out.push(s[i]);
            i += 1;
        }
    }
    Some(out)
}

pub fn differential() {
    let s = sym_ascii(0, 5, "src");
    let t = Template::new(&s);
    let val = sym_ascii(2, 2, "value");
    let vars: Vec<(&[u8], Vec<u8>)> =
        vec![(b"a", val.clone().into_bytes()), (b"_", b"{a}".to_vec()), (b"a1", b"".to_vec())];
    let want = reference(s.as_bytes(), &vars);
    match (t, want) {
        (Ok(t), Some(w)) => {
            check(t.source().as_bytes() == s.as_bytes(), "template source is not the input");
            let mut m = HashMap::new();
            m.insert(String::from("a"), val);
            m.insert(String::from("_"), String::from("{a}"));
            m.insert(String::from("a1"), String::new());
            let got = t.apply(&m);
            check(got.as_bytes() == &w[..], "template instantiated to the wrong text");
            reach("accepted");
        }
        (Err(_), None) => reach("rejected"),
        (Ok(_), None) => fail("malformed template accepted"),
        (Err(_), Some(_)) => fail("well formed template rejected"),
    }
}

/// Longer templates put together from whole references and text, every
/// variable having an arbitrary value (which may itself spell a reference).
pub fn frags() {
    let mut s = String::new();
    let n = choose(4, "n") + 1;
    for _ in 0..n {
        match choose(6, "frag") {
            0 => s.push_str("{a}"),
            1 => s.push_str("{bb_}"),
            2 => s.push_str("{c1}"),
            3 => s.push_str("x-"),
            4 => s.push('}'),
            _ => s.push('{'),
        }
    }
    let a = match choose(4, "a") {
        0 => sym_ascii(2, 2, "aval"),
        1 => String::from("{bb_}"),
        2 => String::from("{a}"),
        _ => String::new(),
    };
    let b = match choose(4, "b") {
        0 => sym_ascii(2, 2, "bval"),
        1 => String::from("{a}"),
        2 => String::from("{c1}"),
        _ => String::new(),
    };
    let vars: Vec<(&[u8], Vec<u8>)> =
        vec![(b"a", a.clone().into_bytes()), (b"bb_", b.clone().into_bytes())];
    let want = reference(s.as_bytes(), &vars);
    match (Template::new(&s), want) {
        (Ok(t), Some(w)) => {
            let mut m = HashMap::new();
            m.insert(String::from("a"), a);
            m.insert(String::from("bb_"), b);
            check(t.source().as_bytes() == s.as_bytes(), "template source is not the input");
            check(t.apply(&m).as_bytes() == &w[..], "template instantiated to the wrong text");
            // Instantiation does not change the template.
            check(t.apply(&m).as_bytes() == &w[..], "template instantiated differently the second time");
            reach("accepted");
        }
        (Err(_), None) => reach("rejected"),
        (Ok(_), None) => fail("malformed template accepted"),
        (Err(_), Some(_)) => fail("well formed template rejected"),
    }
}
