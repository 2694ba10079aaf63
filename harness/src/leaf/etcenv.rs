//! /etc/environment parsing.
use crate::rt::*;
use libshpool::verif::daemon::etc_environment::parse_compat;

fn reference(f: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut out = vec![];
    for line in f.split(|c| *c == b'\n') {
        // an undecodable line counts for nothing
        let Ok(line) = std::str::from_utf8(line) else {
            reach("undecodable");
            continue;
        };
        let mut l = line.trim().as_bytes();
        if l.is_empty() || l[0] == b'#' {
            continue;
        }
        if l.starts_with(b"export ") {
            l = &l[7..];
        }
        if let Some(p) = l.iter().position(|c| *c == b'#') {
            l = &l[..p];
        }
        let Some(e) = l.iter().position(|c| *c == b'=') else { continue };
        let (k, mut v) = (&l[..e], &l[e + 1..]);
        if k.is_empty() || !k.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
            continue;
        }
        let q = |c: u8| c == b'\'' || c == b'"';
        if !v.is_empty() && q(v[0]) {
            // up to one quote of each kind goes, single first, at either end
            for c in [b'\'', b'"'] {
                if !v.is_empty() && v[0] == c {
                    v = &v[1..];
                }
            }
            for c in [b'\'', b'"'] {
                if !v.is_empty() && v[v.len() - 1] == c {
                    v = &v[..v.len() - 1];
                }
            }
        }
        out.push((k.to_vec(), v.to_vec()));
    }
    out
}
fn judge(f: &[u8]) {
    type File = std::io::Cursor<Vec<u8>>;
    let parse: fn(File) -> anyhow::Result<Vec<(String, String)>> = parse_compat;
    match std::hint::black_box(parse)(File::new(f.to_vec())) {
        Ok(got) => {
            let want = reference(f);
            check(got.len() == want.len(), "wrong number of variables");
            for ((k, v), (wk, wv)) in got.iter().zip(want.iter()) {
                check(k.as_bytes() == &wk[..], "wrong variable name");
                check(v.as_bytes() == &wv[..], "wrong variable value");
                reach("pair");
            }
        }
        Err(_) => fail("parse error on a readable file"),
    }
}
/// A two line file with symbolic text around the structure.
pub fn lines() {
    let a = sym_vec(0, 3, "a");
    let mut f = match choose(4, "lead") {
        0 => b"A=".to_vec(),
        1 => b" export B".to_vec(),
        2 => vec![],
        _ => b"X=1\nY_2=".to_vec(),
    };
    f.extend_from_slice(&a);
    if choose_bool("tail") {
        f.extend_from_slice(b"=\"q\n#c\nZ='z' \n");
    }
    judge(&f);
}
