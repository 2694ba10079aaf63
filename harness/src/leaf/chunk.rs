//! The chunk codec.
use crate::rt::*;
use libshpool::verif::protocol::ChunkExt;
use shpool_protocol::{Chunk, ChunkKind};

/// A reader that hands out its data in pieces of chosen size.
struct Pieces<'a>(&'a [u8]);
impl std::io::Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let m = b.len().min(self.0.len());
        if m == 0 {
            return Ok(0);
        }
        let n = if m == 1 { 1 } else { 1 + choose(2, "piece") as usize * (m - 1) };
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn kind(i: u32) -> ChunkKind {
    match i {
        0 => ChunkKind::Data,
        1 => ChunkKind::Heartbeat,
        2 => ChunkKind::ExitStatus,
        _ => ChunkKind::MaybeSwitch,
    }
}

/// Any sequence of chunks written back to back reads back the same.
pub fn roundtrip() {
    let n = 1 + choose(2, "n");
    let mut wire = vec![];
    let mut want = vec![];
    for _ in 0..n {
        let k = kind(choose(4, "kind"));
        let data = if matches!(k, ChunkKind::ExitStatus) { sym_vec(4, 4, "data") } else { sym_vec(0, 5, "data") };
        let c = Chunk { kind: k, buf: &data };
        check(c.write_to(&mut wire).is_ok(), "write failed");
        want.push((k, data));
    }
    let mut r = Pieces(&wire);
    for (k, data) in want {
        let mut buf = [0u8; 5];
        match Chunk::read_into(&mut r, &mut buf) {
            Ok(c) => {
                check(c.kind as u8 == k as u8, "chunk kind changed");
                check(c.buf == &data[..], "chunk payload changed");
                reach("read");
            }
            Err(_) => fail("valid chunk rejected"),
        }
    }
    let mut buf = [0u8; 4];
    check(Chunk::read_into(&mut r, &mut buf).is_err(), "phantom chunk at end of stream");
}

/// Arbitrary bytes off the wire: no crash, never reads past the frame, and
/// only well formed frames are accepted.
pub fn robust() {
    let w = sym_vec(0, 8, "wire");
    let cap = choose(4, "cap") as usize * 2;
    let mut buf = vec![0u8; cap];
    let mut r = &w[..];
    let res = Chunk::read_into(&mut r, &mut buf);
    let used = w.len() - r.len();
    // reference
    let mut want: Option<(u8, usize, usize)> = None; // kind, offset, len
    if !w.is_empty() {
        match w[0] {
            0 | 1 | 3 if w.len() >= 5 => {
                let l = u32::from_le_bytes([w[1], w[2], w[3], w[4]]) as usize;
                if l <= cap && w.len() - 5 >= l {
                    want = Some((w[0], 5, l));
                }
            }
            2 if w.len() >= 5 && cap >= 4 => want = Some((2, 1, 4)),
            _ => {}
        }
    }
    match (res, want) {
        (Ok(c), Some((k, o, l))) => {
            check(c.kind as u8 == k, "wrong kind");
            check(c.buf == &w[o..o + l], "wrong payload");
            check(used == o + l, "decoder consumed bytes beyond the frame");
            reach("accepted");
        }
        (Err(_), None) => reach("rejected"),
        (Ok(_), None) => fail("malformed chunk accepted"),
        (Err(_), Some(_)) => fail("well formed chunk rejected"),
    }
}
