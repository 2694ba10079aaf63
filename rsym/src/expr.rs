//! Hash-consed bit-vector expressions over byte variables.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    #[inline]
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    #[inline]
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    #[inline]
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    #[inline]
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    #[inline]
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95)
    }
    #[inline]
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct E(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // b = low bit
    Concat,  // a = high, b = low
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub sup: Vec<&'static [u32]>,
    intern: FxMap<Node, u32>,
    sup_intern: FxMap<Vec<u32>, &'static [u32]>,
    pub nvars: u32,
    pub doms: FxMap<E, [u64; 4]>,
    depth: Vec<u8>,
    tables: FxMap<u32, Rc<Table>>,
    canon: FxMap<(u32, u16, Rc<Table>), u32>,
    pub canons: u64,
}

/// The values of an expression over one byte variable.
pub type Table = [u128; 256];
/// Expressions over one variable from this depth on are replaced by the first
/// (or an affine) expression with the same values.
const DEEP: u8 = 6;
const MAX_TABLES: usize = 20_000;

static mut ARENA: Option<Arena> = None;

#[allow(static_mut_refs)]
#[inline]
pub fn ar() -> &'static mut Arena {
    unsafe { ARENA.get_or_insert_with(Arena::new) }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    // w: operand width
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u128 - 1 } else { b };
            ((sext128(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
        Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
        _ => unreachable!(),
    }
}

impl Arena {
    fn new() -> Arena {
        Arena {
            nodes: vec![],
            sup: vec![],
            intern: Default::default(),
            sup_intern: Default::default(),
            nvars: 0,
            doms: Default::default(),
            depth: vec![],
            tables: Default::default(),
            canon: Default::default(),
            canons: 0,
        }
    }
    /// The values of a node with one variable.
    pub fn table(&mut self, i: u32) -> Rc<Table> {
        if let Some(t) = self.tables.get(&i) {
            return t.clone();
        }
        let n = self.nodes[i as usize];
        let mut r: Table = [0; 256];
        match n.op {
            Op::Const => r = [n.k; 256],
            Op::Var => {
                for v in 0..256 {
                    r[v] = v as u128;
                }
            }
            Op::ZExt => return self.table(n.a),
            Op::SExt => {
                let a = self.table(n.a);
                let iw = self.nodes[n.a as usize].w as u32;
                for v in 0..256 {
                    r[v] = sext128(a[v], iw) as u128 & mask(n.w as u32);
                }
            }
            Op::Extract => {
                let a = self.table(n.a);
                for v in 0..256 {
                    r[v] = (a[v] >> n.b) & mask(n.w as u32);
                }
            }
            Op::Concat => {
                let (a, b) = (self.table(n.a), self.table(n.b));
                let lw = self.nodes[n.b as usize].w;
                for v in 0..256 {
                    r[v] = (a[v] << lw) | b[v];
                }
            }
            Op::Ite => {
                let (a, b, c) = (self.table(n.a), self.table(n.b), self.table(n.c));
                for v in 0..256 {
                    r[v] = if a[v] != 0 { b[v] } else { c[v] };
                }
            }
            op => {
                let (a, b) = (self.table(n.a), self.table(n.b));
                let w = self.nodes[n.a as usize].w as u32;
                for v in 0..256 {
                    r[v] = fold(op, w, a[v], b[v]);
                }
            }
        }
        let r = Rc::new(r);
        if n.op != Op::Const {
            if self.tables.len() >= MAX_TABLES {
                self.tables.clear();
                self.canon.clear();
            }
            self.tables.insert(i, r.clone());
        }
        r
    }
    /// The expression to use instead of this one.
    fn canonical(&mut self, i: u32) -> E {
        self.canons += 1;
        let t = self.table(i);
        let w = self.nodes[i as usize].w;
        let var = self.sup[i as usize][0];
        if t.iter().all(|x| *x == t[0]) {
            return self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: t[0] });
        }
        if let Some(&c) = self.canon.get(&(var, w, t.clone())) {
            return E(c);
        }
        let mut r = i;
        if w >= 8 {
            // c + d * x
            let m = mask(w as u32);
            let d = t[1].wrapping_sub(t[0]) & m;
            if (1..256).all(|v| t[v] == t[v - 1].wrapping_add(d) & m) {
                let x = self.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: var as u128 });
                let mut y = x;
                if w > 8 {
                    y = self.mk(Node { op: Op::ZExt, w, a: x.0, b: 0, c: 0, k: 0 });
                }
                if d != 1 {
                    let d = self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: d });
                    y = self.mk(Node { op: Op::Mul, w, a: y.0, b: d.0, c: 0, k: 0 });
                }
                if t[0] != 0 {
                    let c = self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: t[0] });
                    y = self.mk(Node { op: Op::Add, w, a: y.0, b: c.0, c: 0, k: 0 });
                }
                r = y.0;
            }
        }
        self.canon.insert((var, w, t), r);
        E(r)
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&i) = self.intern.get(&n) {
            return E(i);
        }
        let sup: &'static [u32] = match n.op {
            Op::Const => &[],
            Op::Var => self.isup(vec![n.k as u32]),
            _ => {
                let mut s: &'static [u32] = self.sup[n.a as usize];
                let ops: &[u32] = match n.op {
                    Op::ZExt | Op::SExt | Op::Extract => &[],
                    Op::Ite => &[n.b, n.c],
                    _ => &[n.b],
                };
                for &o in ops {
                    let t = self.sup[o as usize];
                    if t.is_empty() || std::ptr::eq(s.as_ptr(), t.as_ptr()) && s.len() == t.len() {
                        continue;
                    }
                    if s.is_empty() {
                        s = t;
                        continue;
                    }
                    let mut v: Vec<u32> = s.iter().chain(t.iter()).copied().collect();
                    v.sort_unstable();
                    v.dedup();
                    s = self.isup(v);
                }
                s
            }
        };
        let i = self.nodes.len() as u32;
        let mut d = 0;
        if !sup.is_empty() && n.op != Op::Var {
            let ops: &[u32] = match n.op {
                Op::ZExt | Op::SExt | Op::Extract => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            for &o in ops {
                d = d.max(self.depth[o as usize]);
            }
            d = (d + 1).min(DEEP);
        }
        self.nodes.push(n);
        self.sup.push(sup);
        self.depth.push(d);
        self.intern.insert(n, i);
        if d >= DEEP && sup.len() == 1 {
            let c = self.canonical(i);
            self.intern.insert(n, c.0);
            return c;
        }
        E(i)
    }
    fn isup(&mut self, v: Vec<u32>) -> &'static [u32] {
        if let Some(s) = self.sup_intern.get(&v) {
            return s;
        }
        let l: &'static [u32] = Box::leak(v.clone().into_boxed_slice());
        self.sup_intern.insert(v, l);
        l
    }
}

#[inline]
pub fn nd(e: E) -> Node {
    ar().nodes[e.0 as usize]
}
#[inline]
pub fn width(e: E) -> u32 {
    ar().nodes[e.0 as usize].w as u32
}
#[inline]
pub fn support(e: E) -> &'static [u32] {
    ar().sup[e.0 as usize]
}
pub fn konst(w: u32, k: u128) -> E {
    ar().mk(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask(w) })
}
pub fn fresh_byte() -> E {
    let id = ar().nvars;
    ar().nvars += 1;
    var_byte(id)
}
pub fn var_byte(id: u32) -> E {
    let a = ar();
    if a.nvars <= id {
        a.nvars = id + 1;
    }
    a.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: id as u128 })
}
#[inline]
pub fn as_const(e: E) -> Option<u128> {
    let n = nd(e);
    if n.op == Op::Const {
        Some(n.k)
    } else {
        None
    }
}
fn bin_raw(op: Op, w: u32, a: E, b: E) -> E {
    ar().mk(Node { op, w: w as u16, a: a.0, b: b.0, c: 0, k: 0 })
}
pub fn tru() -> E {
    konst(1, 1)
}
pub fn fls() -> E {
    konst(1, 0)
}
pub fn not1(a: E) -> E {
    bin(Op::Xor, a, tru())
}
/// bitwise complement-aware negation test
fn is_not_of(a: E, b: E) -> bool {
    let n = nd(a);
    n.op == Op::Xor && E(n.a) == b && as_const(E(n.b)) == Some(mask(n.w as u32))
}

pub fn ite(c: E, t: E, f: E) -> E {
    if let Some(k) = as_const(c) {
        return if k != 0 { t } else { f };
    }
    if t == f {
        return t;
    }
    let w = width(t);
    if w == 1 {
        match (as_const(t), as_const(f)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not1(c),
            (Some(1), None) => return bin(Op::Or, c, f),
            (Some(0), None) => return bin(Op::And, not1(c), f),
            (None, Some(0)) => return bin(Op::And, c, t),
            (None, Some(1)) => return bin(Op::Or, not1(c), t),
            _ => {}
        }
    }
    let cn = nd(c);
    if cn.op == Op::Xor && as_const(E(cn.b)) == Some(1) {
        return ite(E(cn.a), f, t);
    }
    let tn = nd(t);
    if tn.op == Op::Ite && E(tn.a) == c {
        return ite(c, E(tn.b), f);
    }
    let fnn = nd(f);
    if fnn.op == Op::Ite && E(fnn.a) == c {
        return ite(c, t, E(fnn.c));
    }
    ar().mk(Node { op: Op::Ite, w: w as u16, a: c.0, b: t.0, c: f.0, k: 0 })
}

pub fn zext(a: E, w: u32) -> E {
    let n = nd(a);
    let aw = n.w as u32;
    if aw == w {
        return a;
    }
    if let Some(k) = as_const(a) {
        return konst(w, k);
    }
    if n.op == Op::ZExt {
        return zext(E(n.a), w);
    }
    if n.op == Op::Ite && (as_const(E(n.b)).is_some() || as_const(E(n.c)).is_some()) {
        return ite(E(n.a), zext(E(n.b), w), zext(E(n.c), w));
    }
    ar().mk(Node { op: Op::ZExt, w: w as u16, a: a.0, b: 0, c: 0, k: 0 })
}
pub fn sext(a: E, w: u32) -> E {
    let n = nd(a);
    let aw = n.w as u32;
    if aw == w {
        return a;
    }
    if let Some(k) = as_const(a) {
        return konst(w, sext128(k, aw) as u128);
    }
    if n.op == Op::ZExt {
        return zext(E(n.a), w);
    }
    if n.op == Op::Ite && (as_const(E(n.b)).is_some() || as_const(E(n.c)).is_some()) {
        return ite(E(n.a), sext(E(n.b), w), sext(E(n.c), w));
    }
    ar().mk(Node { op: Op::SExt, w: w as u16, a: a.0, b: 0, c: 0, k: 0 })
}
pub fn extract(a: E, lo: u32, w: u32) -> E {
    let n = nd(a);
    let aw = n.w as u32;
    debug_assert!(lo + w <= aw);
    if lo == 0 && w == aw {
        return a;
    }
    if let Some(k) = as_const(a) {
        return konst(w, k >> lo);
    }
    match n.op {
        Op::ZExt => {
            let iw = width(E(n.a));
            if lo >= iw {
                return konst(w, 0);
            }
            if lo + w <= iw {
                return extract(E(n.a), lo, w);
            }
            return zext(extract(E(n.a), lo, iw - lo), w);
        }
        Op::SExt => {
            let iw = width(E(n.a));
            if lo + w <= iw {
                return extract(E(n.a), lo, w);
            }
        }
        Op::Extract => return extract(E(n.a), lo + n.b, w),
        Op::Concat => {
            let lw = width(E(n.b));
            if lo + w <= lw {
                return extract(E(n.b), lo, w);
            }
            if lo >= lw {
                return extract(E(n.a), lo - lw, w);
            }
            return concat(extract(E(n.a), 0, lo + w - lw), extract(E(n.b), lo, lw - lo));
        }
        Op::Ite => {
            if as_const(E(n.b)).is_some() || as_const(E(n.c)).is_some() {
                return ite(E(n.a), extract(E(n.b), lo, w), extract(E(n.c), lo, w));
            }
        }
        Op::And | Op::Or | Op::Xor => {
            return bin(n.op, extract(E(n.a), lo, w), extract(E(n.b), lo, w));
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            return bin(n.op, extract(E(n.a), 0, w), extract(E(n.b), 0, w));
        }
        Op::Shl => {
            if let Some(s) = as_const(E(n.b)) {
                let s = s as u32;
                if lo >= s {
                    return extract(E(n.a), lo - s, w);
                }
                if lo + w <= s {
                    return konst(w, 0);
                }
            }
        }
        Op::LShr => {
            if let Some(s) = as_const(E(n.b)) {
                let s = s as u32;
                if lo + s + w <= aw {
                    return extract(E(n.a), lo + s, w);
                }
                if lo + s >= aw {
                    return konst(w, 0);
                }
            }
        }
        _ => {}
    }
    ar().mk(Node { op: Op::Extract, w: w as u16, a: a.0, b: lo, c: 0, k: 0 })
}
pub fn concat(hi: E, lo: E) -> E {
    let (h, l) = (nd(hi), nd(lo));
    let w = h.w as u32 + l.w as u32;
    if let (Some(a), Some(b)) = (as_const(hi), as_const(lo)) {
        return konst(w, (a << l.w) | b);
    }
    if as_const(hi) == Some(0) {
        return zext(lo, w);
    }
    if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.b == l.b + l.w as u32 {
        return extract(E(h.a), l.b, w);
    }
    // (extract x) ++ low part x where lo = extract at 0 collapsed to full narrow value handled above
    if h.op == Op::Concat {
        // right-assoc: (a ++ b) ++ c => a ++ (b ++ c) if b,c merge
        let bn = nd(E(h.b));
        let merge = bn.op == Op::Extract
            && l.op == Op::Extract
            && bn.a == l.a
            && bn.b == l.b + l.w as u32
            || bn.op == Op::Const && l.op == Op::Const;
        if merge {
            return concat(E(h.a), concat(E(h.b), lo));
        }
    }
    if h.op == Op::ZExt && l.op != Op::Const {
        // zext(x) ++ lo => zext(x ++ lo)
        return zext(concat(E(h.a), lo), w);
    }
    ar().mk(Node { op: Op::Concat, w: w as u16, a: hi.0, b: lo.0, c: 0, k: 0 })
}

fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let (an, bn) = (nd(a), nd(b));
    let w = an.w as u32;
    debug_assert_eq!(an.w, bn.w, "{:?} {:?} {:?}", op, an.op, bn.op);
    let rw = if is_cmp(op) { 1 } else { w };
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return konst(rw, fold(op, w, x, y));
    }
    // commutative: constant to the right
    let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
    if comm && (ca.is_some() || (cb.is_none() && a.0 > b.0)) {
        return bin_s(op, w, rw, b, a);
    }
    bin_s(op, w, rw, a, b)
}

fn bin_s(op: Op, w: u32, rw: u32, a: E, b: E) -> E {
    let an = nd(a);
    let bn = nd(b);
    let cb = as_const(b);
    let ca = as_const(a);
    let m = mask(w);
    if matches!(op, Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
        if cb.is_some() && an.op == Op::Ite {
            let t = bin(op, E(an.b), b);
            let f = bin(op, E(an.c), b);
            if as_const(t).is_some() || as_const(f).is_some() {
                return ite(E(an.a), t, f);
            }
        }
        if ca.is_some() && bn.op == Op::Ite {
            let t = bin(op, a, E(bn.b));
            let f = bin(op, a, E(bn.c));
            if as_const(t).is_some() || as_const(f).is_some() {
                return ite(E(bn.a), t, f);
            }
        }
    }
    match op {
        Op::Add => {
            if cb == Some(0) {
                return a;
            }
            if let Some(k) = cb {
                if an.op == Op::Add {
                    if let Some(k2) = as_const(E(an.b)) {
                        return bin(Op::Add, E(an.a), konst(w, k.wrapping_add(k2)));
                    }
                }
                if an.op == Op::Ite && as_const(E(an.b)).is_some() && as_const(E(an.c)).is_some() {
                    return ite(E(an.a), bin(op, E(an.b), b), bin(op, E(an.c), b));
                }
            }
            // (a + k) + b => (a+b) + k
            if an.op == Op::Add && cb.is_none() {
                if let Some(_) = as_const(E(an.b)) {
                    return bin(Op::Add, bin(Op::Add, E(an.a), b), E(an.b));
                }
            }
            if bn.op == Op::Add {
                if let Some(_) = as_const(E(bn.b)) {
                    return bin(Op::Add, bin(Op::Add, a, E(bn.a)), E(bn.b));
                }
            }
        }
        Op::Sub => {
            if a == b {
                return konst(w, 0);
            }
            if let Some(k) = cb {
                return bin(Op::Add, a, konst(w, k.wrapping_neg()));
            }
            if an.op == Op::Add && E(an.a) == b {
                return E(an.b);
            }
            if an.op == Op::Add && E(an.b) == b {
                return E(an.a);
            }
            if an.op == Op::Add && bn.op == Op::Add && an.a == bn.a {
                return bin(Op::Sub, E(an.b), E(bn.b));
            }
        }
        Op::Mul => {
            if let Some(k) = cb {
                if k == 0 {
                    return b;
                }
                if k == 1 {
                    return a;
                }
                if an.op == Op::Mul {
                    if let Some(k2) = as_const(E(an.b)) {
                        return bin(Op::Mul, E(an.a), konst(w, k.wrapping_mul(k2)));
                    }
                }
                if an.op == Op::Shl {
                    if let Some(k2) = as_const(E(an.b)) {
                        if k2 < w as u128 {
                            return bin(Op::Mul, E(an.a), konst(w, k.wrapping_mul(1u128 << k2)));
                        }
                    }
                }
                if an.op == Op::Add {
                    if let Some(k2) = as_const(E(an.b)) {
                        let x = bin(Op::Mul, E(an.a), b);
                        return bin(Op::Add, x, konst(w, k.wrapping_mul(k2)));
                    }
                }
                if k.is_power_of_two() {
                    return bin(Op::Shl, a, konst(w, k.trailing_zeros() as u128));
                }
            }
        }
        Op::UDiv => {
            if cb == Some(1) {
                return a;
            }
            if let Some(k) = cb {
                if k.is_power_of_two() {
                    return bin(Op::LShr, a, konst(w, k.trailing_zeros() as u128));
                }
            }
        }
        Op::URem => {
            if let Some(k) = cb {
                if k.is_power_of_two() {
                    return bin(Op::And, a, konst(w, k - 1));
                }
            }
        }
        Op::And => {
            if a == b {
                return a;
            }
            if let Some(k) = cb {
                if k == 0 {
                    return b;
                }
                if k == m {
                    return a;
                }
                if an.op == Op::And {
                    if let Some(k2) = as_const(E(an.b)) {
                        return bin(Op::And, E(an.a), konst(w, k & k2));
                    }
                }
                if an.op == Op::ZExt {
                    let iw = width(E(an.a));
                    let im = mask(iw);
                    return zext(bin(Op::And, E(an.a), konst(iw, k & im)), w);
                }
                // low mask
                if (k + 1).is_power_of_two() {
                    let n = (k + 1).trailing_zeros();
                    return zext(extract(a, 0, n), w);
                }
                if an.op == Op::Ite && (as_const(E(an.b)).is_some() || as_const(E(an.c)).is_some()) {
                    return ite(E(an.a), bin(op, E(an.b), b), bin(op, E(an.c), b));
                }
                if an.op == Op::Concat {
                    let lw = width(E(an.b));
                    return concat(
                        bin(Op::And, E(an.a), konst(w - lw, k >> lw)),
                        bin(Op::And, E(an.b), konst(lw, k & mask(lw))),
                    );
                }
            }
            if w == 1 && (is_not_of(a, b) || is_not_of(b, a)) {
                return konst(1, 0);
            }
        }
        Op::Or => {
            if a == b {
                return a;
            }
            if let Some(k) = cb {
                if k == 0 {
                    return a;
                }
                if k == m {
                    return b;
                }
                if an.op == Op::Ite && (as_const(E(an.b)).is_some() || as_const(E(an.c)).is_some()) {
                    return ite(E(an.a), bin(op, E(an.b), b), bin(op, E(an.c), b));
                }
            }
            if w == 1 && (is_not_of(a, b) || is_not_of(b, a)) {
                return konst(1, 1);
            }
            // or of disjoint shifted pieces -> concat
            if let Some(e) = or_concat(w, a, b).or_else(|| or_concat(w, b, a)) {
                return e;
            }
        }
        Op::Xor => {
            if a == b {
                return konst(w, 0);
            }
            if let Some(k) = cb {
                if k == 0 {
                    return a;
                }
                if an.op == Op::Xor {
                    if let Some(k2) = as_const(E(an.b)) {
                        return bin(Op::Xor, E(an.a), konst(w, k ^ k2));
                    }
                }
                if an.op == Op::Ite && as_const(E(an.b)).is_some() && as_const(E(an.c)).is_some() {
                    return ite(E(an.a), bin(op, E(an.b), b), bin(op, E(an.c), b));
                }
                if w == 1 && k == 1 {
                    // !(a<b) => b<=a
                    match an.op {
                        Op::Ult => return bin(Op::Ule, E(an.b), E(an.a)),
                        Op::Ule => return bin(Op::Ult, E(an.b), E(an.a)),
                        Op::Slt => return bin(Op::Sle, E(an.b), E(an.a)),
                        Op::Sle => return bin(Op::Slt, E(an.b), E(an.a)),
                        _ => {}
                    }
                }
            }
        }
        Op::Shl => {
            if cb == Some(0) {
                return a;
            }
            if let Some(k) = cb {
                if k >= w as u128 {
                    return konst(w, 0);
                }
                let k = k as u32;
                return concat(extract(a, 0, w - k), konst(k, 0));
            }
        }
        Op::LShr => {
            if cb == Some(0) {
                return a;
            }
            if let Some(k) = cb {
                if k >= w as u128 {
                    return konst(w, 0);
                }
                let k = k as u32;
                return zext(extract(a, k, w - k), w);
            }
        }
        Op::AShr => {
            if cb == Some(0) {
                return a;
            }
            if let Some(k) = cb {
                if k < w as u128 {
                    let k = k as u32;
                    return sext(extract(a, k, w - k), w);
                }
            }
        }
        Op::Eq => {
            if a == b {
                return tru();
            }
            if w == 1 {
                if let Some(k) = cb {
                    return if k == 1 { a } else { not1(a) };
                }
            }
            if let Some(k) = cb {
                match an.op {
                    Op::ZExt => {
                        let iw = width(E(an.a));
                        if k >> iw != 0 {
                            return fls();
                        }
                        return bin(Op::Eq, E(an.a), konst(iw, k));
                    }
                    Op::SExt => {
                        let iw = width(E(an.a));
                        if sext128(k & mask(iw), iw) as u128 & m != k {
                            return fls();
                        }
                        return bin(Op::Eq, E(an.a), konst(iw, k));
                    }
                    Op::Concat => {
                        let lw = width(E(an.b));
                        let hi = bin(Op::Eq, E(an.a), konst(w - lw, k >> lw));
                        if hi == fls() {
                            return hi;
                        }
                        return bin(Op::And, hi, bin(Op::Eq, E(an.b), konst(lw, k)));
                    }
                    Op::Add => {
                        if let Some(k2) = as_const(E(an.b)) {
                            return bin(Op::Eq, E(an.a), konst(w, k.wrapping_sub(k2)));
                        }
                    }
                    Op::Xor => {
                        if let Some(k2) = as_const(E(an.b)) {
                            return bin(Op::Eq, E(an.a), konst(w, k ^ k2));
                        }
                    }
                    Op::Ite => {
                        let te = bin(Op::Eq, E(an.b), b);
                        let fe = bin(Op::Eq, E(an.c), b);
                        if as_const(te).is_some() || as_const(fe).is_some() {
                            return ite(E(an.a), te, fe);
                        }
                    }
                    Op::And => {
                        if let Some(k2) = as_const(E(an.b)) {
                            if k & !k2 != 0 {
                                return fls();
                            }
                        }
                    }
                    _ => {}
                }
            } else if an.op == Op::ZExt && bn.op == Op::ZExt && width(E(an.a)) == width(E(bn.a)) {
                return bin(Op::Eq, E(an.a), E(bn.a));
            } else if an.op == Op::Concat && bn.op == Op::Concat && width(E(an.a)) == width(E(bn.a)) {
                return bin(
                    Op::And,
                    bin(Op::Eq, E(an.a), E(bn.a)),
                    bin(Op::Eq, E(an.b), E(bn.b)),
                );
            } else if an.op == Op::Add && bn.op == Op::Add && an.b == bn.b {
                return bin(Op::Eq, E(an.a), E(bn.a));
            }
        }
        Op::Ult | Op::Ule => {
            if a == b {
                return konst(1, (op == Op::Ule) as u128);
            }
            if let Some(k) = cb {
                if op == Op::Ult && k == 0 {
                    return fls();
                }
                if op == Op::Ule && k == m {
                    return tru();
                }
                if op == Op::Ule {
                    return bin(Op::Ult, a, konst(w, k + 1));
                }
                if k == 1 {
                    return bin(Op::Eq, a, konst(w, 0));
                }
                if an.op == Op::ZExt {
                    let iw = width(E(an.a));
                    if k > mask(iw) {
                        return tru();
                    }
                    return bin(Op::Ult, E(an.a), konst(iw, k));
                }
                if an.op == Op::Ite && (as_const(E(an.b)).is_some() || as_const(E(an.c)).is_some()) {
                    return ite(E(an.a), bin(op, E(an.b), b), bin(op, E(an.c), b));
                }
            }
            if let Some(k) = ca {
                if op == Op::Ult && k == m {
                    return fls();
                }
                if op == Op::Ule && k == 0 {
                    return tru();
                }
                if bn.op == Op::ZExt {
                    let iw = width(E(bn.a));
                    if k > mask(iw) {
                        return fls();
                    }
                    return bin(op, konst(iw, k), E(bn.a));
                }
                if op == Op::Ult && k == 0 {
                    return not1(bin(Op::Eq, b, konst(w, 0)));
                }
                if bn.op == Op::Ite && (as_const(E(bn.b)).is_some() || as_const(E(bn.c)).is_some()) {
                    return ite(E(bn.a), bin(op, a, E(bn.b)), bin(op, a, E(bn.c)));
                }
            }
            if an.op == Op::ZExt && bn.op == Op::ZExt && width(E(an.a)) == width(E(bn.a)) {
                return bin(op, E(an.a), E(bn.a));
            }
        }
        Op::Slt | Op::Sle => {
            if a == b {
                return konst(1, (op == Op::Sle) as u128);
            }
            // both non-negative by zext
            let nn = |n: &Node, c: Option<u128>| {
                n.op == Op::ZExt && (width(E(n.a)) < w) || matches!(c, Some(k) if k >> (w - 1) == 0)
            };
            if nn(&an, ca) && nn(&bn, cb) {
                return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
            }
            if cb.is_some() && an.op == Op::Ite
                && (as_const(E(an.b)).is_some() || as_const(E(an.c)).is_some())
            {
                return ite(E(an.a), bin(op, E(an.b), b), bin(op, E(an.c), b));
            }
            if ca.is_some() && bn.op == Op::Ite
                && (as_const(E(bn.b)).is_some() || as_const(E(bn.c)).is_some())
            {
                return ite(E(bn.a), bin(op, a, E(bn.b)), bin(op, a, E(bn.c)));
            }
            if cb == Some(0) && an.op == Op::ZExt {
                return if op == Op::Slt { fls() } else { bin(Op::Eq, a, b) };
            }
        }
        _ => {}
    }
    bin_raw(op, rw, a, b)
}

fn or_concat(w: u32, hi: E, lo: E) -> Option<E> {
    // hi = concat(x, 0_k), lo = zext(y) with width(y) <= k
    let (h, l) = (nd(hi), nd(lo));
    let (hx, k, top) = if h.op == Op::Concat && as_const(E(h.b)) == Some(0) {
        (E(h.a), width(E(h.b)), 0)
    } else if h.op == Op::ZExt {
        let i = nd(E(h.a));
        if i.op == Op::Concat && as_const(E(i.b)) == Some(0) {
            (E(i.a), width(E(i.b)), w - i.w as u32)
        } else {
            return None;
        }
    } else {
        return None;
    };
    if l.op == Op::ZExt && width(E(l.a)) <= k {
        let low = zext(E(l.a), k);
        let r = concat(hx, low);
        return Some(if top > 0 { zext(r, w) } else { r });
    }
    None
}

pub type Model = Vec<u8>;

pub struct Ev {
    memo: FxMap<u32, u128>,
}
impl Ev {
    pub fn new() -> Ev {
        Ev { memo: Default::default() }
    }
    pub fn eval(&mut self, e: E, m: &dyn Fn(u32) -> u8) -> u128 {
        let n = nd(e);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return m(n.k as u32) as u128,
            _ => {}
        }
        if let Some(&v) = self.memo.get(&e.0) {
            return v;
        }
        let v = match n.op {
            Op::Ite => {
                if self.eval(E(n.a), m) != 0 {
                    self.eval(E(n.b), m)
                } else {
                    self.eval(E(n.c), m)
                }
            }
            Op::ZExt => self.eval(E(n.a), m),
            Op::SExt => {
                let iw = width(E(n.a));
                sext128(self.eval(E(n.a), m), iw) as u128 & mask(n.w as u32)
            }
            Op::Extract => (self.eval(E(n.a), m) >> n.b) & mask(n.w as u32),
            Op::Concat => {
                let lw = width(E(n.b));
                (self.eval(E(n.a), m) << lw) | self.eval(E(n.b), m)
            }
            op => {
                let x = self.eval(E(n.a), m);
                let y = self.eval(E(n.b), m);
                fold(op, width(E(n.a)), x, y)
            }
        };
        self.memo.insert(e.0, v);
        v
    }
}
pub fn eval_model(e: E, m: &[u8]) -> u128 {
    Ev::new().eval(e, &|i| m.get(i as usize).copied().unwrap_or(0))
}

/// for a 1-bit expression over exactly one byte variable: the set of values making it true
pub fn domain(e: E) -> [u64; 4] {
    if let Some(d) = ar().doms.get(&e) {
        return *d;
    }
    let mut d = [0u64; 4];
    let t = ar().table(e.0);
    for v in 0..256usize {
        if t[v] & 1 == 1 {
            d[v >> 6] |= 1 << (v & 63);
        }
    }
    ar().doms.insert(e, d);
    d
}

pub fn show(e: E) -> String {
    fn go(e: E, d: u32) -> String {
        let n = nd(e);
        if d > 8 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            Op::Ite => format!("ite({},{},{})", go(E(n.a), d + 1), go(E(n.b), d + 1), go(E(n.c), d + 1)),
            Op::ZExt => format!("zx{}({})", n.w, go(E(n.a), d + 1)),
            Op::SExt => format!("sx{}({})", n.w, go(E(n.a), d + 1)),
            Op::Extract => format!("{}[{}+{}]", go(E(n.a), d + 1), n.b, n.w),
            _ => format!("{:?}({},{})", n.op, go(E(n.a), d + 1), go(E(n.b), d + 1)),
        }
    }
    go(e, 0)
}

/// Split a 1-bit expression into conjuncts.
pub fn conjuncts(c: E, out: &mut Vec<E>) {
    if support(c).len() <= 1 {
        out.push(c);
        return;
    }
    let n = nd(c);
    if n.op == Op::And && n.w == 1 {
        conjuncts(E(n.a), out);
        conjuncts(E(n.b), out);
        return;
    }
    if n.op == Op::Xor && n.w == 1 && as_const(E(n.b)) == Some(1) {
        let m = nd(E(n.a));
        if m.op == Op::Or {
            conjuncts(not1(E(m.a)), out);
            conjuncts(not1(E(m.b)), out);
            return;
        }
    }
    out.push(c);
}

/// For a 1-bit expression over two byte variables: which pairs of values below
/// the bounds make it true, one row for each value of the first variable.
pub struct Rel {
    pub na: usize,
    pub nb: usize,
    pub rows: Vec<[u64; 4]>,
}
enum Src {
    /// depends on the first variable only, on the second only, on both
    A(Rc<Table>),
    B(usize),
    Both(usize),
    K(u64),
}
struct Step {
    op: Op,
    w: u32,
    aw: u32,
    a: usize,
    b: usize,
    c: usize,
    lo: u32,
}
pub fn relation(e: E, na: usize, nb: usize) -> Option<Rel> {
    let va = support(e)[0];
    let mut src: Vec<Src> = vec![];
    let mut at: FxMap<u32, usize> = Default::default();
    let mut steps: Vec<Step> = vec![];
    let mut cols: Vec<Vec<u64>> = vec![];
    fn visit(
        e: E,
        va: u32,
        nb: usize,
        src: &mut Vec<Src>,
        at: &mut FxMap<u32, usize>,
        steps: &mut Vec<Step>,
        cols: &mut Vec<Vec<u64>>,
    ) -> Option<usize> {
        if let Some(i) = at.get(&e.0) {
            return Some(*i);
        }
        let n = nd(e);
        if n.w > 64 {
            return None;
        }
        let s = support(e);
        let x = match s.len() {
            0 => Src::K(as_const(e)? as u64),
            1 => {
                let t = ar().table(e.0);
                if s[0] == va {
                    Src::A(t)
                } else {
                    cols.push((0..nb).map(|i| t[i] as u64).collect());
                    Src::B(cols.len() - 1)
                }
            }
            _ => {
                let mut go = |x: u32| visit(E(x), va, nb, src, at, steps, cols);
                let a = go(n.a)?;
                let (mut b, mut c) = (a, a);
                if !matches!(n.op, Op::ZExt | Op::SExt | Op::Extract) {
                    b = go(n.b)?;
                    if n.op == Op::Ite {
                        c = go(n.c)?;
                    }
                }
                let aw = match n.op {
                    Op::Concat => width(E(n.b)),
                    _ => width(E(n.a)),
                };
                steps.push(Step { op: n.op, w: n.w as u32, aw, a, b, c, lo: n.b });
                Src::Both(steps.len() - 1)
            }
        };
        src.push(x);
        at.insert(e.0, src.len() - 1);
        Some(src.len() - 1)
    }
    let root = visit(e, va, nb, &mut src, &mut at, &mut steps, &mut cols)?;
    let mut out: Vec<Vec<u64>> = steps.iter().map(|_| vec![0; nb]).collect();
    let mut konst: Vec<Vec<u64>> = src.iter().map(|_| vec![]).collect();
    let mut rows = vec![[0u64; 4]; na];
    for x in 0..na {
        for (i, s) in src.iter().enumerate() {
            match s {
                Src::A(t) => konst[i] = vec![t[x] as u64; nb],
                Src::K(k) if x == 0 => konst[i] = vec![*k; nb],
                _ => {}
            }
        }
        for i in 0..steps.len() {
            let mut r = std::mem::take(&mut out[i]);
            let st = &steps[i];
            let get = |j: usize| -> &[u64] {
                match &src[j] {
                    Src::B(c) => &cols[*c],
                    Src::Both(s) => &out[*s],
                    _ => &konst[j],
                }
            };
            let (a, b) = (get(st.a), get(st.b));
            let m = mask(st.w) as u64;
            macro_rules! each {
                ($f:expr) => {
                    for y in 0..nb {
                        r[y] = $f(a[y], b[y]);
                    }
                };
            }
            match st.op {
                Op::Add => each!(|p: u64, q: u64| p.wrapping_add(q) & m),
                Op::Sub => each!(|p: u64, q: u64| p.wrapping_sub(q) & m),
                Op::Mul => each!(|p: u64, q: u64| p.wrapping_mul(q) & m),
                Op::And => each!(|p: u64, q: u64| p & q),
                Op::Or => each!(|p: u64, q: u64| p | q),
                Op::Xor => each!(|p: u64, q: u64| p ^ q),
                Op::Eq => each!(|p: u64, q: u64| (p == q) as u64),
                Op::Ult => each!(|p: u64, q: u64| (p < q) as u64),
                Op::Ule => each!(|p: u64, q: u64| (p <= q) as u64),
                Op::ZExt => each!(|p: u64, _| p),
                Op::Extract => {
                    let lo = st.lo;
                    each!(|p: u64, _| p >> lo & m)
                }
                Op::Concat => {
                    let lw = st.aw;
                    each!(|p: u64, q: u64| p << lw | q)
                }
                Op::SExt => {
                    let aw = st.aw;
                    each!(|p: u64, _| sext128(p as u128, aw) as u64 & m)
                }
                Op::Ite => {
                    let c = get(st.c);
                    for y in 0..nb {
                        r[y] = if a[y] != 0 { b[y] } else { c[y] };
                    }
                }
                op => {
                    let aw = st.aw;
                    each!(|p: u64, q: u64| fold(op, aw, p as u128, q as u128) as u64)
                }
            }
            out[i] = r;
        }
        let r = match &src[root] {
            Src::Both(s) => &out[*s],
            _ => unreachable!(),
        };
        for y in 0..nb {
            if r[y] & 1 == 1 {
                rows[x][y >> 6] |= 1 << (y & 63);
            }
        }
    }
    Some(Rel { na, nb, rows })
}
