//! Z3 back end: constraint slicing, query cache, byte-domain fast path.
use crate::expr::*;
use std::os::raw::{c_char, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, i32));
    fn Z3_get_error_msg(c: P, e: i32) -> *const c_char;
}
extern "C" fn on_err(c: P, e: i32) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("rsym: z3 error {}", m.to_string_lossy());
    unsafe { libc_exit(70) }
}
extern "C" {
    fn Z3_ast_to_string(c: P, a: P) -> *const u8;
    #[link_name = "_exit"]
    fn libc_exit(c: i32) -> !;
}

pub struct Solver {
    ctx: P,
    slv: P,
    one: P,
    asts: FxMap<E, P>,
    n_since: u32,
    cache: FxMap<Vec<E>, Option<Vec<(u32, u8)>>>,
    pub queries: u64,
    pub cached: u64,
    pub domq: u64,
    pub solver_ns: u64,
    pub max_ns: u64,
    pub force_z3: bool,
    rels: FxMap<E, Rc<Rel>>,
    pub audits: u64,
    audit_ns: u64,
    audited: FxMap<u64, ()>,
    t0: Instant,
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, c"model".as_ptr(), c"true".as_ptr());
            Z3_set_param_value(cfg, c"timeout".as_ptr(), c"30000".as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, on_err);
            let slv = match std::env::var("RSYM_SOLVER").as_deref() {
                Ok("simple") => Z3_mk_simple_solver(ctx),
                Ok("full") => Z3_mk_solver(ctx),
                _ => Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, c"QF_BV".as_ptr())),
            };
            Z3_solver_inc_ref(ctx, slv);
            let one = Z3_mk_numeral(ctx, c"1".as_ptr(), Z3_mk_bv_sort(ctx, 1));
            Solver {
                ctx,
                slv,
                one,
                asts: Default::default(),
                n_since: 0,
                cache: Default::default(),
                queries: 0,
                cached: 0,
                domq: 0,
                solver_ns: 0,
                max_ns: 0,
                force_z3: false,
                rels: Default::default(),
                audits: 0,
                audit_ns: 0,
                audited: Default::default(),
                t0: Instant::now(),
            }
        }
    }
    fn ast(&mut self, e: E) -> P {
        if let Some(&p) = self.asts.get(&e) {
            return p;
        }
        let n = nd(e);
        let c = self.ctx;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    let s = format!("{}\0", n.k);
                    Z3_mk_numeral(c, s.as_ptr() as _, Z3_mk_bv_sort(c, n.w as _))
                }
                Op::Var => {
                    let s = format!("v{}\0", n.k);
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr() as _), Z3_mk_bv_sort(c, 8))
                }
                Op::Ite => {
                    let cc = self.ast(E(n.a));
                    let t = self.ast(E(n.b));
                    let f = self.ast(E(n.c));
                    Z3_mk_ite(c, Z3_mk_eq(c, cc, self.one), t, f)
                }
                Op::ZExt => {
                    let a = self.ast(E(n.a));
                    Z3_mk_zero_ext(c, n.w as u32 - width(E(n.a)), a)
                }
                Op::SExt => {
                    let a = self.ast(E(n.a));
                    Z3_mk_sign_ext(c, n.w as u32 - width(E(n.a)), a)
                }
                Op::Extract => {
                    let a = self.ast(E(n.a));
                    Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a)
                }
                op => {
                    let a = self.ast(E(n.a));
                    let b = self.ast(E(n.b));
                    let zero = |s: &Solver, p: P| {
                        let z = Z3_mk_numeral(c, c"0".as_ptr(), Z3_mk_bv_sort(c, 1));
                        Z3_mk_ite(c, p, s.one, z)
                    };
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        Op::Eq => zero(self, Z3_mk_eq(c, a, b)),
                        Op::Ult => zero(self, Z3_mk_bvult(c, a, b)),
                        Op::Ule => zero(self, Z3_mk_bvule(c, a, b)),
                        Op::Slt => zero(self, Z3_mk_bvslt(c, a, b)),
                        Op::Sle => zero(self, Z3_mk_bvsle(c, a, b)),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.asts.insert(e, p);
        p
    }

    /// constraints (transitively) sharing variables with `seed`
    pub fn slice(cons: &[E], seed: E) -> Vec<E> {
        let mut sup: Vec<u32> = support(seed).to_vec();
        let mut used = vec![false; cons.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &k) in cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = support(k);
                if s.iter().any(|v| sup.binary_search(v).is_ok()) {
                    used[i] = true;
                    out.push(k);
                    for v in s {
                        if let Err(p) = sup.binary_search(v) {
                            sup.insert(p, *v);
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }

    /// Is `cons && cond` satisfiable? Returns assignments for the slice's variables.
    pub fn sat(&mut self, cons: &[E], cond: E, force_z3: bool) -> Option<Vec<(u32, u8)>> {
        if let Some(k) = as_const(cond) {
            return if k != 0 { Some(vec![]) } else { None };
        }
        let mut sl = Solver::slice(cons, cond);
        if !force_z3 && !self.force_z3 {
            // conjunctions of single byte facts: intersect the byte domains
            let mut cj = vec![];
            conjuncts(cond, &mut cj);
            cj.extend_from_slice(&sl);
            let mut doms: Vec<(u32, [u64; 4])> = vec![];
            let mut pairs: Vec<E> = vec![];
            let mut dead = false;
            let mut wide = false;
            for c in cj.iter() {
                let s = support(*c);
                match s.len() {
                    1 => {
                        let x = domain(*c);
                        match doms.iter_mut().find(|d| d.0 == s[0]) {
                            Some(d) => {
                                for i in 0..4 {
                                    d.1[i] &= x[i];
                                }
                                dead |= d.1 == [0; 4];
                            }
                            None => {
                                dead |= x == [0; 4];
                                doms.push((s[0], x))
                            }
                        }
                    }
                    2 => pairs.push(*c),
                    _ => wide = true,
                }
            }
            if dead {
                self.domq += 1;
                self.audit(&sl, cond, false);
                return None;
            }
            if !wide {
                // constraints over two bytes: their relation, row by row
                for c in pairs.iter() {
                    for v in support(*c) {
                        if !doms.iter().any(|d| d.0 == *v) {
                            doms.push((*v, [!0; 4]));
                        }
                    }
                }
                if pairs.is_empty() || doms.len() <= 3 {
                    if let Some(r) = self.finite(&doms, &pairs) {
                        self.domq += 1;
                        self.audit(&sl, cond, r.is_some());
                        return r;
                    }
                }
            }
        }
        sl.push(cond);
        sl.sort_unstable();
        sl.dedup();
        if !force_z3 {
            if let Some(r) = self.cache.get(&sl) {
                self.cached += 1;
                return r.clone();
            }
        }
        let r = self.check(&sl);
        self.cache.insert(sl, r.clone());
        r
    }

    /// Put a query which was decided by finite domains to z3 as well, as often
    /// as a twentieth of the time allows; they have to agree.
    fn audit(&mut self, sl: &[E], cond: E, is_sat: bool) {
        let now = self.t0.elapsed().as_nanos() as u64;
        if self.audit_ns * 20 > now {
            return;
        }
        let mut q = sl.to_vec();
        q.push(cond);
        q.sort_unstable();
        q.dedup();
        let mut h = Fx::default();
        for e in &q {
            std::hash::Hasher::write_u32(&mut h, e.0);
        }
        if self.audited.insert(std::hash::Hasher::finish(&h), ()).is_some() {
            return;
        }
        let t = Instant::now();
        let r = self.check(&q);
        if r.is_some() != is_sat {
            eprintln!("rsym: finite domains and z3 disagree on {}", show(cond));
            unsafe { libc_exit(73) }
        }
        self.audit_ns += t.elapsed().as_nanos() as u64;
        self.audits += 1;
    }

    /// Decide constraints over at most three bytes, none over more than two at
    /// once, by their relations. None if an expression is too wide for that.
    fn finite(&mut self, doms: &[(u32, [u64; 4])], pairs: &[E]) -> Option<Option<Vec<(u32, u8)>>> {
        let first = |d: &[u64; 4]| (0..4).find(|i| d[*i] != 0).map(|i| (i * 64) as u8 + d[i].trailing_zeros() as u8);
        let and = |a: [u64; 4], b: [u64; 4]| [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]];
        if pairs.is_empty() {
            let mut out = vec![];
            for (v, d) in doms {
                match first(d) {
                    Some(x) => out.push((*v, x)),
                    None => return Some(None),
                }
            }
            return Some(Some(out));
        }
        let mut doms = doms.to_vec();
        doms.sort_by_key(|d| d.0);
        let mut rels: Vec<(usize, usize, Rc<Rel>)> = vec![];
        for p in pairs {
            let s = support(*p);
            let i = doms.iter().position(|d| d.0 == s[0]).unwrap();
            let j = doms.iter().position(|d| d.0 == s[1]).unwrap();
            rels.push((i, j, self.rel(*p, &doms[i].1, &doms[j].1)?));
        }
        let n = doms.len();
        let row = |i: usize, j: usize, x: usize, d: [u64; 4]| {
            let mut d = d;
            for (a, b, r) in rels.iter() {
                if *a == i && *b == j {
                    d = and(d, r.rows[x]);
                }
            }
            d
        };
        let has = |d: &[u64; 4], x: usize| d[x >> 6] >> (x & 63) & 1 == 1;
        for x in 0..256 {
            if !has(&doms[0].1, x) {
                continue;
            }
            let d1 = row(0, 1, x, doms[1].1);
            if n == 2 {
                if let Some(y) = first(&d1) {
                    return Some(Some(vec![(doms[0].0, x as u8), (doms[1].0, y)]));
                }
                continue;
            }
            let d2 = row(0, 2, x, doms[2].1);
            if d2 == [0; 4] {
                continue;
            }
            for y in 0..256 {
                if !has(&d1, y) {
                    continue;
                }
                let d = row(1, 2, y, d2);
                if let Some(z) = first(&d) {
                    return Some(Some(vec![(doms[0].0, x as u8), (doms[1].0, y as u8), (doms[2].0, z)]));
                }
            }
        }
        Some(None)
    }

    /// The pairs of values of its two variables, within these domains, which make `e` true.
    fn rel(&mut self, e: E, da: &[u64; 4], db: &[u64; 4]) -> Option<Rc<Rel>> {
        let top = |d: &[u64; 4]| (0..4).rev().find(|i| d[*i] != 0).map_or(0, |i| i * 64 + 64 - d[i].leading_zeros() as usize);
        let (na, nb) = (top(da), top(db));
        if let Some(r) = self.rels.get(&e) {
            if r.na >= na && r.nb >= nb {
                return Some(r.clone());
            }
        }
        let r = Rc::new(relation(e, na, nb)?);
        if self.rels.len() > 4000 {
            self.rels.clear();
        }
        self.rels.insert(e, r.clone());
        Some(r)
    }

    pub fn check(&mut self, sl: &[E]) -> Option<Vec<(u32, u8)>> {
        let t0 = Instant::now();
        self.queries += 1;
        let mut vars: Vec<u32> = vec![];
        for c in sl {
            vars.extend_from_slice(support(*c));
        }
        vars.sort_unstable();
        vars.dedup();
        let r = unsafe {
            self.n_since += 1;
            if self.n_since > 2000 {
                Z3_solver_reset(self.ctx, self.slv);
                self.n_since = 0;
            }
            Z3_solver_push(self.ctx, self.slv);
            for &c in sl {
                let a = self.ast(c);
                Z3_solver_assert(self.ctx, self.slv, Z3_mk_eq(self.ctx, a, self.one));
            }
            let r = match Z3_solver_check(self.ctx, self.slv) {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.slv);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for v in vars {
                        let a = self.ast(var_byte(v));
                        let mut o: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(self.ctx, m, a, true, &mut o)
                            && Z3_get_numeral_uint64(self.ctx, o, &mut u)
                        {
                            out.push((v, u as u8));
                        } else {
                            eprintln!("rsym: model eval failed");
                            libc_exit(71);
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Some(out)
                }
                -1 => None,
                _ => {
                    eprintln!("rsym: solver answered unknown");
                    libc_exit(72);
                }
            };
            Z3_solver_pop(self.ctx, self.slv, 1);
            r
        };
        let ns = t0.elapsed().as_nanos() as u64;
        self.solver_ns += ns;
        if ns > 30_000_000 && std::env::var("RSYM_SLOWQ").is_ok() {
            eprintln!("slow query {} ms:", ns / 1000000);
            for c in sl {
                let s = unsafe { std::ffi::CStr::from_ptr(Z3_ast_to_string(self.ctx, self.asts[c]) as *const _) };
                eprintln!("  {}", s.to_string_lossy());
            }
        }
        if ns > self.max_ns {
            self.max_ns = ns;
        }
        r
    }
}
