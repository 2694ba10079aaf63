//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::shared::*;
use crate::solver::Solver;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub sp0: u64,
}
#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Frame>,
    pub sp: u64,
    pub tls: u64,
}
#[derive(Clone)]
pub struct TraceItem {
    pub name: Rc<str>,
    pub var: u32,
    pub n: u32,
    pub choose: u32, // 0: data, otherwise alternatives
}
#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub cons: Vec<E>,
    pub model: Vec<u8>,
    pub nvars: u32,
    pub trace: Vec<TraceItem>,
    pub insts: u64,
    pub depth: u32,
    pub last_branch: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prim {
    Sym,
    FmtNum,
    SipWrite,
    Choose,
    Assume,
    Assert,
    Fail,
    Reach,
    End,
    ThreadNew,
    Switch,
    Cur,
    Log,
    Conc,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcmp,
    Memcpy,
    Memset,
    Strlen,
    Abort,
    Panic,
    Null,
    MallocUsable,
    Insts,
    IsSym,
}

pub enum End {
    Done,
    Killed,
    Stop,
}

pub struct Opts {
    pub max_insts: u64,
    pub deadline: Instant,
    pub workers: u64,
    pub verbose: bool,
    pub keep_going: bool,
    pub max_enum: usize,
}

pub struct Exec {
    pub m: Module,
    pub prims: Vec<Option<Prim>>,
    pub sol: Solver,
    pub o: Opts,
    pub work: Vec<State>,
    pub asserts_sym: u64,
    pub asserts_conc: u64,
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub insts: u64,
    pub last_handoff: Instant,
    pub hook_trace: bool,
    pub simos: Vec<u32>,
    pub done_paths: u64,
    pub fork_sites: FxMap<(u32, u32), u64>,
    pub prof: FxMap<u32, u64>,
    pub tls_init: Vec<u8>,
}

type R<T> = Result<T, String>;

fn flt(f: Fault) -> String {
    format!("memory access at unmapped address {:#x}", f.0)
}

pub fn to_e(v: &Val, w: u32) -> E {
    match v {
        Val::I(x) => konst(w, *x as u128),
        Val::W(a, b) => konst(w, *a as u128 | (*b as u128) << 64),
        Val::S(e) => *e,
        Val::A(v) => {
            let n = v.len() as u32;
            let lw = w / n;
            let mut r: Option<E> = None;
            for x in v.iter().rev() {
                let e = to_e(x, lw);
                r = Some(match r {
                    None => e,
                    Some(h) => concat(h, e),
                });
            }
            r.unwrap()
        }
    }
}
fn to_u128(v: &Val) -> Option<u128> {
    match v {
        Val::I(x) => Some(*x as u128),
        Val::W(a, b) => Some(*a as u128 | (*b as u128) << 64),
        _ => None,
    }
}
fn from_u128(w: u32, v: u128) -> Val {
    let v = v & mask(w);
    if w <= 64 {
        Val::I(v as u64)
    } else {
        Val::W(v as u64, (v >> 64) as u64)
    }
}
#[inline]
fn m64(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx(v: u64, w: u8) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}
fn bop(op: BinOp) -> Op {
    match op {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        _ => panic!("fp op"),
    }
}
fn icmp_e(p: Pred, a: E, b: E) -> E {
    match p {
        Pred::Eq => bin(Op::Eq, a, b),
        Pred::Ne => not1(bin(Op::Eq, a, b)),
        Pred::Ult => bin(Op::Ult, a, b),
        Pred::Ule => bin(Op::Ule, a, b),
        Pred::Ugt => bin(Op::Ult, b, a),
        Pred::Uge => bin(Op::Ule, b, a),
        Pred::Slt => bin(Op::Slt, a, b),
        Pred::Sle => bin(Op::Sle, a, b),
        Pred::Sgt => bin(Op::Slt, b, a),
        Pred::Sge => bin(Op::Sle, b, a),
    }
}
fn icmp_c(p: Pred, a: u128, b: u128, w: u32) -> bool {
    let (sa, sb) = (sext128(a, w), sext128(b, w));
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sa < sb,
        Pred::Sle => sa <= sb,
        Pred::Sgt => sa > sb,
        Pred::Sge => sa >= sb,
    }
}

enum Step {
    Next,
    Jumped,
    Redo,
    End(End),
}

impl Exec {
    pub fn init_state(&mut self, entry: u32) -> R<State> {
        let pages = ((self.m.global_end - GLOBAL_BASE) as usize + PS) / PS + 1;
        let mut mem = Mem::new(pages);
        // globals
        for i in 0..self.m.globals.len() {
            let g = &self.m.globals[i];
            if !g.has_init || g.tls {
                continue;
            }
            let (s, e, addr, ty) = (g.init.0, g.init.1, g.addr, g.ty);
            let text = self.m.text;
            let mut p = P { s: &text[..e], i: s, one_line: false };
            let o = self.m.parse_const(&mut p, ty);
            if let Opnd::C(v) = o {
                let v2 = v;
                self.store_val_mem(&mut mem, addr, ty, &v2).map_err(flt)?;
            } else {
                return Err("global init".into());
            }
        }
        // tls template
        let tsz = self.m.tls_size as usize + 64;
        let mut t = Mem::new(0);
        let base = t.malloc(tsz as u64, 64);
        for i in 0..self.m.globals.len() {
            let g = &self.m.globals[i];
            if !g.has_init || !g.tls {
                continue;
            }
            let (s, e, addr, ty) = (g.init.0, g.init.1, g.addr, g.ty);
            let text = self.m.text;
            let mut p = P { s: &text[..e], i: s, one_line: false };
            if let Opnd::C(v) = self.m.parse_const(&mut p, ty) {
                self.store_val_mem(&mut t, base + addr, ty, &v).map_err(flt)?;
            }
        }
        self.tls_init = t.read_lossy(base, tsz as u64);
        let mut st = State {
            mem,
            threads: vec![],
            cur: 0,
            cons: vec![],
            model: vec![],
            nvars: 0,
            trace: vec![],
            insts: 0,
            depth: 0,
            last_branch: 0,
        };
        self.new_thread(&mut st, entry, vec![])?;
        Ok(st)
    }
    fn new_thread(&mut self, st: &mut State, f: u32, args: Vec<Val>) -> R<usize> {
        let id = st.threads.len();
        st.mem.s.push(vec![]);
        let tls = st.mem.malloc(self.tls_init.len() as u64, 64);
        let init = std::mem::take(&mut self.tls_init);
        st.mem.write(tls, &init).map_err(flt)?;
        self.tls_init = init;
        let mut th = Thread {
            frames: vec![],
            sp: STACK_BASE + id as u64 * STACK_SZ + 64,
            tls,
        };
        let fun = self.m.func(f).ok_or("thread entry has no body")?;
        let mut regs = vec![Val::I(0); fun.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            regs[i] = a;
        }
        shared().cover(f);
        th.frames.push(Frame { f: fun, pc: 0, regs, sp0: th.sp });
        st.threads.push(th);
        Ok(id)
    }
    fn store_val_mem(&self, mem: &mut Mem, a: u64, t: TyId, v: &Val) -> Result<(), Fault> {
        match (&self.m.types[t as usize], v) {
            (Ty::Struct(fs, _), Val::A(vs)) => {
                for i in 0..fs.len() {
                    let (o, ft) = self.m.field_off(t, i as u64);
                    self.store_val_mem(mem, a + o, ft, &vs[i])?;
                }
                Ok(())
            }
            (Ty::Array(n, e), Val::A(vs)) => {
                let es = self.m.size_of(*e);
                if es == 1 && vs.iter().all(|v| matches!(v, Val::I(_))) {
                    let b: Vec<u8> = vs
                        .iter()
                        .map(|v| match v {
                            Val::I(x) => *x as u8,
                            _ => 0,
                        })
                        .collect();
                    return mem.write(a, &b);
                }
                for i in 0..*n {
                    self.store_val_mem(mem, a + i * es, *e, &vs[i as usize])?;
                }
                Ok(())
            }
            (Ty::Vector(n, e), Val::A(vs)) => {
                let ew = self.m.bits(*e);
                if ew % 8 == 0 {
                    let es = ew as u64 / 8;
                    for i in 0..*n {
                        self.store_val_mem(mem, a + i * es, *e, &vs[i as usize])?;
                    }
                    Ok(())
                } else {
                    let e = to_e(v, ew * *n as u32);
                    let nb = self.m.size_of(t) as usize;
                    mem.store_e(a, nb, e)
                }
            }
            (_, Val::I(x)) => {
                let w = self.m.bits(t);
                if w > 64 {
                    return Err(Fault(a));
                }
                mem.store(a, ((w + 7) / 8) as usize, *x)
            }
            (_, Val::W(lo, hi)) => {
                let n = ((self.m.bits(t) + 7) / 8) as usize;
                mem.store(a, n.min(8), *lo)?;
                if n > 8 {
                    mem.store(a + 8, n - 8, *hi)?;
                }
                Ok(())
            }
            (_, Val::S(e)) => {
                let n = ((self.m.bits(t) + 7) / 8) as usize;
                mem.store_e(a, n, *e)
            }
            _ => Err(Fault(a)),
        }
    }
    fn load_val(&self, mem: &Mem, a: u64, t: TyId) -> Result<Val, Fault> {
        match &self.m.types[t as usize] {
            Ty::Struct(fs, _) => {
                let mut v = Vec::with_capacity(fs.len());
                for i in 0..fs.len() {
                    let (o, ft) = self.m.field_off(t, i as u64);
                    v.push(self.load_val(mem, a + o, ft)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Array(n, e) => {
                let es = self.m.size_of(*e);
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_val(mem, a + i * es, *e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vector(n, e) => {
                let ew = self.m.bits(*e);
                let mut v = vec![];
                if ew % 8 == 0 {
                    let es = ew as u64 / 8;
                    for i in 0..*n {
                        v.push(self.load_val(mem, a + i * es, *e)?);
                    }
                } else {
                    let nb = self.m.size_of(t) as usize;
                    let x = mem.load(a, nb)?;
                    let e = to_e(&x, nb as u32 * 8);
                    for i in 0..*n {
                        v.push(from_e(extract(e, i as u32 * ew, ew)));
                    }
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let w = self.m.bits(t);
                let n = ((w + 7) / 8) as usize;
                if n <= 8 {
                    let v = mem.load(a, n)?;
                    return Ok(trunc_val(v, n as u32 * 8, w));
                }
                let lo = mem.load(a, 8)?;
                let hi = mem.load(a + 8, n - 8)?;
                if let (Val::I(l), Val::I(h)) = (&lo, &hi) {
                    return Ok(trunc_val(Val::W(*l, *h), n as u32 * 8, w));
                }
                let e = concat(to_e(&hi, (n as u32 - 8) * 8), to_e(&lo, 64));
                Ok(trunc_val(from_e(e), n as u32 * 8, w))
            }
        }
    }

    // ---------- path feasibility ----------
    pub fn holds_now(&self, st: &State, c: E) -> bool {
        eval_model(c, &st.model) & 1 == 1
    }
    fn apply(&self, st: &mut State, asg: &[(u32, u8)]) {
        for (v, b) in asg {
            let v = *v as usize;
            if st.model.len() <= v {
                st.model.resize(v + 1, 0);
            }
            st.model[v] = *b;
        }
    }
    fn add_cons(&self, st: &mut State, c: E) {
        if as_const(c).is_some() {
            return;
        }
        let mut v = vec![];
        conjuncts(c, &mut v);
        for c in v {
            if as_const(c).is_none() && !st.cons.contains(&c) {
                st.cons.push(c);
            }
        }
    }
    /// returns the state (cloned) taking `c`, if feasible; `c` is false under the current model
    fn other_side(&mut self, st: &State, c: E) -> Option<State> {
        let asg = self.sol.sat(&st.cons, c, false)?;
        let mut n = st.clone();
        self.apply(&mut n, &asg);
        self.add_cons(&mut n, c);
        n.depth += 1;
        Some(n)
    }
    /// distinct feasible values of e (current model's first)
    fn values(&mut self, st: &State, e: E, limit: usize) -> R<Vec<(u64, Vec<(u32, u8)>)>> {
        let mut out = vec![];
        let cur = eval_model(e, &st.model) as u64;
        out.push((cur, vec![]));
        let w = width(e);
        let sup = support(e);
        if sup.len() == 1 && !self.sol.force_z3 {
            let sl = Solver::slice(&st.cons, e);
            if sl.iter().all(|c| support(*c).len() == 1) {
                let mut d = [!0u64; 4];
                for c in &sl {
                    let x = domain(*c);
                    for i in 0..4 {
                        d[i] &= x[i]
                    }
                }
                self.sol.domq += 1;
                let mut seen: FxMap<u64, ()> = Default::default();
                seen.insert(cur, ());
                let t = ar().table(e.0);
                for v in 0..256usize {
                    if d[v >> 6] >> (v & 63) & 1 == 1 {
                        let x = t[v] as u64;
                        if seen.insert(x, ()).is_none() {
                            out.push((x, vec![(sup[0], v as u8)]));
                        }
                    }
                }
                return Ok(out);
            }
        }
        let mut neq = not1(bin(Op::Eq, e, konst(w, cur as u128)));
        loop {
            match self.sol.sat(&st.cons, neq, false) {
                None => return Ok(out),
                Some(asg) => {
                    let mut m = st.model.clone();
                    for (v, b) in &asg {
                        let v = *v as usize;
                        if m.len() <= v {
                            m.resize(v + 1, 0)
                        }
                        m[v] = *b;
                    }
                    let x = eval_model(e, &m) as u64;
                    out.push((x, asg));
                    if out.len() > limit {
                        return Err(format!(
                            "more than {} values for a symbolic operand {}",
                            limit,
                            show(e)
                        ));
                    }
                    neq = bin(Op::And, neq, not1(bin(Op::Eq, e, konst(w, x as u128))));
                }
            }
        }
    }
    /// make register operand concrete, forking one state per other value
    fn concretize(&mut self, st: &mut State, o: &Opnd, e: E) -> R<()> {
        let r = match o {
            Opnd::R(r) => *r,
            _ => return Err("concretize const".into()),
        };
        let w = width(e);
        let lim = self.o.max_enum;
        let vals = self.values(st, e, lim)?;
        self.note_fork(st);
        for (x, asg) in vals.iter().skip(1).rev() {
            let mut n = st.clone();
            self.apply(&mut n, asg);
            self.add_cons(&mut n, bin(Op::Eq, e, konst(w, *x as u128)));
            let cur = n.cur;
            n.threads[cur].frames.last_mut().unwrap().regs[r as usize] = from_u128(w, *x as u128);
            n.depth += 1;
            self.push(n);
        }
        let x = vals[0].0;
        self.add_cons(st, bin(Op::Eq, e, konst(w, x as u128)));
        let cur = st.cur;
        st.threads[cur].frames.last_mut().unwrap().regs[r as usize] = from_u128(w, x as u128);
        Ok(())
    }
    fn note_fork(&mut self, st: &State) {
        let f = st.threads[st.cur].frames.last().unwrap();
        *self.fork_sites.entry((f.f.id, f.pc)).or_insert(0) += 1;
    }
    fn push(&mut self, s: State) {
        self.forks += 1;
        self.work.push(s);
    }

    // ---------- reporting ----------
    pub fn backtrace(&self, st: &State) -> String {
        let mut s = String::new();
        for f in st.threads[st.cur].frames.iter().rev().take(30) {
            s.push_str(&self.m.funcs[f.f.id as usize].name);
            s.push('\n');
        }
        s
    }
    fn trace_json(&self, st: &State) -> String {
        let mut out = String::from("[");
        for (i, t) in st.trace.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            let bytes: Vec<u8> =
                (0..t.n).map(|k| st.model.get((t.var + k) as usize).copied().unwrap_or(0)).collect();
            out.push_str(&format!(
                "{{\"name\":{},\"choose\":{},\"bytes\":{:?}}}",
                jstr(&t.name),
                t.choose,
                bytes
            ));
        }
        out.push(']');
        out
    }
    fn violation(&mut self, st: &State, msg: &str) {
        let mut out = String::new();
        out.push_str("{\"msg\":");
        out.push_str(&jstr(msg));
        out.push_str(",\"trace\":");
        out.push_str(&self.trace_json(st));
        out.push_str(",\"backtrace\":");
        out.push_str(&jstr(&self.backtrace(st)));
        out.push_str(&format!(",\"insts\":{}}}", st.insts));
        shared().report_violation(&out, self.o.keep_going);
    }

    // ---------- main loop ----------
    pub fn explore(&mut self) {
        while let Some(mut st) = self.work.pop() {
            match self.run(&mut st) {
                Ok(End::Done) => {
                    self.paths += 1;
                    self.done_paths += 1;
                    if self.done_paths.is_power_of_two() && shared().want_sample() {
                        let t = self.trace_json(&st);
                        shared().report_sample(&format!("{{\"trace\":{}}}", t));
                    }
                }
                Ok(End::Killed) => self.killed += 1,
                Ok(End::Stop) => return,
                Err(e) => {
                    let bt = self.backtrace(&st);
                    shared().report_error(&format!("{}\n{}", e, bt));
                    return;
                }
            }
            if shared().stopped() {
                return;
            }
            self.handoff();
        }
    }
    pub fn handoff(&mut self) {
        while !self.work.is_empty() {
            if self.work.len() < 2 && self.last_handoff.elapsed().as_millis() < 10 {
                return;
            }
            if !shared().try_acquire(self.o.workers) {
                return;
            }
            let st = self.work.remove(0);
            let pid = unsafe { fork() };
            if pid < 0 {
                shared().release();
                self.work.push(st);
                return;
            }
            if pid == 0 {
                let old = std::mem::take(&mut self.work);
                std::mem::forget(old);
                self.work.push(st);
                self.reset_stats();
                self.last_handoff = Instant::now();
                self.explore();
                self.flush();
                shared().release();
                unsafe { _exit(0) }
            }
            self.last_handoff = Instant::now();
        }
    }
    fn reset_stats(&mut self) {
        self.asserts_conc = 0;
        self.asserts_sym = 0;
        self.paths = 0;
        self.killed = 0;
        self.forks = 0;
        self.insts = 0;
        self.sol.queries = 0;
        self.sol.cached = 0;
        self.sol.domq = 0;
        self.sol.audits = 0;
        self.sol.solver_ns = 0;
        self.sol.max_ns = 0;
        self.fork_sites.clear();
        self.prof.clear();
    }
    pub fn flush(&mut self) {
        let s = shared();
        s.add(C_PATHS, self.paths);
        s.add(C_KILLED, self.killed);
        s.add(C_FORKS, self.forks);
        s.add(C_INSTS, self.insts);
        s.add(C_ASSYM, self.asserts_sym);
        s.add(C_ASCONC, self.asserts_conc);
        s.add(C_QUERIES, self.sol.queries);
        s.add(C_CACHED, self.sol.cached);
        s.add(C_DOMQ, self.sol.domq);
        s.add(C_AUDIT, self.sol.audits);
        s.add(C_SOLVER_US, self.sol.solver_ns / 1000);
        s.max(C_MAXQ_US, self.sol.max_ns / 1000);
        if self.o.verbose {
            let mut v: Vec<_> = self.fork_sites.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for ((f, pc), n) in v.iter().take(15) {
                eprintln!("fork-site {:6} {} pc={}", n, self.m.funcs[*f as usize].name, pc);
            }
            let mut v: Vec<_> = self.prof.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (f, n) in v.iter().take(25) {
                eprintln!("prof {:6} {}", n, self.m.funcs[**f as usize].name);
            }
        }
    }

    fn run(&mut self, st: &mut State) -> R<End> {
        let mut since = 0u32;
        loop {
            let cur = st.cur;
            let fr = match st.threads[cur].frames.last_mut() {
                Some(f) => f as *mut Frame,
                None => return Ok(End::Done),
            };
            let fr = unsafe { &mut *fr };
            let func = fr.f;
            let tls = st.threads[cur].tls;
            // inner loop: stays in this frame
            loop {
                since += 1;
                if since >= 20000 {
                    st.insts += since as u64;
                    self.insts += since as u64;
                    since = 0;
                    if self.o.verbose {
                        *self.prof.entry(func.id).or_insert(0) += 1;
                    }
                    if shared().stopped() {
                        return Ok(End::Stop);
                    }
                    if Instant::now() > self.o.deadline {
                        shared().set_timeout();
                        return Ok(End::Stop);
                    }
                    if st.insts > self.o.max_insts {
                        self.violation(st, "no termination within the instruction bound");
                        return Ok(End::Killed);
                    }
                    if !self.work.is_empty() && self.last_handoff.elapsed().as_millis() > 10 {
                        self.handoff();
                    }
                }
                let ins = unsafe { func.code.get_unchecked(fr.pc as usize) };
                macro_rules! geti {
                    ($o:expr) => {
                        match $o {
                            Opnd::R(r) => match unsafe { fr.regs.get_unchecked(*r as usize) } {
                                Val::I(v) => Some(*v),
                                _ => None,
                            },
                            Opnd::C(Val::I(v)) => Some(*v),
                            Opnd::Tls(o) => Some(tls.wrapping_add(*o)),
                            _ => None,
                        }
                    };
                }
                macro_rules! getv {
                    ($o:expr) => {
                        match $o {
                            Opnd::R(r) => fr.regs[*r as usize].clone(),
                            Opnd::C(v) => v.clone(),
                            Opnd::Tls(o) => Val::I(tls.wrapping_add(*o)),
                        }
                    };
                }
                macro_rules! set {
                    ($v:expr) => {{
                        let v = $v;
                        fr.regs[ins.dst as usize] = v;
                        fr.pc += 1;
                    }};
                }
                macro_rules! addr {
                    ($o:expr) => {
                        match geti!($o) {
                            Some(a) => a,
                            None => {
                                let v = getv!($o);
                                if let Val::S(e) = v {
                                    self.concretize(st, $o, e)?;
                                    continue;
                                }
                                return Err("bad address".into());
                            }
                        }
                    };
                }
                match &ins.k {
                    K::Bin(op, w, a, b) => {
                        if let (Some(x), Some(y)) = (geti!(a), geti!(b)) {
                            let w = *w;
                            let r = match op {
                                BinOp::Add => x.wrapping_add(y) & m64(w),
                                BinOp::Sub => x.wrapping_sub(y) & m64(w),
                                BinOp::And => x & y,
                                BinOp::Or => x | y,
                                BinOp::Xor => x ^ y,
                                BinOp::Mul => x.wrapping_mul(y) & m64(w),
                                BinOp::Shl => {
                                    if y >= w as u64 {
                                        0
                                    } else {
                                        (x << y) & m64(w)
                                    }
                                }
                                BinOp::LShr => {
                                    if y >= w as u64 {
                                        0
                                    } else {
                                        x >> y
                                    }
                                }
                                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => {
                                    return Err("division by zero reached in IR".into())
                                }
                                BinOp::UDiv => x / y,
                                BinOp::URem => x % y,
                                _ => fold(bop(*op), w as u32, x as u128, y as u128) as u64,
                            };
                            set!(Val::I(r));
                        } else {
                            let x = to_e(&getv!(a), *w as u32);
                            let y = to_e(&getv!(b), *w as u32);
                            set!(from_e(bin(bop(*op), x, y)));
                        }
                    }
                    K::ICmp(p, w, a, b) => {
                        if let (Some(x), Some(y)) = (geti!(a), geti!(b)) {
                            let w = *w;
                            let r = match p {
                                Pred::Eq => x == y,
                                Pred::Ne => x != y,
                                Pred::Ult => x < y,
                                Pred::Ule => x <= y,
                                Pred::Ugt => x > y,
                                Pred::Uge => x >= y,
                                Pred::Slt => sx(x, w) < sx(y, w),
                                Pred::Sle => sx(x, w) <= sx(y, w),
                                Pred::Sgt => sx(x, w) > sx(y, w),
                                Pred::Sge => sx(x, w) >= sx(y, w),
                            };
                            set!(Val::I(r as u64));
                        } else {
                            let x = to_e(&getv!(a), *w as u32);
                            let y = to_e(&getv!(b), *w as u32);
                            set!(from_e(icmp_e(*p, x, y)));
                        }
                    }
                    K::LoadI(n, w, p) => {
                        let a = match geti!(p) {
                            Some(a) => a,
                            None => {
                                // symbolic address: ite over feasible addresses when few
                                if let Val::S(e) = getv!(p) {
                                    let v = self.sym_load(st, e, *n as usize)?;
                                    set!(trunc_val(v, *n as u32 * 8, *w as u32));
                                    continue;
                                }
                                return Err("bad load address".into());
                            }
                        };
                        let v = st.mem.load(a, *n as usize).map_err(flt)?;
                        let v = if *w == *n * 8 { v } else { trunc_val(v, *n as u32 * 8, *w as u32) };
                        set!(v);
                    }
                    K::StoreI(n, w, v, p) => {
                        let a = addr!(p);
                        match geti!(v) {
                            Some(x) => st.mem.store(a, *n as usize, x).map_err(flt)?,
                            None => {
                                let e = to_e(&getv!(v), *w as u32);
                                st.mem.store_e(a, *n as usize, e).map_err(flt)?
                            }
                        }
                        fr.pc += 1;
                    }
                    K::Gep(b, off, terms) => {
                        let mut acc = geti!(b).map(|x| x.wrapping_add(*off as u64));
                        if acc.is_some() {
                            for (o, w, sc) in terms.iter() {
                                match geti!(o) {
                                    Some(i) => {
                                        acc = acc.map(|x| {
                                            x.wrapping_add((sx(i, *w)).wrapping_mul(*sc) as u64)
                                        })
                                    }
                                    None => {
                                        acc = None;
                                        break;
                                    }
                                }
                            }
                        }
                        match acc {
                            Some(x) => set!(Val::I(x)),
                            None => {
                                let mut e = bin(Op::Add, to_e(&getv!(b), 64), konst(64, *off as u128));
                                for (o, w, sc) in terms.iter() {
                                    let i = sext(to_e(&getv!(o), *w as u32), 64);
                                    e = bin(Op::Add, e, bin(Op::Mul, i, konst(64, *sc as u128)));
                                }
                                set!(from_e(e))
                            }
                        }
                    }
                    K::Br(e) => take(fr, e, tls),
                    K::CondBr(c, t, f) => match geti!(c) {
                        Some(v) => take(fr, if v & 1 == 1 { t } else { f }, tls),
                        None => {
                            let ce = match getv!(c) {
                                Val::S(e) => e,
                                _ => return Err("br cond".into()),
                            };
                            let cur_true = self.holds_now(st, ce);
                            let other = if cur_true { not1(ce) } else { ce };
                            let asg = self.sol.sat(&st.cons, other, false);
                            if let Some(asg) = asg {
                                self.note_fork(st);
                                let mut n = st.clone();
                                self.apply(&mut n, &asg);
                                self.add_cons(&mut n, other);
                                n.depth += 1;
                                {
                                    let nf = n.threads[cur].frames.last_mut().unwrap();
                                    take(nf, if cur_true { f } else { t }, tls);
                                }
                                self.push(n);
                                self.add_cons(st, not1(other));
                            }
                            take(fr, if cur_true { t } else { f }, tls);
                        }
                    },
                    K::Switch(v, w, cases, edges) => match geti!(v) {
                        Some(x) => {
                            let mut k = 0;
                            for (c, e) in cases.iter() {
                                if *c == x {
                                    k = *e;
                                    break;
                                }
                            }
                            take(fr, &edges[k as usize], tls);
                        }
                        None => {
                            let e = to_e(&getv!(v), *w as u32);
                            // group cases by target
                            let mut groups: Vec<(u32, E)> = vec![];
                            let mut none = tru();
                            for (c, ei) in cases.iter() {
                                let eq = bin(Op::Eq, e, konst(*w as u32, *c as u128));
                                none = bin(Op::And, none, not1(eq));
                                let ed = &edges[*ei as usize];
                                let mut hit = false;
                                if ed.copies.is_empty() {
                                    for g in groups.iter_mut() {
                                        let o = &edges[g.0 as usize];
                                        if o.pc == ed.pc && o.copies.is_empty() {
                                            g.1 = bin(Op::Or, g.1, eq);
                                            hit = true;
                                            break;
                                        }
                                    }
                                }
                                if !hit {
                                    groups.push((*ei, eq));
                                }
                            }
                            groups.push((0, none));
                            let mut mine = None;
                            let mut others = vec![];
                            for (ei, c) in groups {
                                if as_const(c) == Some(0) {
                                    continue;
                                }
                                if mine.is_none() && self.holds_now(st, c) {
                                    mine = Some((ei, c));
                                } else if let Some(asg) = self.sol.sat(&st.cons, c, false) {
                                    others.push((ei, c, asg));
                                }
                            }
                            let (ei, c) = mine.ok_or("switch: no side")?;
                            if !others.is_empty() {
                                self.note_fork(st);
                            }
                            for (oi, oc, asg) in others {
                                let mut n = st.clone();
                                self.apply(&mut n, &asg);
                                self.add_cons(&mut n, oc);
                                n.depth += 1;
                                take(n.threads[cur].frames.last_mut().unwrap(), &edges[oi as usize], tls);
                                self.push(n);
                            }
                            self.add_cons(st, c);
                            take(fr, &edges[ei as usize], tls);
                        }
                    },
                    K::Cast(c, f, t, a) => {
                        let v = getv!(a);
                        let r = self.cast(*c, *f, *t, v)?;
                        set!(r);
                    }
                    K::Select(ct, t, c, a, b) => match geti!(c) {
                        Some(x) => {
                            let v = if x & 1 == 1 { getv!(a) } else { getv!(b) };
                            set!(v)
                        }
                        None => {
                            let cv = getv!(c);
                            let (x, y) = (getv!(a), getv!(b));
                            let r = self.select(*ct, *t, cv, x, y)?;
                            set!(r);
                        }
                    },
                    K::Load(t, p) => {
                        let a = addr!(p);
                        let v = self.load_val(&st.mem, a, *t).map_err(flt)?;
                        set!(v);
                    }
                    K::Store(t, v, p) => {
                        let a = addr!(p);
                        let x = getv!(v);
                        self.store_val_mem(&mut st.mem, a, *t, &x).map_err(flt)?;
                        fr.pc += 1;
                    }
                    K::Alloca(sz, al) => {
                        let sp = &mut st.threads[cur].sp;
                        let al = (*al).max(16);
                        let a = (*sp + al - 1) / al * al;
                        *sp = a + (*sz).max(1);
                        let top = *sp;
                        let base = STACK_BASE + cur as u64 * STACK_SZ;
                        if top - base > STACK_SZ - 8192 {
                            return Err("stack overflow".into());
                        }
                        let need = (top - base) as usize / PS + 2;
                        while st.mem.s[cur].len() < need {
                            st.mem.s[cur].push(zero_page());
                        }
                        set!(Val::I(a));
                    }
                    K::Ret(v) => {
                        let rv = v.as_ref().map(|o| getv!(o));
                        let th = &mut st.threads[cur];
                        th.sp = fr.sp0;
                        th.frames.pop();
                        match th.frames.last_mut() {
                            None => {
                                if cur == 0 {
                                    st.insts += since as u64;
                                    self.insts += since as u64;
                                    return Ok(End::Done);
                                }
                                return Err("thread entry returned".into());
                            }
                            Some(c) => finish_call(c, rv, tls),
                        }
                        break;
                    }
                    K::Call(callee, args, _rt, _) => {
                        match self.call(st, ins, callee, args)? {
                            Step::Next => {
                                // pc advance was done by call
                            }
                            Step::Redo => {}
                            Step::Jumped => {}
                            Step::End(e) => {
                                st.insts += since as u64;
                                self.insts += since as u64;
                                return Ok(e);
                            }
                        }
                        break;
                    }
                    K::BinG(op, t, a, b) => {
                        let r = self.bing(*op, *t, getv!(a), getv!(b))?;
                        set!(r);
                    }
                    K::ICmpG(p, t, a, b) => {
                        let r = self.icmpg(*p, *t, getv!(a), getv!(b))?;
                        set!(r);
                    }
                    K::FCmp(p, t, a, b) => {
                        let r = self.fcmp(p, *t, getv!(a), getv!(b))?;
                        set!(r);
                    }
                    K::FNeg(t, a) => {
                        let w = self.m.bits(*t);
                        match getv!(a) {
                            Val::I(x) => set!(Val::I(x ^ (1u64 << (w - 1)))),
                            _ => return Err("fneg".into()),
                        }
                    }
                    K::ExtractValue(a, ix) => {
                        let mut v = getv!(a);
                        for i in ix.iter() {
                            v = match v {
                                Val::A(x) => x[*i as usize].clone(),
                                _ => return Err("extractvalue".into()),
                            };
                        }
                        set!(v);
                    }
                    K::InsertValue(_, a, v, ix) => {
                        let mut agg = getv!(a);
                        let x = getv!(v);
                        insert(&mut agg, ix, x);
                        set!(agg);
                    }
                    K::ExtractElement(a, i) => {
                        let i = addr!(i);
                        match getv!(a) {
                            Val::A(x) => set!(x[i as usize].clone()),
                            _ => return Err("extractelement".into()),
                        }
                    }
                    K::InsertElement(_, a, v, i) => {
                        let i = addr!(i);
                        let mut agg = getv!(a);
                        let x = getv!(v);
                        insert(&mut agg, &[i as u32], x);
                        set!(agg);
                    }
                    K::Shuffle(n, a, b, mk) => {
                        if let (Val::A(x), Val::A(y)) = (getv!(a), getv!(b)) {
                            let r: Vec<Val> = mk
                                .iter()
                                .map(|k| {
                                    if *k < *n {
                                        x[*k as usize].clone()
                                    } else {
                                        y[(*k - *n) as usize].clone()
                                    }
                                })
                                .collect();
                            set!(Val::A(Rc::new(r)));
                        } else {
                            return Err("shuffle".into());
                        }
                    }
                    K::Copy(a) => {
                        let v = getv!(a);
                        set!(v)
                    }
                    K::CmpXchg(w, p, c, n) => {
                        let a = addr!(p);
                        let nb = ((*w as usize) + 7) / 8;
                        let old = st.mem.load(a, nb).map_err(flt)?;
                        let cv = getv!(c);
                        match (&old, &cv) {
                            (Val::I(o), Val::I(c)) => {
                                let ok = o == c;
                                if ok {
                                    match getv!(n) {
                                        Val::I(x) => st.mem.store(a, nb, x).map_err(flt)?,
                                        v => st.mem.store_e(a, nb, to_e(&v, *w as u32)).map_err(flt)?,
                                    }
                                }
                                set!(Val::A(Rc::new(vec![old, Val::I(ok as u64)])));
                            }
                            _ => {
                                let eq = bin(Op::Eq, to_e(&old, *w as u32), to_e(&cv, *w as u32));
                                let nv = to_e(&getv!(n), *w as u32);
                                let r = ite(eq, nv, to_e(&old, *w as u32));
                                st.mem.store_e(a, nb, r).map_err(flt)?;
                                set!(Val::A(Rc::new(vec![old, from_e(eq)])));
                            }
                        }
                    }
                    K::AtomicRmw(op, w, p, v) => {
                        let a = addr!(p);
                        let nb = ((*w as usize) + 7) / 8;
                        let old = st.mem.load(a, nb).map_err(flt)?;
                        let x = getv!(v);
                        let (oe, xe) = (to_e(&old, *w as u32), to_e(&x, *w as u32));
                        let r = match op.as_str() {
                            "xchg" => xe,
                            "add" => bin(Op::Add, oe, xe),
                            "sub" => bin(Op::Sub, oe, xe),
                            "and" => bin(Op::And, oe, xe),
                            "or" => bin(Op::Or, oe, xe),
                            "xor" => bin(Op::Xor, oe, xe),
                            "max" => ite(bin(Op::Slt, oe, xe), xe, oe),
                            "min" => ite(bin(Op::Slt, oe, xe), oe, xe),
                            "umax" => ite(bin(Op::Ult, oe, xe), xe, oe),
                            "umin" => ite(bin(Op::Ult, oe, xe), oe, xe),
                            _ => return Err(format!("atomicrmw {}", op)),
                        };
                        st.mem.store_e(a, nb, r).map_err(flt)?;
                        set!(old);
                    }
                    K::Nop => fr.pc += 1,
                    K::Unreachable => return Err("unreachable instruction executed".into()),
                    K::LandingPad => return Err("landing pad executed".into()),
                }
            }
        }
    }

    fn sym_load(&mut self, st: &mut State, e: E, n: usize) -> R<Val> {
        let lim = 1024;
        let vals = self.values(st, e, lim)?;
        let mut acc: Option<Val> = None;
        let mut groups: Vec<(Val, E)> = vec![];
        let mut total: FxMap<u64, ()> = Default::default();
        for (a, _) in &vals {
            if total.insert(*a, ()).is_some() {
                continue;
            }
            let v = st.mem.load(*a, n).map_err(flt)?;
            let c = bin(Op::Eq, e, konst(64, *a as u128));
            if let Some(g) = groups.iter_mut().find(|g| g.0 == v) {
                g.1 = bin(Op::Or, g.1, c);
            } else {
                groups.push((v, c));
            }
        }
        groups.sort_by_key(|g| std::cmp::Reverse(nd(g.1).a)); // deterministic
        for (v, c) in groups {
            acc = Some(match acc {
                None => v,
                Some(r) => from_e(ite(c, to_e(&v, n as u32 * 8), to_e(&r, n as u32 * 8))),
            });
        }
        Ok(acc.unwrap())
    }

    fn cast(&mut self, c: Cast, f: TyId, t: TyId, v: Val) -> R<Val> {
        if c == Cast::Bitcast {
            if f == t {
                return Ok(v);
            }
            let (fs, ts) = (self.m.is_scalar(f), self.m.is_scalar(t));
            if fs && ts {
                return Ok(v);
            }
            let w = self.m.bits(f);
            if w <= 128 {
                let e = match &v {
                    Val::A(x) if x.iter().all(|y| matches!(y, Val::I(_))) => {
                        let lw = w / x.len() as u32;
                        let mut acc = 0u128;
                        for (i, y) in x.iter().enumerate() {
                            if let Val::I(k) = y {
                                acc |= (*k as u128) << (i as u32 * lw);
                            }
                        }
                        None::<E>.ok_or(acc)
                    }
                    _ => match to_u128(&v) {
                        Some(k) => Err(k),
                        None => Ok(to_e(&v, w)),
                    },
                };
                return Ok(match &self.m.types[t as usize] {
                    Ty::Vector(n, el) => {
                        let lw = self.m.bits(*el);
                        let r: Vec<Val> = (0..*n as u32)
                            .map(|i| match &e {
                                Err(k) => from_u128(lw, k >> (i * lw)),
                                Ok(e) => from_e(extract(*e, i * lw, lw)),
                            })
                            .collect();
                        Val::A(Rc::new(r))
                    }
                    _ => match e {
                        Err(k) => from_u128(w, k),
                        Ok(e) => from_e(e),
                    },
                });
            }
            return Err("wide bitcast".into());
        }
        if let Val::A(x) = &v {
            let (fe, te) = match (&self.m.types[f as usize], &self.m.types[t as usize]) {
                (Ty::Vector(_, a), Ty::Vector(_, b)) => (*a, *b),
                _ => return Err("cast agg".into()),
            };
            let mut r = vec![];
            for y in x.iter() {
                r.push(self.cast(c, fe, te, y.clone())?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let (fw, tw) = (self.m.bits(f), self.m.bits(t));
        match c {
            Cast::Trunc | Cast::ZExt | Cast::SExt | Cast::PtrToInt | Cast::IntToPtr => {
                if let Some(k) = to_u128(&v) {
                    let k = if c == Cast::SExt { sext128(k, fw) as u128 } else { k };
                    return Ok(from_u128(tw, k));
                }
                let e = to_e(&v, fw);
                Ok(from_e(if tw < fw {
                    extract(e, 0, tw)
                } else if c == Cast::SExt {
                    sext(e, tw)
                } else {
                    zext(e, tw)
                }))
            }
            _ => {
                let k = to_u128(&v).ok_or("symbolic floating-point conversion")?;
                let getf = |w: u32, k: u128| -> f64 {
                    if w == 32 {
                        f32::from_bits(k as u32) as f64
                    } else {
                        f64::from_bits(k as u64)
                    }
                };
                let putf = |w: u32, x: f64| -> Val {
                    if w == 32 {
                        Val::I((x as f32).to_bits() as u64)
                    } else {
                        Val::I(x.to_bits())
                    }
                };
                Ok(match c {
                    Cast::FpToUi => from_u128(tw, getf(fw, k) as u128),
                    Cast::FpToSi => from_u128(tw, getf(fw, k) as i128 as u128),
                    Cast::UiToFp => {
                        if tw == 32 {
                            Val::I((k as f32).to_bits() as u64)
                        } else {
                            putf(tw, k as f64)
                        }
                    }
                    Cast::SiToFp => {
                        let s = sext128(k, fw);
                        if tw == 32 {
                            Val::I((s as f32).to_bits() as u64)
                        } else {
                            putf(tw, s as f64)
                        }
                    }
                    _ => putf(tw, getf(fw, k)),
                })
            }
        }
    }
    fn select(&mut self, ct: TyId, t: TyId, c: Val, a: Val, b: Val) -> R<Val> {
        if let (Val::A(cs), Ty::Vector(_, ce), Ty::Vector(_, el)) =
            (&c, self.m.types[ct as usize].clone(), self.m.types[t as usize].clone())
        {
            if let (Val::A(x), Val::A(y)) = (a, b) {
                let mut r = vec![];
                for i in 0..cs.len() {
                    r.push(self.select(ce, el, cs[i].clone(), x[i].clone(), y[i].clone())?);
                }
                return Ok(Val::A(Rc::new(r)));
            }
            return Err("vector select".into());
        }
        match c {
            Val::I(x) => Ok(if x & 1 == 1 { a } else { b }),
            Val::S(e) => {
                if a == b {
                    return Ok(a);
                }
                match (&a, &b, self.m.types[t as usize].clone()) {
                    (Val::A(x), Val::A(y), Ty::Struct(fs, _)) => {
                        let mut r = vec![];
                        for i in 0..x.len() {
                            r.push(self.select(ct, fs[i], Val::S(e), x[i].clone(), y[i].clone())?);
                        }
                        Ok(Val::A(Rc::new(r)))
                    }
                    (Val::A(x), Val::A(y), Ty::Array(_, el) | Ty::Vector(_, el)) => {
                        let mut r = vec![];
                        for i in 0..x.len() {
                            r.push(self.select(ct, el, Val::S(e), x[i].clone(), y[i].clone())?);
                        }
                        Ok(Val::A(Rc::new(r)))
                    }
                    _ => {
                        let w = self.m.bits(t);
                        Ok(from_e(ite(e, to_e(&a, w), to_e(&b, w))))
                    }
                }
            }
            _ => Err("select cond".into()),
        }
    }
    fn bing(&mut self, op: BinOp, t: TyId, a: Val, b: Val) -> R<Val> {
        if let (Val::A(x), Val::A(y)) = (&a, &b) {
            let el = match self.m.types[t as usize] {
                Ty::Vector(_, e) => e,
                _ => return Err("bing".into()),
            };
            let mut r = Vec::with_capacity(x.len());
            for i in 0..x.len() {
                r.push(self.bing(op, el, x[i].clone(), y[i].clone())?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let w = self.m.bits(t);
        if matches!(op, BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem) {
            let (x, y) = match (a, b) {
                (Val::I(x), Val::I(y)) => (x, y),
                _ => return Err("symbolic floating-point arithmetic".into()),
            };
            macro_rules! go {
                ($x:expr,$y:expr) => {
                    match op {
                        BinOp::FAdd => $x + $y,
                        BinOp::FSub => $x - $y,
                        BinOp::FMul => $x * $y,
                        BinOp::FDiv => $x / $y,
                        _ => $x % $y,
                    }
                };
            }
            return Ok(if w == 32 {
                let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                Val::I(go!(x, y).to_bits() as u64)
            } else {
                let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                Val::I(go!(x, y).to_bits())
            });
        }
        if let (Some(x), Some(y)) = (to_u128(&a), to_u128(&b)) {
            return Ok(from_u128(w, fold(bop(op), w, x, y)));
        }
        Ok(from_e(bin(bop(op), to_e(&a, w), to_e(&b, w))))
    }
    fn icmpg(&mut self, p: Pred, t: TyId, a: Val, b: Val) -> R<Val> {
        if let (Val::A(x), Val::A(y)) = (&a, &b) {
            let el = match self.m.types[t as usize] {
                Ty::Vector(_, e) => e,
                _ => return Err("icmpg".into()),
            };
            let mut r = Vec::with_capacity(x.len());
            for i in 0..x.len() {
                r.push(self.icmpg(p, el, x[i].clone(), y[i].clone())?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let w = self.m.bits(t);
        if let (Some(x), Some(y)) = (to_u128(&a), to_u128(&b)) {
            return Ok(Val::I(icmp_c(p, x, y, w) as u64));
        }
        Ok(from_e(icmp_e(p, to_e(&a, w), to_e(&b, w))))
    }
    fn fcmp(&mut self, p: &str, t: TyId, a: Val, b: Val) -> R<Val> {
        let w = self.m.bits(t);
        let (x, y) = match (a, b) {
            (Val::I(x), Val::I(y)) if w == 64 => (f64::from_bits(x), f64::from_bits(y)),
            (Val::I(x), Val::I(y)) => {
                (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
            }
            _ => return Err("symbolic floating-point comparison".into()),
        };
        let un = x.is_nan() || y.is_nan();
        let (u, q) = (p.starts_with('u'), &p[1..]);
        let r = match p {
            "true" => true,
            "false" => false,
            "ord" => !un,
            "uno" => un,
            _ => {
                let base = match q {
                    "eq" => x == y,
                    "ne" => x != y && !un,
                    "lt" => x < y,
                    "le" => x <= y,
                    "gt" => x > y,
                    "ge" => x >= y,
                    _ => return Err(format!("fcmp {}", p)),
                };
                if un {
                    u
                } else {
                    base
                }
            }
        };
        Ok(Val::I(r as u64))
    }

    fn argi(&self, st: &State, o: &Opnd) -> Val {
        let th = &st.threads[st.cur];
        match o {
            Opnd::R(r) => th.frames.last().unwrap().regs[*r as usize].clone(),
            Opnd::C(v) => v.clone(),
            Opnd::Tls(o) => Val::I(th.tls.wrapping_add(*o)),
        }
    }

    fn call(&mut self, st: &mut State, ins: &Inst, callee: &Callee, args: &[Opnd]) -> R<Step> {
        match callee {
            Callee::Direct(f) => self.call_fn(st, ins, *f, args),
            Callee::Ind(o) => match self.argi(st, o) {
                Val::I(a) => {
                    if a < FN_BASE || (a - FN_BASE) / 16 >= self.m.funcs.len() as u64 {
                        return Err(format!("indirect call to {:#x}", a));
                    }
                    let f = ((a - FN_BASE) / 16) as u32;
                    self.call_fn(st, ins, f, args)
                }
                Val::S(e) => {
                    self.concretize(st, o, e)?;
                    Ok(Step::Redo)
                }
                _ => Err("indirect callee".into()),
            },
            Callee::Asm(s) => {
                if s.is_empty() {
                    finish_call(st.threads[st.cur].frames.last_mut().unwrap(), None, 0);
                    return Ok(Step::Next);
                }
                if s.contains("cpuid") {
                    let z = Val::A(Rc::new(vec![Val::I(0); 4]));
                    finish_call(st.threads[st.cur].frames.last_mut().unwrap(), Some(z), 0);
                    return Ok(Step::Next);
                }
                if s.starts_with("/*") {
                    let v = self.argi(st, &args[0]);
                    finish_call(st.threads[st.cur].frames.last_mut().unwrap(), Some(v), 0);
                    return Ok(Step::Next);
                }
                Err(format!("inline asm {}", s))
            }
            Callee::Intr(i) => self.intrinsic(st, i, args),
        }
    }

    fn call_fn(&mut self, st: &mut State, _ins: &Inst, mut f: u32, args: &[Opnd]) -> R<Step> {
        if let Some(p) = self.prims[f as usize] {
            if let Prim::FmtNum = p {
                // decimal rendering of a symbolic number: rendered as nothing
                let sym = match self.argi(st, &args[0]) {
                    Val::S(_) => true,
                    Val::I(a) if a >= 1 << 32 && a < FN_BASE => {
                        matches!(st.mem.load(a, 1), Ok(Val::S(_)))
                    }
                    _ => false,
                };
                if sym {
                    let cur = st.cur;
                    finish_call(st.threads[cur].frames.last_mut().unwrap(), Some(Val::I(0)), 0);
                    return Ok(Step::Next);
                }
            } else {
                return self.prim(st, p, args);
            }
        }
        if self.m.funcs[f as usize].body.is_none() {
            let g = self.simos[f as usize];
            if g == u32::MAX {
                return Err(format!("call to unmodelled external function {}", self.m.funcs[f as usize].name));
            }
            f = g;
        }
        let cur = st.cur;
        let fun = match self.m.funcs[f as usize].parsed {
            Some(f) => f,
            None => {
                let r = self.m.func(f).ok_or("no body")?;
                r
            }
        };
        shared().cover(f);
        let th = &mut st.threads[cur];
        let fr = th.frames.last().unwrap();
        let mut regs = Vec::with_capacity(fun.nregs as usize);
        for i in 0..fun.nparams as usize {
            regs.push(match args.get(i) {
                Some(Opnd::R(r)) => fr.regs[*r as usize].clone(),
                Some(Opnd::C(v)) => v.clone(),
                Some(Opnd::Tls(o)) => Val::I(th.tls.wrapping_add(*o)),
                None => Val::I(0),
            });
        }
        regs.resize(fun.nregs as usize, Val::I(0));
        if th.frames.len() > 5000 {
            return Err("call depth".into());
        }
        let sp0 = th.sp;
        th.frames.push(Frame { f: fun, pc: 0, regs, sp0 });
        Ok(Step::Jumped)
    }

    fn intrinsic(&mut self, st: &mut State, i: &Intr, args: &[Opnd]) -> R<Step> {
        let cur = st.cur;
        macro_rules! conc {
            ($k:expr) => {
                match self.argi(st, &args[$k]) {
                    Val::I(v) => v,
                    Val::S(e) => {
                        self.concretize(st, &args[$k], e)?;
                        return Ok(Step::Redo);
                    }
                    _ => return Err("intrinsic arg".into()),
                }
            };
        }
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                finish_call(st.threads[cur].frames.last_mut().unwrap(), v, 0);
                return Ok(Step::Next);
            }};
        }
        match i {
            Intr::Nop => ret!(None),
            Intr::Memcpy => {
                let (d, s, n) = (conc!(0), conc!(1), conc!(2));
                st.mem.copy(d, s, n).map_err(flt)?;
                ret!(None)
            }
            Intr::Memset => {
                let (d, n) = (conc!(0), conc!(2));
                match self.argi(st, &args[1]) {
                    Val::I(v) => st.mem.fill(d, v as u8, n).map_err(flt)?,
                    Val::S(e) => {
                        for k in 0..n {
                            st.mem.set_byte(d + k, Val::S(e)).map_err(flt)?
                        }
                    }
                    _ => return Err("memset".into()),
                }
                ret!(None)
            }
            Intr::Trap => {
                self.violation(st, "trap executed");
                Ok(Step::End(End::Killed))
            }
            Intr::Other(n, w) => {
                let vals: Vec<Val> = args.iter().map(|a| self.argi(st, a)).collect();
                let v = self.intr_val(st, n, *w, vals)?;
                ret!(v)
            }
        }
    }
    fn intr_val(&mut self, st: &State, n: &str, w: u32, a: Vec<Val>) -> R<Option<Val>> {
        if let Some(Val::A(_)) = a.first() {
            return self.intr_vec(st, n, a);
        }
        let lw = w & 0xffff;
        let e = |i: usize| to_e(&a[i], lw);
        let c = |i: usize| to_u128(&a[i]);
        let all = a.iter().all(|x| to_u128(x).is_some());
        let r = match n {
            "sadd.with.overflow" | "uadd.with.overflow" | "ssub.with.overflow" | "usub.with.overflow"
            | "smul.with.overflow" | "umul.with.overflow" => {
                let signed = n.starts_with('s');
                if all {
                    let (x, y) = (c(0).unwrap(), c(1).unwrap());
                    let (r, o): (u128, bool) = if signed {
                        let (sx, sy) = (sext128(x, w), sext128(y, w));
                        let (r, o) = match &n[1..4] {
                            "add" => sx.overflowing_add(sy),
                            "sub" => sx.overflowing_sub(sy),
                            _ => sx.overflowing_mul(sy),
                        };
                        (r as u128 & mask(w), o || sext128(r as u128 & mask(w), w) != r)
                    } else {
                        let (r, o) = match &n[1..4] {
                            "add" => x.overflowing_add(y),
                            "sub" => x.overflowing_sub(y),
                            _ => x.overflowing_mul(y),
                        };
                        (r & mask(w), o || r > mask(w))
                    };
                    Val::A(Rc::new(vec![from_u128(w, r), Val::I(o as u64)]))
                } else {
                    let (x, y) = (e(0), e(1));
                    let (r, o) = match n {
                        "uadd.with.overflow" => {
                            let r = bin(Op::Add, x, y);
                            let (x, y) = if as_const(x).is_some() { (y, x) } else { (x, y) };
                            match as_const(y) {
                                Some(k) => (r, bin(Op::Ult, konst(w, mask(w) - k), x)),
                                None => (r, bin(Op::Ult, r, x)),
                            }
                        }
                        "usub.with.overflow" => (bin(Op::Sub, x, y), bin(Op::Ult, x, y)),
                        "umul.with.overflow" => {
                            if w > 64 {
                                return Err("symbolic wide multiplication".into());
                            }
                            let (x, y) = if as_const(x).is_some() { (y, x) } else { (x, y) };
                            match as_const(y) {
                                Some(0) => (y, konst(1, 0)),
                                Some(k) => {
                                    (bin(Op::Mul, x, y), bin(Op::Ult, konst(w, mask(w) / k), x))
                                }
                                None => {
                                    let p = bin(Op::Mul, zext(x, 2 * w), zext(y, 2 * w));
                                    (
                                        extract(p, 0, w),
                                        not1(bin(Op::Eq, extract(p, w, w), konst(w, 0))),
                                    )
                                }
                            }
                        }
                        _ => {
                            let ww = if n.starts_with("smul") { 2 * w } else { w + 1 };
                            if ww > 128 {
                                return Err("symbolic wide signed arithmetic".into());
                            }
                            let op = match &n[1..4] {
                                "add" => Op::Add,
                                "sub" => Op::Sub,
                                _ => Op::Mul,
                            };
                            let p = bin(op, sext(x, ww), sext(y, ww));
                            let r = extract(p, 0, w);
                            (r, not1(bin(Op::Eq, sext(r, ww), p)))
                        }
                    };
                    Val::A(Rc::new(vec![from_e(r), from_e(o)]))
                }
            }
            "uadd.sat" => {
                let r = bin(Op::Add, e(0), e(1));
                from_e(ite(bin(Op::Ult, r, e(0)), konst(w, mask(w)), r))
            }
            "usub.sat" => from_e(ite(bin(Op::Ult, e(0), e(1)), konst(w, 0), bin(Op::Sub, e(0), e(1)))),
            "sadd.sat" | "ssub.sat" => {
                if !all {
                    return Err("symbolic signed saturation".into());
                }
                let (x, y) = (sext128(c(0).unwrap(), w), sext128(c(1).unwrap(), w));
                let r = if n == "sadd.sat" { x + y } else { x - y };
                let mx = (mask(w) >> 1) as i128;
                from_u128(w, r.clamp(-mx - 1, mx) as u128)
            }
            "umax" => from_e(ite(bin(Op::Ult, e(0), e(1)), e(1), e(0))),
            "umin" => from_e(ite(bin(Op::Ult, e(0), e(1)), e(0), e(1))),
            "smax" => from_e(ite(bin(Op::Slt, e(0), e(1)), e(1), e(0))),
            "smin" => from_e(ite(bin(Op::Slt, e(0), e(1)), e(0), e(1))),
            "abs" => {
                let z = konst(w, 0);
                from_e(ite(bin(Op::Slt, e(0), z), bin(Op::Sub, z, e(0)), e(0)))
            }
            "ucmp" | "scmp" => {
                let ow = w >> 16; // result width
                let (x, y) = (e(0), e(1));
                let lt = if n == "ucmp" { bin(Op::Ult, x, y) } else { bin(Op::Slt, x, y) };
                let eq = bin(Op::Eq, x, y);
                from_e(ite(lt, konst(ow, mask(ow)), ite(eq, konst(ow, 0), konst(ow, 1))))
            }
            "bswap" => {
                let x = e(0);
                let nb = w / 8;
                let mut r: Option<E> = None;
                for i in 0..nb {
                    let b = extract(x, i * 8, 8);
                    r = Some(match r {
                        None => b,
                        Some(h) => concat(h, b),
                    });
                }
                from_e(r.unwrap())
            }
            "bitreverse" => {
                let x = e(0);
                let mut r: Option<E> = None;
                for i in 0..w {
                    let b = extract(x, i, 1);
                    r = Some(match r {
                        None => b,
                        Some(h) => concat(h, b),
                    });
                }
                from_e(r.unwrap())
            }
            "ctpop" => {
                if let Some(x) = c(0) {
                    from_u128(w, x.count_ones() as u128)
                } else {
                    let x = e(0);
                    let mut r = konst(w, 0);
                    for i in 0..w {
                        r = bin(Op::Add, r, zext(extract(x, i, 1), w));
                    }
                    from_e(r)
                }
            }
            "ctlz" => {
                if let Some(x) = c(0) {
                    from_u128(w, (x.leading_zeros() - (128 - w)) as u128)
                } else {
                    let x = e(0);
                    let mut r = konst(w, w as u128);
                    for i in 0..w {
                        r = ite(extract(x, i, 1), konst(w, (w - 1 - i) as u128), r);
                    }
                    from_e(r)
                }
            }
            "cttz" => {
                if let Some(x) = c(0) {
                    from_u128(w, if x == 0 { w as u128 } else { x.trailing_zeros() as u128 })
                } else {
                    let x = e(0);
                    let mut r = konst(w, w as u128);
                    for i in (0..w).rev() {
                        r = ite(extract(x, i, 1), konst(w, i as u128), r);
                    }
                    from_e(r)
                }
            }
            "fshl" | "fshr" => {
                let s = c(2).ok_or("symbolic funnel shift")? % w as u128;
                if s == 0 {
                    if n == "fshl" {
                        a[0].clone()
                    } else {
                        a[1].clone()
                    }
                } else {
                    let s = s as u32;
                    let s = if n == "fshl" { s } else { w - s };
                    // high w bits of (a:b) << s
                    let hi = extract(e(0), 0, w - s);
                    let lo = extract(e(1), w - s, s);
                    from_e(concat(hi, lo))
                }
            }
            "is.constant" => Val::I(0),
            "expect" | "expect.with.probability" | "threadlocal.address" | "ptrmask"
            | "launder.invariant.group" | "strip.invariant.group" => a[0].clone(),
            "load.relative" => {
                let (p, o) = match (&a[0], &a[1]) {
                    (Val::I(p), Val::I(o)) => (*p, *o),
                    _ => return Err("load.relative on symbolic operand".into()),
                };
                match st.mem.load(p.wrapping_add(o), 4).map_err(flt)? {
                    Val::I(v) => Val::I(p.wrapping_add(v as u32 as i32 as i64 as u64)),
                    _ => return Err("load.relative".into()),
                }
            }
            "objectsize" => Val::I(if w == 64 { !0 } else { mask(w) as u64 }),
            "x86.xgetbv" => Val::I(0),
            "fabs" => Val::I(c(0).ok_or("fabs")? as u64 & (mask(w) >> 1) as u64),
            "floor" | "ceil" | "trunc" | "round" | "sqrt" if w == 64 => {
                let x = f64::from_bits(c(0).ok_or("fp")? as u64);
                let r = match n {
                    "floor" => x.floor(),
                    "ceil" => x.ceil(),
                    "trunc" => x.trunc(),
                    "round" => x.round(),
                    _ => x.sqrt(),
                };
                Val::I(r.to_bits())
            }
            "fptoui.sat" | "fptosi.sat" => return Err(format!("intrinsic {}", n)),
            "stacksave" => Val::I(0),
            "stackrestore" => return Ok(None),
            _ => return Err(format!("unmodelled intrinsic llvm.{} w={}", n, w)),
        };
        Ok(Some(r))
    }
    fn intr_vec(&mut self, st: &State, n: &str, a: Vec<Val>) -> R<Option<Val>> {
        let parts: Vec<&str> = n.split('.').collect();
        // last part like v16i8
        let last = parts.last().unwrap();
        let ew: u32 = last[1..].split('i').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
        if n.starts_with("vector.reduce.") {
            let op = parts[2];
            if let Val::A(v) = &a[0] {
                let mut r = to_e(&v[0], ew);
                for x in v.iter().skip(1) {
                    let y = to_e(x, ew);
                    r = match op {
                        "add" => bin(Op::Add, r, y),
                        "or" => bin(Op::Or, r, y),
                        "and" => bin(Op::And, r, y),
                        "xor" => bin(Op::Xor, r, y),
                        "mul" => bin(Op::Mul, r, y),
                        "umax" => ite(bin(Op::Ult, r, y), y, r),
                        "umin" => ite(bin(Op::Ult, r, y), r, y),
                        _ => return Err(format!("vector intrinsic {}", n)),
                    };
                }
                return Ok(Some(from_e(r)));
            }
        }
        if n.starts_with("x86.sse2.pmovmskb") {
            if let Val::A(v) = &a[0] {
                let mut r: Option<E> = None;
                for x in v.iter().rev() {
                    let b = extract(to_e(x, 8), 7, 1);
                    r = Some(match r {
                        None => b,
                        Some(h) => concat(h, b),
                    });
                }
                return Ok(Some(from_e(zext(r.unwrap(), 32))));
            }
        }
        let scalar = parts[..parts.len() - 1].join(".");
        if ew == 0 {
            return Err(format!("vector intrinsic {}", n));
        }
        let lanes = match &a[0] {
            Val::A(v) => v.len(),
            _ => 0,
        };
        let mut out = vec![];
        for i in 0..lanes {
            let args: Vec<Val> = a
                .iter()
                .map(|x| match x {
                    Val::A(v) => v[i].clone(),
                    o => o.clone(),
                })
                .collect();
            out.push(self.intr_val(st, &scalar, ew, args)?.ok_or("vector intrinsic")?);
        }
        Ok(Some(Val::A(Rc::new(out))))
    }

    fn prim(&mut self, st: &mut State, p: Prim, args: &[Opnd]) -> R<Step> {
        let cur = st.cur;
        macro_rules! conc {
            ($k:expr) => {
                match self.argi(st, &args[$k]) {
                    Val::I(v) => v,
                    Val::S(e) => {
                        self.concretize(st, &args[$k], e)?;
                        return Ok(Step::Redo);
                    }
                    _ => return Err("primitive arg".into()),
                }
            };
        }
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                finish_call(st.threads[cur].frames.last_mut().unwrap(), v, 0);
                return Ok(Step::Next);
            }};
        }
        match p {
            Prim::Sym => {
                let (a, n, np, nl) = (conc!(0), conc!(1), conc!(2), conc!(3));
                let name = String::from_utf8_lossy(&st.mem.read_lossy(np, nl)).into_owned();
                let v0 = st.nvars;
                st.nvars += n as u32;
                for i in 0..n {
                    let e = var_byte(v0 + i as u32);
                    st.mem.set_byte(a + i, Val::S(e)).map_err(flt)?;
                }
                st.trace.push(TraceItem { name: name.into(), var: v0, n: n as u32, choose: 0 });
                ret!(None)
            }
            Prim::Choose => {
                let n = conc!(0) as u32;
                if n <= 1 {
                    ret!(Some(Val::I(0)));
                }
                let (np, nl) = (conc!(1), conc!(2));
                let name: Rc<str> = String::from_utf8_lossy(&st.mem.read_lossy(np, nl)).into_owned().into();
                let v0 = st.nvars;
                st.nvars += 1;
                let v = var_byte(v0);
                st.trace.push(TraceItem { name, var: v0, n: 1, choose: n });
                self.note_fork(st);
                for k in (1..n).rev() {
                    let mut s = st.clone();
                    self.apply(&mut s, &[(v0, k as u8)]);
                    self.add_cons(&mut s, bin(Op::Eq, v, konst(8, k as u128)));
                    finish_call(s.threads[cur].frames.last_mut().unwrap(), Some(Val::I(k as u64)), 0);
                    self.push(s);
                }
                self.apply(st, &[(v0, 0)]);
                self.add_cons(st, bin(Op::Eq, v, konst(8, 0)));
                ret!(Some(Val::I(0)))
            }
            Prim::Assume => {
                match self.argi(st, &args[0]) {
                    Val::I(v) => {
                        if v & 0xff == 0 {
                            return Ok(Step::End(End::Killed));
                        }
                    }
                    Val::S(e) => {
                        let w = width(e);
                        let c = not1(bin(Op::Eq, e, konst(w, 0)));
                        if !self.holds_now(st, c) {
                            match self.sol.sat(&st.cons, c, false) {
                                None => return Ok(Step::End(End::Killed)),
                                Some(a) => self.apply(st, &a),
                            }
                        }
                        self.add_cons(st, c);
                    }
                    _ => return Err("assume arg".into()),
                }
                ret!(None)
            }
            Prim::Assert => {
                let v = self.argi(st, &args[0]);
                match v {
                    Val::I(v) => {
                        self.asserts_conc += 1;
                        if v & 0xff == 0 {
                            let (np, nl) = (conc!(1), conc!(2));
                            let m = String::from_utf8_lossy(&st.mem.read_lossy(np, nl)).into_owned();
                            self.violation(st, &m);
                            return Ok(Step::End(End::Killed));
                        }
                    }
                    Val::S(e) => {
                        self.asserts_sym += 1;
                        let w = width(e);
                        let bad = bin(Op::Eq, e, konst(w, 0));
                        if let Some(a) = self.sol.sat(&st.cons, bad, true) {
                            let (np, nl) = (conc!(1), conc!(2));
                            let m = String::from_utf8_lossy(&st.mem.read_lossy(np, nl)).into_owned();
                            let mut s = st.clone();
                            self.apply(&mut s, &a);
                            self.violation(&s, &m);
                            if shared().stopped() {
                                return Ok(Step::End(End::Stop));
                            }
                            // continue on the side where it holds
                            match self.sol.sat(&st.cons, not1(bad), false) {
                                None => return Ok(Step::End(End::Killed)),
                                Some(a) => self.apply(st, &a),
                            }
                        }
                        self.add_cons(st, not1(bad));
                    }
                    _ => return Err("assert arg".into()),
                }
                ret!(None)
            }
            Prim::Fail => {
                let (np, nl) = (conc!(0), conc!(1));
                let m = String::from_utf8_lossy(&st.mem.read_lossy(np, nl)).into_owned();
                self.violation(st, &m);
                Ok(Step::End(End::Killed))
            }
            Prim::Reach => {
                let (np, nl) = (conc!(0), conc!(1));
                let m = st.mem.read_lossy(np, nl);
                shared().reach(&m);
                ret!(None)
            }
            Prim::End => Ok(Step::End(End::Done)),
            Prim::ThreadNew => {
                let (f, a) = (conc!(0), conc!(1));
                let id = ((f - FN_BASE) / 16) as u32;
                let t = self.new_thread(st, id, vec![Val::I(a)])?;
                ret!(Some(Val::I(t as u64)))
            }
            Prim::Switch => {
                let t = conc!(0) as usize;
                if t >= st.threads.len() {
                    return Err("switch to unknown thread".into());
                }
                finish_call(st.threads[cur].frames.last_mut().unwrap(), None, 0);
                st.cur = t;
                Ok(Step::Jumped)
            }
            Prim::Cur => ret!(Some(Val::I(cur as u64))),
            Prim::Insts => ret!(Some(Val::I(st.insts))),
            Prim::Log => {
                if self.o.verbose {
                    let (np, nl) = (conc!(0), conc!(1));
                    let m = st.mem.read_lossy(np, nl);
                    eprintln!("[t{} i{}] {}", cur, st.insts, String::from_utf8_lossy(&m));
                }
                ret!(None)
            }
            Prim::Conc => {
                let v = conc!(0);
                ret!(Some(Val::I(v)))
            }
            Prim::IsSym => {
                let r = !matches!(self.argi(st, &args[0]), Val::I(_));
                ret!(Some(Val::I(r as u64)))
            }
            Prim::Malloc => {
                let n = conc!(0);
                if n > 1 << 28 {
                    return Err(format!("allocation of {} bytes", n));
                }
                let a = st.mem.malloc(n, 16);
                ret!(Some(Val::I(a)))
            }
            Prim::Calloc => {
                let n = conc!(0) * conc!(1);
                if n > 1 << 28 {
                    return Err(format!("allocation of {} bytes", n));
                }
                let a = st.mem.malloc(n, 16);
                st.mem.fill(a, 0, n).map_err(flt)?;
                ret!(Some(Val::I(a)))
            }
            Prim::Realloc => {
                let (o, n) = (conc!(0), conc!(1));
                if n > 1 << 28 {
                    return Err(format!("allocation of {} bytes", n));
                }
                let a = st.mem.malloc(n, 16);
                if o != 0 {
                    let k = st.mem.msize(o).min(n);
                    st.mem.copy(a, o, k).map_err(flt)?;
                    st.mem.mfree(o);
                }
                ret!(Some(Val::I(a)))
            }
            Prim::Free => {
                let a = conc!(0);
                st.mem.mfree(a);
                ret!(None)
            }
            Prim::Memalign => {
                let (pp, al, n) = (conc!(0), conc!(1), conc!(2));
                let a = st.mem.malloc(n, al);
                st.mem.store(pp, 8, a).map_err(flt)?;
                ret!(Some(Val::I(0)))
            }
            Prim::MallocUsable => {
                let a = conc!(0);
                let n = st.mem.msize(a);
                ret!(Some(Val::I(n)))
            }
            Prim::Memcmp => {
                let (a, b, n) = (conc!(0), conc!(1), conc!(2));
                let mut r = konst(32, 0);
                for i in (0..n).rev() {
                    let x = st.mem.byte(a + i).map_err(flt)?;
                    let y = st.mem.byte(b + i).map_err(flt)?;
                    if let (Val::I(x), Val::I(y)) = (&x, &y) {
                        if x != y {
                            r = konst(32, if x < y { 0xffff_ffff } else { 1 });
                        }
                        continue;
                    }
                    let (x, y) = (to_e(&x, 8), to_e(&y, 8));
                    let eq = bin(Op::Eq, x, y);
                    let lt = bin(Op::Ult, x, y);
                    r = ite(eq, r, ite(lt, konst(32, 0xffff_ffff), konst(32, 1)));
                }
                ret!(Some(from_e(r)))
            }
            Prim::Memcpy => {
                let (d, s, n) = (conc!(0), conc!(1), conc!(2));
                st.mem.copy(d, s, n).map_err(flt)?;
                ret!(Some(Val::I(d)))
            }
            Prim::Memset => {
                let (d, v, n) = (conc!(0), conc!(1), conc!(2));
                st.mem.fill(d, v as u8, n).map_err(flt)?;
                ret!(Some(Val::I(d)))
            }
            Prim::Strlen => {
                let a = conc!(0);
                let mut n = 0;
                loop {
                    match st.mem.byte(a + n).map_err(flt)? {
                        Val::I(0) => break,
                        Val::I(_) => {}
                        Val::S(e) => {
                            let z = bin(Op::Eq, e, konst(8, 0));
                            // fork: this byte is NUL / not
                            let cur_z = self.holds_now(st, z);
                            let other = if cur_z { not1(z) } else { z };
                            if let Some(mut s) = self.other_side(st, other) {
                                // make the decision concrete only for the NUL side; re-execute
                                if other == z {
                                    s.mem.set_byte(a + n, Val::I(0)).map_err(flt)?;
                                }
                                self.note_fork(st);
                                self.push(s);
                                self.add_cons(st, not1(other));
                            }
                            if cur_z {
                                break;
                            }
                        }
                        _ => {}
                    }
                    n += 1;
                    if n > 1 << 20 {
                        return Err("strlen".into());
                    }
                }
                ret!(Some(Val::I(n)))
            }
            Prim::Abort => {
                self.violation(st, "process aborted");
                Ok(Step::End(End::Killed))
            }
            Prim::FmtNum => unreachable!(),
            Prim::SipWrite => ret!(None),
            Prim::Panic => {
                // panic_fmt(fmt::Arguments, &Location)
                let mut msg = String::from("panic");
                if let (Some(Val::I(fa)), Some(Val::I(loc))) =
                    (args.first().map(|a| self.argi(st, a)), args.get(1).map(|a| self.argi(st, a)))
                {
                    if let (Ok(Val::I(p)), Ok(Val::I(l)), Ok(Val::I(line))) =
                        (st.mem.load(loc, 8), st.mem.load(loc + 8, 8), st.mem.load(loc + 16, 4))
                    {
                        if l < 300 {
                            let f = st.mem.read_lossy(p, l);
                            msg = format!("panic at {}:{}", String::from_utf8_lossy(&f), line);
                        }
                    }
                    // first literal piece
                    if let (Ok(Val::I(pp)), Ok(Val::I(pn))) = (st.mem.load(fa, 8), st.mem.load(fa + 8, 8)) {
                        if pn > 0 && pn < 20 {
                            if let (Ok(Val::I(sp)), Ok(Val::I(sl))) = (st.mem.load(pp, 8), st.mem.load(pp + 8, 8)) {
                                if sl < 300 {
                                    msg.push_str(": ");
                                    msg.push_str(&String::from_utf8_lossy(&st.mem.read_lossy(sp, sl)));
                                }
                            }
                        }
                    }
                }
                self.violation(st, &msg);
                Ok(Step::End(End::Killed))
            }
            Prim::Null => ret!(Some(Val::I(0))),
        }
    }
}

fn insert(agg: &mut Val, ix: &[u32], v: Val) {
    if let Val::A(x) = agg {
        let m = Rc::make_mut(x);
        if ix.len() == 1 {
            m[ix[0] as usize] = v;
        } else {
            insert(&mut m[ix[0] as usize], &ix[1..], v);
        }
    }
}

fn trunc_val(v: Val, fw: u32, w: u32) -> Val {
    if fw == w {
        return v;
    }
    match v {
        Val::S(e) => from_e(extract(e, 0, w)),
        v => from_u128(w, to_u128(&v).unwrap_or(0)),
    }
}

#[inline]
fn take(fr: &mut Frame, e: &Edge, tls: u64) {
    let n = e.copies.len();
    if n == 1 {
        let (d, o) = &e.copies[0];
        let v = match o {
            Opnd::R(r) => fr.regs[*r as usize].clone(),
            Opnd::C(v) => v.clone(),
            Opnd::Tls(o) => Val::I(tls.wrapping_add(*o)),
        };
        fr.regs[*d as usize] = v;
    } else if n > 1 {
        let tmp: Vec<Val> = e
            .copies
            .iter()
            .map(|(_, o)| match o {
                Opnd::R(r) => fr.regs[*r as usize].clone(),
                Opnd::C(v) => v.clone(),
                Opnd::Tls(o) => Val::I(tls.wrapping_add(*o)),
            })
            .collect();
        for ((d, _), v) in e.copies.iter().zip(tmp) {
            fr.regs[*d as usize] = v;
        }
    }
    fr.pc = e.pc;
}

/// write a call's result and move past it (or along the invoke's normal edge)
fn finish_call(fr: &mut Frame, rv: Option<Val>, tls: u64) {
    let func = fr.f;
    let ins = &func.code[fr.pc as usize];
    if ins.dst != u32::MAX {
        fr.regs[ins.dst as usize] = rv.unwrap_or(Val::I(0));
    }
    match &ins.k {
        K::Call(_, _, _, Some(e)) => take(fr, e, tls),
        _ => fr.pc += 1,
    }
}

extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
