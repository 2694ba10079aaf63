//! Textual LLVM IR: module index plus lazily parsed function bodies.
use crate::expr::FxMap;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Struct(Vec<TyId>, bool),
    Array(u64, TyId),
    Vector(u64, TyId),
    Label,
    Metadata,
    Func,
    Opaque,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    I(u64),
    W(u64, u64),
    S(crate::expr::E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(Val),
    Tls(u64),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    PtrToInt,
    IntToPtr,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}
#[derive(Debug)]
pub struct Edge {
    pub pc: u32,
    pub copies: Box<[(u32, Opnd)]>,
}
#[derive(Debug)]
pub enum Callee {
    Direct(u32),
    Ind(Opnd),
    Intr(Intr),
    Asm(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    Trap,
    Other(String, u32),
}
#[derive(Debug)]
pub enum K {
    Bin(BinOp, u8, Opnd, Opnd),
    BinG(BinOp, TyId, Opnd, Opnd),
    ICmp(Pred, u8, Opnd, Opnd),
    ICmpG(Pred, TyId, Opnd, Opnd),
    FCmp(String, TyId, Opnd, Opnd),
    FNeg(TyId, Opnd),
    Cast(Cast, TyId, TyId, Opnd),
    Select(TyId, TyId, Opnd, Opnd, Opnd),
    LoadI(u8, u8, Opnd), // bytes, width
    StoreI(u8, u8, Opnd, Opnd),
    Load(TyId, Opnd),
    Store(TyId, Opnd, Opnd),
    Alloca(u64, u64),
    Gep(Opnd, i64, Box<[(Opnd, u8, i64)]>),
    Br(Edge),
    CondBr(Opnd, Edge, Edge),
    Switch(Opnd, u8, Box<[(u64, u32)]>, Box<[Edge]>), // edges[0] = default
    Ret(Option<Opnd>),
    Unreachable,
    Call(Callee, Box<[Opnd]>, TyId, Option<Edge>),
    ExtractValue(Opnd, Box<[u32]>),
    InsertValue(TyId, Opnd, Opnd, Box<[u32]>),
    ExtractElement(Opnd, Opnd),
    InsertElement(TyId, Opnd, Opnd, Opnd),
    Shuffle(u32, Opnd, Opnd, Box<[u32]>),
    Copy(Opnd),
    CmpXchg(u8, Opnd, Opnd, Opnd),
    AtomicRmw(String, u8, Opnd, Opnd),
    Nop,
    LandingPad,
}
#[derive(Debug)]
pub struct Inst {
    pub dst: u32, // u32::MAX = none
    pub k: K,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub nregs: u32,
    pub nparams: u32,
    pub code: Vec<Inst>,
}
pub struct FnDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range, from "define" line
    pub parsed: Option<&'static Func>,
}
pub struct Global {
    pub name: String,
    pub addr: u64, // for TLS: offset
    pub tls: bool,
    pub size: u64,
    pub init: (usize, usize),
    pub ty: TyId,
    pub has_init: bool,
}

pub const GLOBAL_BASE: u64 = 1 << 32;
pub const HEAP_BASE: u64 = 2 << 32;
pub const STACK_BASE: u64 = 3 << 32;
pub const FN_BASE: u64 = 4 << 32;

pub struct Module {
    pub text: &'static [u8],
    pub types: Vec<Ty>,
    tmap: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub funcs: Vec<FnDecl>,
    pub fmap: FxMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: FxMap<String, u32>,
    pub global_end: u64,
    pub tls_size: u64,
}

pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
    /// may whitespace skipping cross a line end?
    pub one_line: bool,
}
fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> P<'a> {
    pub fn ws(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b'\n' && self.one_line {
                break;
            }
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.i += 1
            } else if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1
                }
            } else {
                break;
            }
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected {:?}", c as char));
        }
    }
    pub fn fail(&self, m: &str) -> ! {
        let a = self.i.saturating_sub(200);
        let b = (self.i + 200).min(self.s.len());
        eprintln!(
            "rsym: IR parse error: {} at <<{}>>>HERE<<<{}>>",
            m,
            String::from_utf8_lossy(&self.s[a..self.i.min(self.s.len())]),
            String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..b])
        );
        std::process::exit(73)
    }
    pub fn peek_word(&mut self) -> &'a [u8] {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && is_id(self.s[j]) {
            j += 1
        }
        &self.s[self.i..j]
    }
    pub fn word(&mut self) -> &'a [u8] {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    pub fn eat_word(&mut self, w: &[u8]) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    pub fn num(&mut self) -> i128 {
        let w = self.word();
        match std::str::from_utf8(w).unwrap().parse::<i128>() {
            Ok(v) => v,
            Err(_) => {
                // large unsigned
                std::str::from_utf8(w)
                    .unwrap()
                    .parse::<u128>()
                    .map(|v| v as i128)
                    .unwrap_or_else(|_| self.fail("number"))
            }
        }
    }
    /// name after a sigil (% or @), possibly quoted
    pub fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1
            }
            self.i = j + 1;
            String::from_utf8_lossy(&self.s[st..j]).into_owned()
        } else {
            let st = self.i;
            while self.i < self.s.len() && is_id(self.s[self.i]) {
                self.i += 1
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    /// skip a balanced group starting at an opening bracket
    pub fn skip_group(&mut self) {
        let mut d = 0;
        loop {
            if self.i >= self.s.len() {
                self.fail("group");
            }
            match self.s[self.i] {
                b'(' | b'[' | b'{' | b'<' => d += 1,
                b')' | b']' | b'}' | b'>' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
}

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tmap.get(&t) {
            return i;
        }
        let i = self.types.len() as u32;
        self.types.push(t.clone());
        self.tmap.insert(t, i);
        i
    }
    pub fn align_of(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|x| self.align_of(*x)).max().unwrap_or(1)
                }
            }
            Ty::Array(_, e) => self.align_of(*e),
            Ty::Vector(..) => self.size_of(t).next_power_of_two().max(1),
            _ => 1,
        }
    }
    /// allocation size
    pub fn size_of(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align_of(t);
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for x in f {
                    if !packed {
                        let a = self.align_of(*x);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size_of(*x);
                }
                let a = self.align_of(t);
                (o + a - 1) / a * a
            }
            Ty::Array(n, e) => n * self.size_of(*e),
            Ty::Vector(n, e) => {
                let w = self.bits(*e) as u64 * n;
                let b = (w + 7) / 8;
                b.next_power_of_two()
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, t: TyId, idx: u64) -> (u64, TyId) {
        match &self.types[t as usize] {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (i, x) in f.iter().enumerate() {
                    if !packed {
                        let a = self.align_of(*x);
                        o = (o + a - 1) / a * a;
                    }
                    if i as u64 == idx {
                        return (o, *x);
                    }
                    o += self.size_of(*x);
                }
                panic!("field_off")
            }
            Ty::Array(_, e) | Ty::Vector(_, e) => (idx * self.size_of(*e), *e),
            _ => panic!("field_off on scalar"),
        }
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match &self.types[t as usize] {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Vector(n, e) => *n as u32 * self.bits(*e),
            t => panic!("bits of {:?}", t),
        }
    }
    pub fn is_scalar(&self, t: TyId) -> bool {
        matches!(self.types[t as usize], Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double)
    }

    pub fn load(text: &'static [u8]) -> Module {
        let mut m = Module {
            text,
            types: vec![],
            tmap: Default::default(),
            named: Default::default(),
            funcs: vec![],
            fmap: Default::default(),
            globals: vec![],
            gmap: Default::default(),
            global_end: GLOBAL_BASE,
            tls_size: 16,
        };
        m.index();
        m
    }

    fn index(&mut self) {
        let t = self.text;
        let mut i = 0;
        let n = t.len();
        let mut gaddr = GLOBAL_BASE + 0x1000;
        let mut aliases = vec![];
        while i < n {
            let e = memchr(b'\n', &t[i..]).map(|x| i + x).unwrap_or(n);
            let line = &t[i..e];
            if line.is_empty() {
                i = e + 1;
                continue;
            }
            match line[0] {
                b'd' if line.starts_with(b"define") => {
                    // find "\n}\n"
                    let mut j = e;
                    loop {
                        let k = memchr(b'\n', &t[j + 1..]).map(|x| j + 1 + x).unwrap_or(n);
                        if t[j + 1] == b'}' {
                            j = k;
                            break;
                        }
                        j = k;
                        if j >= n {
                            break;
                        }
                    }
                    let mut p = P { s: &t[i..j], i: 0, one_line: false };
                    p.i = at_sign(p.s) + 1;
                    let nm = p.name();
                    self.add_fn(nm, Some((i, j)));
                    i = j + 1;
                    continue;
                }
                b'd' if line.starts_with(b"declare") => {
                    let mut p = P { s: line, i: 0, one_line: false };
                    p.i = at_sign(p.s) + 1;
                    let nm = p.name();
                    self.add_fn(nm, None);
                }
                b'@' => {
                    let mut p = P { s: &t[i..e], i: 1, one_line: false };
                    let nm = p.name();
                    p.expect(b'=');
                    let mut tls = false;
                    let mut ext = false;
                    let mut weak = false;
                    let mut alias = false;
                    loop {
                        let w = p.peek_word();
                        match w {
                            b"global" | b"constant" => {
                                p.word();
                                break;
                            }
                            b"alias" => {
                                p.word();
                                alias = true;
                                break;
                            }
                            b"thread_local" => {
                                p.word();
                                tls = true;
                                if p.peek() == b'(' {
                                    p.skip_group()
                                }
                            }
                            b"external" => {
                                p.word();
                                ext = true
                            }
                            b"extern_weak" => {
                                p.word();
                                ext = true;
                                weak = true
                            }
                            b"" => p.fail("global linkage"),
                            _ => {
                                p.word();
                                if p.peek() == b'(' {
                                    p.skip_group()
                                }
                            }
                        }
                    }
                    let ty = self.parse_ty(&mut p);
                    if alias {
                        if p.peek() == b'(' {
                            p.skip_group();
                        }
                        p.expect(b',');
                        aliases.push((nm, i + p.i, e));
                        i = e + 1;
                        continue;
                    }
                    let has_init = !ext;
                    let st = i + p.i;
                    let size = self.size_of(ty);
                    // alignment: from type, at least 16
                    let al = 16u64.max(self.align_of(ty));
                    let addr = if weak {
                        0
                    } else if tls {
                        self.tls_size = (self.tls_size + al - 1) / al * al;
                        let a = self.tls_size;
                        self.tls_size += size;
                        a
                    } else {
                        gaddr = (gaddr + al - 1) / al * al;
                        let a = gaddr;
                        gaddr += size.max(1);
                        a
                    };
                    let gi = self.globals.len() as u32;
                    self.globals.push(Global {
                        name: nm.clone(),
                        addr,
                        tls,
                        size,
                        init: (st, e),
                        ty,
                        has_init,
                    });
                    self.gmap.insert(nm, gi);
                }
                b'%' => {
                    let mut p = P { s: &t[i..e], i: 1, one_line: false };
                    let nm = p.name();
                    p.expect(b'=');
                    p.eat_word(b"type");
                    // forward refs: types are printed in dependency-agnostic order; resolve lazily
                    if p.eat_word(b"opaque") {
                        let id = self.ty(Ty::Opaque);
                        self.named.insert(nm, id);
                    } else {
                        self.pending_named(nm, i + p.i, e);
                    }
                }
                _ => {}
            }
            i = e + 1;
        }
        for g in 0..self.globals.len() {
            if self.globals[g].addr == 0 && !self.globals[g].tls {
                if let Some(&f) = self.fmap.get(&format!("simos_{}", self.globals[g].name)) {
                    self.globals[g].addr = FN_BASE + (f as u64) * 16;
                }
            }
        }
        for (nm, st, e) in aliases {
            let mut p = P { s: &t[..e], i: st, one_line: false };
            p.ws();
            let pt = self.parse_ty(&mut p);
            let o = self.parse_const(&mut p, pt);
            let addr = match o {
                Opnd::C(Val::I(a)) => a,
                _ => p.fail("alias"),
            };
            if addr >= FN_BASE && (addr - FN_BASE) / 16 < self.funcs.len() as u64 {
                self.fmap.insert(nm, ((addr - FN_BASE) / 16) as u32);
                continue;
            }
            let gi = self.globals.len() as u32;
            let ty = self.ty(Ty::Int(8));
            self.globals.push(Global {
                name: nm.clone(),
                addr,
                tls: false,
                size: 0,
                init: (0, 0),
                ty,
                has_init: false,
            });
            self.gmap.insert(nm, gi);
        }
        self.global_end = gaddr;
    }
    fn pending_named(&mut self, nm: String, st: usize, e: usize) {
        PENDING.with(|p| p.borrow_mut().insert(nm, (st, e)));
    }
    fn add_fn(&mut self, nm: String, body: Option<(usize, usize)>) {
        let id = self.funcs.len() as u32;
        self.fmap.insert(nm.clone(), id);
        self.funcs.push(FnDecl { name: nm, body, parsed: None });
    }

    pub fn parse_ty(&mut self, p: &mut P) -> TyId {
        let c = p.peek();
        let t = match c {
            b'{' => {
                p.i += 1;
                let f = self.ty_list(p, b'}');
                self.ty(Ty::Struct(f, false))
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let f = self.ty_list(p, b'}');
                    p.expect(b'>');
                    self.ty(Ty::Struct(f, true))
                } else {
                    let n = p.num() as u64;
                    p.eat_word(b"x");
                    let e = self.parse_ty(p);
                    p.expect(b'>');
                    self.ty(Ty::Vector(n, e))
                }
            }
            b'[' => {
                p.i += 1;
                let n = p.num() as u64;
                p.eat_word(b"x");
                let e = self.parse_ty(p);
                p.expect(b']');
                self.ty(Ty::Array(n, e))
            }
            b'%' => {
                p.i += 1;
                let nm = p.name();
                match self.named.get(&nm) {
                    Some(&t) => t,
                    None => {
                        let r = PENDING.with(|q| q.borrow().get(&nm).copied());
                        let r = r.or_else(|| find_type(self.text, &nm));
                        let (st, e) = r.unwrap_or_else(|| p.fail("unknown named type"));
                        let text = self.text;
                        let mut q = P { s: &text[..e], i: st, one_line: false };
                        q.ws();
                        let t = self.parse_ty(&mut q);
                        self.named.insert(nm, t);
                        t
                    }
                }
            }
            _ => {
                let w = p.word();
                match w {
                    b"void" => self.ty(Ty::Void),
                    b"ptr" => {
                        if p.peek_word() == b"addrspace" {
                            p.word();
                            p.skip_group();
                        }
                        self.ty(Ty::Ptr)
                    }
                    b"float" => self.ty(Ty::Float),
                    b"double" => self.ty(Ty::Double),
                    b"label" => self.ty(Ty::Label),
                    b"metadata" => self.ty(Ty::Metadata),
                    b"x86_fp80" | b"fp128" | b"half" | b"bfloat" => self.ty(Ty::Opaque),
                    _ if w.len() > 1 && w[0] == b'i' => {
                        let n: u32 = std::str::from_utf8(&w[1..])
                            .unwrap()
                            .parse()
                            .unwrap_or_else(|_| p.fail("int type"));
                        self.ty(Ty::Int(n))
                    }
                    _ => p.fail("type"),
                }
            }
        };
        t
    }
    fn ty_list(&mut self, p: &mut P, end: u8) -> Vec<TyId> {
        let mut v = vec![];
        if p.eat(end) {
            return v;
        }
        loop {
            v.push(self.parse_ty(p));
            if p.eat(end) {
                return v;
            }
            p.expect(b',');
        }
    }

    pub fn zero(&self, t: TyId) -> Val {
        match &self.types[t as usize] {
            Ty::Int(w) if *w > 64 => Val::W(0, 0),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|x| self.zero(*x)).collect())),
            Ty::Array(n, e) | Ty::Vector(n, e) => {
                let z = self.zero(*e);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            _ => Val::I(0),
        }
    }
    pub fn mk_int(&self, w: u32, v: u128) -> Val {
        let v = v & crate::expr::mask(w);
        if w <= 64 {
            Val::I(v as u64)
        } else {
            Val::W(v as u64, (v >> 64) as u64)
        }
    }

    pub fn fn_addr(id: u32) -> u64 {
        FN_BASE + (id as u64) * 16
    }

    fn cval(&self, o: Opnd, p: &P) -> Val {
        match o {
            Opnd::C(v) => v,
            _ => p.fail("constant aggregate with non-constant member"),
        }
    }

    pub fn parse_const(&mut self, p: &mut P, t: TyId) -> Opnd {
        let c = p.peek();
        match c {
            b'@' => {
                p.i += 1;
                let nm = p.name();
                if let Some(&g) = self.gmap.get(&nm) {
                    let g = &self.globals[g as usize];
                    if g.tls {
                        return Opnd::Tls(g.addr);
                    }
                    return Opnd::C(Val::I(g.addr));
                }
                if let Some(&f) = self.fmap.get(&nm) {
                    return Opnd::C(Val::I(Module::fn_addr(f)));
                }
                p.fail(&format!("unknown global {}", nm))
            }
            b'c' if p.s.get(p.i + 1) == Some(&b'"') => {
                p.i += 2;
                let mut v = vec![];
                loop {
                    let ch = p.s[p.i];
                    if ch == b'"' {
                        p.i += 1;
                        break;
                    }
                    if ch == b'\\' && p.s[p.i + 1] == b'\\' {
                        v.push(Val::I(b'\\' as u64));
                        p.i += 2;
                    } else if ch == b'\\' {
                        let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                        v.push(Val::I(u64::from_str_radix(h, 16).unwrap()));
                        p.i += 3;
                    } else {
                        v.push(Val::I(ch as u64));
                        p.i += 1;
                    }
                }
                Opnd::C(Val::A(Rc::new(v)))
            }
            b'{' | b'[' => {
                p.i += 1;
                self.agg(p, if c == b'{' { b'}' } else { b']' })
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let r = self.agg(p, b'}');
                    p.expect(b'>');
                    r
                } else {
                    self.agg(p, b'>')
                }
            }
            _ => {
                let save = p.i;
                let w = p.word();
                match w {
                    b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"none" => {
                        Opnd::C(self.zero(t))
                    }
                    b"true" => Opnd::C(Val::I(1)),
                    b"false" => Opnd::C(Val::I(0)),
                    b"splat" => {
                        p.expect(b'(');
                        let et = self.parse_ty(p);
                        let o = self.parse_const(p, et);
                        p.expect(b')');
                        let v = self.cval(o, p);
                        let n = match self.types[t as usize] {
                            Ty::Vector(n, _) => n,
                            _ => p.fail("splat"),
                        };
                        Opnd::C(Val::A(Rc::new(vec![v; n as usize])))
                    }
                    b"getelementptr" => {
                        while p.peek() != b'(' {
                            p.word();
                            if p.peek() == b'(' && p.s[..p.i].ends_with(b"inrange") {
                                p.skip_group();
                            }
                        }
                        p.expect(b'(');
                        let bt = self.parse_ty(p);
                        p.expect(b',');
                        let pt = self.parse_ty(p);
                        let base = self.parse_const(p, pt);
                        let mut off = 0i64;
                        let mut cur = bt;
                        let mut first = true;
                        while p.eat(b',') {
                            p.eat_word(b"inrange");
                            let it = self.parse_ty(p);
                            let ix = self.parse_const(p, it);
                            let v = match ix {
                                Opnd::C(Val::I(v)) => {
                                    crate::expr::sext128(v as u128, self.bits(it)) as i64
                                }
                                _ => p.fail("gep idx"),
                            };
                            if first {
                                off += v * self.size_of(cur) as i64;
                                first = false;
                            } else {
                                let is_arr =
                                    matches!(self.types[cur as usize], Ty::Array(..) | Ty::Vector(..));
                                if is_arr {
                                    let (_, e) = self.field_off(cur, 0);
                                    off += v * self.size_of(e) as i64;
                                    cur = e;
                                } else {
                                    let (o, e) = self.field_off(cur, v as u64);
                                    off += o as i64;
                                    cur = e;
                                }
                            }
                        }
                        p.expect(b')');
                        match base {
                            Opnd::C(Val::I(b)) => Opnd::C(Val::I(b.wrapping_add(off as u64))),
                            Opnd::Tls(b) => Opnd::Tls(b.wrapping_add(off as u64)),
                            _ => p.fail("gep base"),
                        }
                    }
                    b"ptrtoint" | b"inttoptr" | b"bitcast" | b"trunc" | b"zext" | b"sext"
                    | b"addrspacecast" => {
                        while p.peek() != b'(' {
                            p.word();
                        }
                        p.expect(b'(');
                        let st = self.parse_ty(p);
                        let o = self.parse_const(p, st);
                        if !p.eat_word(b"to") {
                            p.fail("cast to")
                        }
                        let dt = self.parse_ty(p);
                        p.expect(b')');
                        match o {
                            Opnd::C(Val::I(v)) => {
                                let v = if w == b"sext" {
                                    crate::expr::sext128(v as u128, self.bits(st)) as u128
                                } else {
                                    v as u128
                                };
                                Opnd::C(self.mk_int(self.bits(dt), v))
                            }
                            o => o,
                        }
                    }
                    b"sub" | b"add" | b"mul" | b"and" | b"or" | b"xor" | b"shl" | b"lshr" => {
                        while p.peek() != b'(' {
                            p.word();
                        }
                        p.expect(b'(');
                        let at = self.parse_ty(p);
                        let a = self.parse_const(p, at);
                        p.expect(b',');
                        let bt = self.parse_ty(p);
                        let b = self.parse_const(p, bt);
                        p.expect(b')');
                        match (a, b) {
                            (Opnd::C(Val::I(x)), Opnd::C(Val::I(y))) => {
                                let (x, y) = (x as u128, y as u128);
                                let r = match w {
                                    b"sub" => x.wrapping_sub(y),
                                    b"add" => x.wrapping_add(y),
                                    b"mul" => x.wrapping_mul(y),
                                    b"and" => x & y,
                                    b"or" => x | y,
                                    b"shl" => x << y,
                                    b"lshr" => x >> y,
                                    _ => x ^ y,
                                };
                                Opnd::C(self.mk_int(self.bits(at), r))
                            }
                            _ => p.fail("const binop"),
                        }
                    }
                    b"blockaddress" | b"dso_local_equivalent" | b"no_cfi" => p.fail("const kind"),
                    _ => {
                        // number
                        p.i = save;
                        match self.types[t as usize] {
                            Ty::Int(bw) => {
                                let v = p.num();
                                Opnd::C(self.mk_int(bw, v as u128))
                            }
                            Ty::Double | Ty::Float => {
                                let isd = self.types[t as usize] == Ty::Double;
                                let st = p.i;
                                while p.i < p.s.len()
                                    && (is_id(p.s[p.i]) || p.s[p.i] == b'+')
                                {
                                    p.i += 1
                                }
                                let s = std::str::from_utf8(&p.s[st..p.i]).unwrap();
                                let bits = if let Some(h) = s.strip_prefix("0x") {
                                    u64::from_str_radix(h, 16).unwrap()
                                } else {
                                    s.parse::<f64>().unwrap_or_else(|_| p.fail("float")).to_bits()
                                };
                                if isd {
                                    Opnd::C(Val::I(bits))
                                } else {
                                    Opnd::C(Val::I((f64::from_bits(bits) as f32).to_bits() as u64))
                                }
                            }
                            _ => p.fail("constant"),
                        }
                    }
                }
            }
        }
    }
    fn agg(&mut self, p: &mut P, end: u8) -> Opnd {
        let mut v = vec![];
        if !p.eat(end) {
            loop {
                let t = self.parse_ty(p);
                let o = self.parse_const(p, t);
                v.push(self.cval(o, p));
                if p.eat(end) {
                    break;
                }
                p.expect(b',');
            }
        }
        Opnd::C(Val::A(Rc::new(v)))
    }

    pub fn func(&mut self, id: u32) -> Option<&'static Func> {
        if let Some(f) = self.funcs[id as usize].parsed {
            return Some(f);
        }
        let (s, e) = self.funcs[id as usize].body?;
        let f = FnParser::new(self, id, s, e).parse();
        let f: &'static Func = Box::leak(Box::new(f));
        self.funcs[id as usize].parsed = Some(f);
        Some(f)
    }
}

thread_local! {
    static PENDING: std::cell::RefCell<HashMap<String,(usize,usize)>> = Default::default();
}

fn find_type(text: &[u8], nm: &str) -> Option<(usize, usize)> {
    // named types are printed before globals; scan lines starting with '%'
    let pat1 = format!("%\"{}\" = type ", nm);
    let pat2 = format!("%{} = type ", nm);
    let mut i = 0;
    while i < text.len() {
        let e = memchr(b'\n', &text[i..]).map(|x| i + x).unwrap_or(text.len());
        let l = &text[i..e];
        if l.starts_with(pat1.as_bytes()) {
            return Some((i + pat1.len(), e));
        }
        if l.starts_with(pat2.as_bytes()) {
            return Some((i + pat2.len(), e));
        }
        i = e + 1;
    }
    None
}
fn at_sign(s: &[u8]) -> usize {
    let mut i = 0;
    while i < s.len() {
        match s[i] {
            b'@' => return i,
            b'"' => {
                i += 1;
                while s[i] != b'"' {
                    i += 1
                }
            }
            _ => {}
        }
        i += 1;
    }
    panic!("no @")
}
pub fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    extern "C" {
        fn memchr(s: *const u8, c: i32, n: usize) -> *const u8;
    }
    let r = unsafe { memchr(s.as_ptr(), c as i32, s.len()) };
    if r.is_null() {
        None
    } else {
        Some(r as usize - s.as_ptr() as usize)
    }
}

struct RawEdge {
    from: u32,
    to: String,
}
struct FnParser<'m> {
    m: &'m mut Module,
    id: u32,
    p: P<'static>,
    regs: HashMap<String, u32>,
    nregs: u32,
    code: Vec<Inst>,
    cur_label: u32,
    labels: HashMap<String, u32>, // name -> block index
    starts: Vec<u32>,
    phis: Vec<Vec<(u32, Vec<(Opnd, String)>)>>,
    edges: Vec<RawEdge>,
}

impl<'m> FnParser<'m> {
    fn new(m: &'m mut Module, id: u32, s: usize, e: usize) -> Self {
        let text = m.text;
        FnParser {
            m,
            id,
            p: P { s: &text[s..e], i: 0, one_line: false },
            regs: Default::default(),
            nregs: 0,
            code: vec![],
            cur_label: 0,
            labels: Default::default(),
            starts: vec![],
            phis: vec![],
            edges: vec![],
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn value(&mut self, t: TyId) -> Opnd {
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            return Opnd::R(self.reg(&n));
        }
        self.m.parse_const(&mut self.p, t)
    }
    fn tval(&mut self) -> (TyId, Opnd) {
        let t = self.m.parse_ty(&mut self.p);
        self.skip_attrs();
        let v = self.value(t);
        (t, v)
    }
    /// skip parameter / call-site attributes
    fn skip_attrs(&mut self) {
        loop {
            let c = self.p.peek();
            if c == b'#' {
                self.p.i += 1;
                self.p.word();
                continue;
            }
            if c == b'"' {
                self.p.i += 1;
                while self.p.s[self.p.i] != b'"' {
                    self.p.i += 1
                }
                self.p.i += 1;
                if self.p.peek() == b'=' {
                    self.p.i += 1;
                    self.p.ws();
                    self.p.i += 1;
                    while self.p.s[self.p.i] != b'"' {
                        self.p.i += 1
                    }
                    self.p.i += 1;
                }
                continue;
            }
            let w = self.p.peek_word();
            let is_attr = matches!(
                w,
                b"noundef" | b"zeroext" | b"signext" | b"inreg" | b"noalias" | b"nocapture" | b"nonnull"
                | b"readonly" | b"readnone" | b"writeonly" | b"returned" | b"nofree" | b"nest" | b"immarg"
                | b"writable" | b"dead_on_unwind" | b"dead_on_return" | b"swiftself" | b"allocptr" | b"allocalign"
                | b"noreturn" | b"nounwind" | b"cold" | b"hot" | b"inlinehint" | b"noinline" | b"alwaysinline"
                | b"willreturn" | b"nosync" | b"mustprogress" | b"norecurse" | b"uwtable" | b"optsize" | b"minsize"
                | b"speculatable" | b"nocallback" | b"convergent" | b"returns_twice" | b"nobuiltin" | b"builtin"
                | b"dereferenceable" | b"dereferenceable_or_null" | b"align" | b"sret" | b"byval" | b"byref"
                | b"range" | b"captures" | b"initializes" | b"memory" | b"allockind" | b"allocsize" | b"nofpclass"
                | b"elementtype" | b"nocreateundeforpoison" | b"nooutline" | b"nodivergencesource" | b"vscale_range"
            );
            if !is_attr {
                return;
            }
            self.p.word();
            if w == b"align" && self.p.peek() != b'(' {
                self.p.word();
                continue;
            }
            if self.p.peek() == b'(' {
                // careful: "noundef (" can't occur before a value; function types are consumed elsewhere
                self.p.skip_group();
            }
        }
    }
    fn edge(&mut self, to: String) -> Edge {
        let i = self.edges.len() as u32;
        self.edges.push(RawEdge { from: self.cur_label, to });
        Edge { pc: i, copies: Box::new([]) }
    }
    fn label(&mut self) -> Edge {
        if !self.p.eat_word(b"label") {
            self.p.fail("label");
        }
        self.p.expect(b'%');
        let n = self.p.name();
        self.edge(n)
    }
    fn emit(&mut self, dst: u32, k: K) {
        self.code.push(Inst { dst, k });
    }

    fn parse(mut self) -> Func {
        // header
        let at = at_sign(self.p.s);
        self.p.i = at + 1;
        self.p.name();
        self.p.expect(b'(');
        let mut np = 0u32;
        if !self.p.eat(b')') {
            loop {
                if self.p.peek() == b'.' {
                    self.p.i += 3;
                } else {
                    let _t = self.m.parse_ty(&mut self.p);
                    self.skip_attrs();
                    let n = if self.p.peek() == b'%' {
                        self.p.i += 1;
                        self.p.name()
                    } else {
                        np.to_string()
                    };
                    let r = self.reg(&n);
                    assert_eq!(r, np);
                    np += 1;
                }
                if self.p.eat(b')') {
                    break;
                }
                self.p.expect(b',');
            }
        }
        // skip to '{' that ends the header line
        let nl = memchr(b'\n', &self.p.s[self.p.i..]).unwrap() + self.p.i;
        self.p.i = nl;
        // label scan
        let text = self.p.s;
        let mut i = nl + 1;
        let mut bi = 0u32;
        // the first block may have an explicit label
        let mut first = true;
        while i < text.len() {
            let e = memchr(b'\n', &text[i..]).map(|x| x + i).unwrap_or(text.len());
            let l = &text[i..e];
            if !l.is_empty() && l[0] != b' ' && l[0] != b'}' && l[0] != b';' {
                let nm = if l[0] == b'"' {
                    let k = memchr(b'"', &l[1..]).unwrap();
                    Some(String::from_utf8_lossy(&l[1..1 + k]).into_owned())
                } else {
                    memchr(b':', l).map(|k| String::from_utf8_lossy(&l[..k]).into_owned())
                };
                if let Some(nm) = nm {
                    if !first {
                        bi += 1;
                    }
                    self.labels.insert(nm, bi);
                    first = false;
                }
            } else if !l.is_empty() && l[0] == b' ' {
                first = false;
            }
            i = e + 1;
        }
        let nb = bi as usize + 1;
        self.starts = vec![0; nb];
        self.phis = (0..nb).map(|_| vec![]).collect();
        self.cur_label = 0;
        let mut started = false;
        let mut pos = nl + 1;
        while pos < text.len() {
            let e = memchr(b'\n', &text[pos..]).map(|x| x + pos).unwrap_or(text.len());
            let l = &text[pos..e];
            if l.is_empty() || l[0] == b'}' || l[0] == b';' {
                pos = e + 1;
                continue;
            }
            if l[0] != b' ' {
                // label
                let nm = if l[0] == b'"' {
                    let k = memchr(b'"', &l[1..]).unwrap();
                    String::from_utf8_lossy(&l[1..1 + k]).into_owned()
                } else {
                    let k = memchr(b':', l).unwrap();
                    String::from_utf8_lossy(&l[..k]).into_owned()
                };
                self.cur_label = self.labels[&nm];
                self.starts[self.cur_label as usize] = self.code.len() as u32;
                started = true;
                pos = e + 1;
                continue;
            }
            if !started {
                started = true;
                self.starts[0] = 0;
            }
            self.p.i = pos;
            self.p.one_line = true;
            self.inst();
            let cur = self.p.i;
            pos = memchr(b'\n', &text[cur..]).map(|x| x + cur + 1).unwrap_or(text.len());
        }
        // resolve edges
        let ne = self.edges.len();
        let mut resolved: Vec<Option<Edge>> = Vec::with_capacity(ne);
        for i in 0..ne {
            let (from, to) = (self.edges[i].from, self.edges[i].to.clone());
            let tb = *self.labels.get(&to).unwrap_or_else(|| {
                eprintln!("rsym: unknown label {}", to);
                std::process::exit(73)
            });
            let mut copies = vec![];
            for (dst, inc) in &self.phis[tb as usize] {
                let mut found = false;
                for (o, lab) in inc {
                    let lb = self.labels.get(lab).copied().unwrap_or(0);
                    if lb == from {
                        copies.push((*dst, o.clone()));
                        found = true;
                        break;
                    }
                }
                assert!(found, "phi edge");
            }
            resolved.push(Some(Edge {
                pc: self.starts[tb as usize],
                copies: copies.into_boxed_slice(),
            }));
        }
        let mut fix = |e: &mut Edge| *e = resolved[e.pc as usize].take().unwrap();
        for ins in self.code.iter_mut() {
            match &mut ins.k {
                K::Br(e) => fix(e),
                K::CondBr(_, a, b) => {
                    fix(a);
                    fix(b)
                }
                K::Switch(_, _, _, es) => {
                    for e in es.iter_mut() {
                        fix(e)
                    }
                }
                K::Call(_, _, _, Some(e)) => fix(e),
                _ => {}
            }
        }
        Func { id: self.id, nregs: self.nregs, nparams: np, code: self.code }
    }

    fn inst(&mut self) {
        let mut dst = u32::MAX;
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            dst = self.reg(&n);
            self.p.expect(b'=');
        }
        let w = self.p.word();
        match w {
            b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"and" | b"or" | b"xor"
            | b"shl" | b"lshr" | b"ashr" | b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
                let op = match w {
                    b"add" => BinOp::Add,
                    b"sub" => BinOp::Sub,
                    b"mul" => BinOp::Mul,
                    b"udiv" => BinOp::UDiv,
                    b"sdiv" => BinOp::SDiv,
                    b"urem" => BinOp::URem,
                    b"srem" => BinOp::SRem,
                    b"and" => BinOp::And,
                    b"or" => BinOp::Or,
                    b"xor" => BinOp::Xor,
                    b"shl" => BinOp::Shl,
                    b"lshr" => BinOp::LShr,
                    b"ashr" => BinOp::AShr,
                    b"fadd" => BinOp::FAdd,
                    b"fsub" => BinOp::FSub,
                    b"fmul" => BinOp::FMul,
                    b"fdiv" => BinOp::FDiv,
                    _ => BinOp::FRem,
                };
                self.skip_flags();
                let (t, a) = self.tval();
                self.p.expect(b',');
                let b = self.value(t);
                let fl = matches!(op, BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem);
                if self.m.is_scalar(t) && self.m.bits(t) <= 64 && !fl {
                    let bw = self.m.bits(t) as u8;
                    self.emit(dst, K::Bin(op, bw, a, b))
                } else {
                    self.emit(dst, K::BinG(op, t, a, b))
                }
            }
            b"icmp" => {
                self.skip_flags();
                let pw = self.p.word();
                let pred = match pw {
                    b"eq" => Pred::Eq,
                    b"ne" => Pred::Ne,
                    b"ugt" => Pred::Ugt,
                    b"uge" => Pred::Uge,
                    b"ult" => Pred::Ult,
                    b"ule" => Pred::Ule,
                    b"sgt" => Pred::Sgt,
                    b"sge" => Pred::Sge,
                    b"slt" => Pred::Slt,
                    b"sle" => Pred::Sle,
                    _ => self.p.fail("pred"),
                };
                let (t, a) = self.tval();
                self.p.expect(b',');
                let b = self.value(t);
                if self.m.is_scalar(t) && self.m.bits(t) <= 64 {
                    let bw = self.m.bits(t) as u8;
                    self.emit(dst, K::ICmp(pred, bw, a, b))
                } else {
                    self.emit(dst, K::ICmpG(pred, t, a, b))
                }
            }
            b"fcmp" => {
                self.skip_flags();
                let pw = String::from_utf8_lossy(self.p.word()).into_owned();
                let (t, a) = self.tval();
                self.p.expect(b',');
                let b = self.value(t);
                self.emit(dst, K::FCmp(pw, t, a, b))
            }
            b"fneg" => {
                self.skip_flags();
                let (t, a) = self.tval();
                self.emit(dst, K::FNeg(t, a))
            }
            b"trunc" | b"zext" | b"sext" | b"bitcast" | b"ptrtoint" | b"inttoptr" | b"fptoui" | b"fptosi"
            | b"uitofp" | b"sitofp" | b"fptrunc" | b"fpext" => {
                let c = match w {
                    b"trunc" => Cast::Trunc,
                    b"zext" => Cast::ZExt,
                    b"sext" => Cast::SExt,
                    b"bitcast" => Cast::Bitcast,
                    b"ptrtoint" => Cast::PtrToInt,
                    b"inttoptr" => Cast::IntToPtr,
                    b"fptoui" => Cast::FpToUi,
                    b"fptosi" => Cast::FpToSi,
                    b"uitofp" => Cast::UiToFp,
                    b"sitofp" => Cast::SiToFp,
                    b"fptrunc" => Cast::FpTrunc,
                    _ => Cast::FpExt,
                };
                self.skip_flags();
                let (t, a) = self.tval();
                if !self.p.eat_word(b"to") {
                    self.p.fail("to")
                }
                let d = self.m.parse_ty(&mut self.p);
                self.emit(dst, K::Cast(c, t, d, a))
            }
            b"select" => {
                self.skip_flags();
                let (ct, c) = self.tval();
                self.p.expect(b',');
                // an undef arm may be taken to equal the other one
                let arm_undef = |me: &mut Self| {
                    let save = me.p.i;
                    let _ = me.m.parse_ty(&mut me.p);
                    let w = me.p.peek_word();
                    let r = w == b"undef" || w == b"poison";
                    me.p.i = save;
                    r
                };
                let ua = arm_undef(self);
                let (t, a) = self.tval();
                self.p.expect(b',');
                let ub = arm_undef(self);
                let (_, b) = self.tval();
                if ua {
                    self.emit(dst, K::Copy(b))
                } else if ub {
                    self.emit(dst, K::Copy(a))
                } else {
                    self.emit(dst, K::Select(ct, t, c, a, b))
                }
            }
            b"freeze" => {
                let (_, a) = self.tval();
                self.emit(dst, K::Copy(a))
            }
            b"load" => {
                self.p.eat_word(b"atomic");
                self.p.eat_word(b"volatile");
                let t = self.m.parse_ty(&mut self.p);
                self.p.expect(b',');
                let (_, ptr) = self.tval();
                if self.m.is_scalar(t) && self.m.bits(t) <= 64 {
                    let bw = self.m.bits(t);
                    self.emit(dst, K::LoadI(((bw + 7) / 8) as u8, bw as u8, ptr))
                } else {
                    self.emit(dst, K::Load(t, ptr))
                }
            }
            b"store" => {
                self.p.eat_word(b"atomic");
                self.p.eat_word(b"volatile");
                let (t, v) = self.tval();
                self.p.expect(b',');
                let (_, ptr) = self.tval();
                if self.m.is_scalar(t) && self.m.bits(t) <= 64 {
                    let bw = self.m.bits(t);
                    self.emit(dst, K::StoreI(((bw + 7) / 8) as u8, bw as u8, v, ptr))
                } else {
                    self.emit(dst, K::Store(t, v, ptr))
                }
            }
            b"alloca" => {
                self.p.eat_word(b"inalloca");
                let t = self.m.parse_ty(&mut self.p);
                let mut n = 1u64;
                let mut al = self.m.align_of(t);
                while self.p.eat(b',') {
                    if self.p.eat_word(b"align") {
                        al = self.p.num() as u64;
                    } else if self.p.peek() == b'!' {
                        break;
                    } else {
                        let (_, o) = self.tval();
                        match o {
                            Opnd::C(Val::I(v)) => n = v,
                            _ => self.p.fail("dynamic alloca"),
                        }
                    }
                }
                let sz = self.m.size_of(t) * n;
                self.emit(dst, K::Alloca(sz, al))
            }
            b"getelementptr" => {
                self.skip_flags();
                let bt = self.m.parse_ty(&mut self.p);
                self.p.expect(b',');
                let (pt, base) = self.tval();
                if !self.m.is_scalar(pt) {
                    self.p.fail("vector gep");
                }
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = bt;
                let mut first = true;
                while self.p.peek() == b',' {
                    let sv = self.p.i;
                    self.p.i += 1;
                    if self.p.peek() == b'!' {
                        self.p.i = sv;
                        break;
                    }
                    let (it, ix) = self.tval();
                    let iw = self.m.bits(it);
                    let scale;
                    if first {
                        scale = self.m.size_of(cur) as i64;
                        first = false;
                    } else if matches!(self.m.types[cur as usize], Ty::Array(..) | Ty::Vector(..)) {
                        let (_, e) = self.m.field_off(cur, 0);
                        scale = self.m.size_of(e) as i64;
                        cur = e;
                    } else {
                        match ix {
                            Opnd::C(Val::I(v)) => {
                                let (o, e) = self.m.field_off(cur, v);
                                off += o as i64;
                                cur = e;
                            }
                            _ => self.p.fail("struct gep"),
                        }
                        continue;
                    }
                    match ix {
                        Opnd::C(Val::I(v)) => {
                            off = off.wrapping_add(
                                (crate::expr::sext128(v as u128, iw) as i64).wrapping_mul(scale),
                            )
                        }
                        o => terms.push((o, iw as u8, scale)),
                    }
                }
                self.emit(dst, K::Gep(base, off, terms.into_boxed_slice()))
            }
            b"br" => {
                if self.p.peek_word() == b"label" {
                    let e = self.label();
                    self.emit(dst, K::Br(e))
                } else {
                    let (_, c) = self.tval();
                    self.p.expect(b',');
                    let a = self.label();
                    self.p.expect(b',');
                    let b = self.label();
                    self.emit(dst, K::CondBr(c, a, b))
                }
            }
            b"switch" => {
                let (t, v) = self.tval();
                let bw = self.m.bits(t);
                self.p.expect(b',');
                let d = self.label();
                let mut es = vec![d];
                let mut cases = vec![];
                self.p.expect(b'[');
                self.p.one_line = false;
                while !self.p.eat(b']') {
                    let (_, c) = self.tval();
                    self.p.expect(b',');
                    let e = self.label();
                    let k = match c {
                        Opnd::C(Val::I(k)) => k,
                        Opnd::C(Val::W(lo, 0)) => lo,
                        _ => self.p.fail("case"),
                    };
                    cases.push((k, es.len() as u32));
                    es.push(e);
                }
                self.p.one_line = true;
                if bw > 64 {
                    self.p.fail("wide switch")
                }
                self.emit(dst, K::Switch(v, bw as u8, cases.into_boxed_slice(), es.into_boxed_slice()))
            }
            b"ret" => {
                let t = self.m.parse_ty(&mut self.p);
                if self.m.types[t as usize] == Ty::Void {
                    self.emit(dst, K::Ret(None))
                } else {
                    let v = self.value(t);
                    self.emit(dst, K::Ret(Some(v)))
                }
            }
            b"unreachable" => self.emit(dst, K::Unreachable),
            b"resume" => self.emit(dst, K::Unreachable),
            b"fence" => self.emit(dst, K::Nop),
            b"landingpad" => {
                self.emit(dst, K::LandingPad);
                // skip clause lines
                let text = self.p.s;
                loop {
                    let nl = memchr(b'\n', &text[self.p.i..]).map(|x| x + self.p.i).unwrap_or(text.len() - 1);
                    let mut q = P { s: text, i: nl + 1, one_line: false };
                    let w = q.peek_word();
                    if matches!(w, b"cleanup" | b"catch" | b"filter") {
                        self.p.i = q.i;
                    } else {
                        break;
                    }
                }
            }
            b"extractvalue" => {
                let (_, a) = self.tval();
                let ix = self.idxs();
                self.emit(dst, K::ExtractValue(a, ix))
            }
            b"insertvalue" => {
                let (t, a) = self.tval();
                self.p.expect(b',');
                let (_, v) = self.tval();
                let ix = self.idxs();
                self.emit(dst, K::InsertValue(t, a, v, ix))
            }
            b"extractelement" => {
                let (_, a) = self.tval();
                self.p.expect(b',');
                let (_, i) = self.tval();
                self.emit(dst, K::ExtractElement(a, i))
            }
            b"insertelement" => {
                let (t, a) = self.tval();
                self.p.expect(b',');
                let (_, v) = self.tval();
                self.p.expect(b',');
                let (_, i) = self.tval();
                self.emit(dst, K::InsertElement(t, a, v, i))
            }
            b"shufflevector" => {
                let (t, a) = self.tval();
                self.p.expect(b',');
                let (_, b) = self.tval();
                self.p.expect(b',');
                let (_, mk) = self.tval();
                let n = match self.m.types[t as usize] {
                    Ty::Vector(n, _) => n as u32,
                    _ => self.p.fail("shuffle"),
                };
                let mv = match mk {
                    Opnd::C(Val::A(v)) => v
                        .iter()
                        .map(|x| match x {
                            Val::I(k) => *k as u32,
                            _ => 0,
                        })
                        .collect::<Vec<_>>(),
                    _ => self.p.fail("mask"),
                };
                self.emit(dst, K::Shuffle(n, a, b, mv.into_boxed_slice()))
            }
            b"cmpxchg" => {
                self.p.eat_word(b"weak");
                self.p.eat_word(b"volatile");
                let (_, ptr) = self.tval();
                self.p.expect(b',');
                let (t, c) = self.tval();
                self.p.expect(b',');
                let (_, n) = self.tval();
                let bw = self.m.bits(t);
                self.emit(dst, K::CmpXchg(bw as u8, ptr, c, n))
            }
            b"atomicrmw" => {
                self.p.eat_word(b"volatile");
                let op = String::from_utf8_lossy(self.p.word()).into_owned();
                let (_, ptr) = self.tval();
                self.p.expect(b',');
                let (t, v) = self.tval();
                let bw = self.m.bits(t);
                self.emit(dst, K::AtomicRmw(op, bw as u8, ptr, v))
            }
            b"phi" => {
                self.skip_flags();
                let t = self.m.parse_ty(&mut self.p);
                let mut inc = vec![];
                loop {
                    self.p.expect(b'[');
                    let v = self.value(t);
                    self.p.expect(b',');
                    self.p.expect(b'%');
                    let n = self.p.name();
                    self.p.expect(b']');
                    inc.push((v, n));
                    if self.p.peek() == b',' {
                        let sv = self.p.i;
                        self.p.i += 1;
                        if self.p.peek() == b'!' {
                            self.p.i = sv;
                            break;
                        }
                    } else {
                        break;
                    }
                }
                let l = self.cur_label as usize;
                self.phis[l].push((dst, inc));
            }
            b"tail" | b"musttail" | b"notail" => {
                self.p.word();
                self.call(dst, false)
            }
            b"call" => self.call(dst, false),
            b"invoke" => self.call(dst, true),
            _ => self.p.fail(&format!("instruction {}", String::from_utf8_lossy(w))),
        }
    }
    fn idxs(&mut self) -> Box<[u32]> {
        let mut v = vec![];
        while self.p.peek() == b',' {
            let sv = self.p.i;
            self.p.i += 1;
            if self.p.peek() == b'!' {
                self.p.i = sv;
                break;
            }
            v.push(self.p.num() as u32);
        }
        v.into_boxed_slice()
    }
    fn skip_flags(&mut self) {
        loop {
            let w = self.p.peek_word();
            match w {
                b"nuw" | b"nsw" | b"exact" | b"inbounds" | b"nusw" | b"nneg" | b"disjoint" | b"samesign"
                | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc" => {
                    self.p.word();
                }
                b"inrange" => {
                    self.p.word();
                    if self.p.peek() == b'(' {
                        self.p.skip_group();
                    }
                }
                _ => return,
            }
        }
    }
    fn call(&mut self, dst: u32, invoke: bool) {
        self.skip_flags();
        // calling convention and return attributes
        loop {
            let w = self.p.peek_word();
            match w {
                b"fastcc" | b"ccc" | b"coldcc" | b"preserve_mostcc" | b"preserve_allcc" | b"x86_64_sysvcc" => {
                    self.p.word();
                }
                b"cc" => {
                    self.p.word();
                    self.p.word();
                }
                _ => break,
            }
        }
        self.skip_attrs();
        let rt = self.m.parse_ty(&mut self.p);
        if self.p.peek() == b'(' {
            self.p.skip_group(); // function type
        }
        let callee = match self.p.peek() {
            b'@' => {
                self.p.i += 1;
                let n = self.p.name();
                if n.starts_with("llvm.") {
                    Callee::Intr(self.intr(&n))
                } else if let Some(&f) = self.m.fmap.get(&n) {
                    Callee::Direct(f)
                } else if let Some(&g) = self.m.gmap.get(&n) {
                    let a = self.m.globals[g as usize].addr;
                    Callee::Ind(Opnd::C(Val::I(a)))
                } else {
                    self.p.fail("callee")
                }
            }
            b'%' => {
                self.p.i += 1;
                let n = self.p.name();
                let r = self.reg(&n);
                Callee::Ind(Opnd::R(r))
            }
            _ => {
                if self.p.peek_word() == b"asm" {
                    self.p.word();
                    loop {
                        let w = self.p.peek_word();
                        if matches!(w, b"sideeffect" | b"alignstack" | b"inteldialect" | b"unwind") {
                            self.p.word();
                        } else {
                            break;
                        }
                    }
                    self.p.expect(b'"');
                    let st = self.p.i;
                    while self.p.s[self.p.i] != b'"' {
                        self.p.i += 1
                    }
                    let s = String::from_utf8_lossy(&self.p.s[st..self.p.i]).into_owned();
                    self.p.i += 1;
                    self.p.expect(b',');
                    self.p.expect(b'"');
                    while self.p.s[self.p.i] != b'"' {
                        self.p.i += 1
                    }
                    self.p.i += 1;
                    Callee::Asm(s)
                } else {
                    let pt = self.m.ty(Ty::Ptr);
                    let o = self.m.parse_const(&mut self.p, pt);
                    Callee::Ind(o)
                }
            }
        };
        self.p.expect(b'(');
        let mut args = vec![];
        let nop = callee_is_nop(&callee);
        if nop {
            self.p.i -= 1;
            self.p.skip_group();
        } else if !self.p.eat(b')') {
            loop {
                let t = self.m.parse_ty(&mut self.p);
                if self.m.types[t as usize] == Ty::Metadata {
                    self.p.fail("metadata arg");
                }
                self.skip_attrs();
                let v = self.value(t);
                args.push(v);
                if self.p.eat(b')') {
                    break;
                }
                self.p.expect(b',');
            }
        }
        let mut edge = None;
        if invoke {
            self.p.one_line = false;
            self.skip_attrs();
            if self.p.peek() == b'[' {
                self.p.skip_group();
            }
            if !self.p.eat_word(b"to") {
                self.p.fail("invoke to");
            }
            edge = Some(self.label());
            if !self.p.eat_word(b"unwind") {
                self.p.fail("unwind");
            }
            self.p.eat_word(b"label");
            self.p.expect(b'%');
            self.p.name();
            self.p.one_line = true;
        }
        if nop {
            if invoke {
                self.emit(u32::MAX, K::Br(edge.unwrap()));
            }
            return;
        }
        self.emit(dst, K::Call(callee, args.into_boxed_slice(), rt, edge));
    }
    fn intr(&mut self, n: &str) -> Intr {
        let b = &n[5..];
        if b.starts_with("lifetime")
            || b.starts_with("assume")
            || b.starts_with("experimental.noalias")
            || b.starts_with("dbg.")
            || b.starts_with("donothing")
            || b.starts_with("invariant")
            || b.starts_with("prefetch")
            || b.starts_with("x86.sse2.pause")
            || b.starts_with("x86.sse2.mfence")
        {
            return Intr::Nop;
        }
        if b.starts_with("memcpy") || b.starts_with("memmove") {
            return Intr::Memcpy;
        }
        if b.starts_with("memset") {
            return Intr::Memset;
        }
        if b.starts_with("trap") || b.starts_with("ubsantrap") || b.starts_with("debugtrap") {
            return Intr::Trap;
        }
        // type suffix: width of the first overloaded type
        let mut parts: Vec<&str> = b.split('.').collect();
        let mut w = 0;
        let mut name_end = parts.len();
        for (i, s) in parts.iter().enumerate() {
            let is_ty = |s: &str| {
                (s.starts_with('i') || s.starts_with('f')) && s[1..].parse::<u32>().is_ok() || s == "p0"
                    || s.starts_with('v') && s[1..].contains(|c| c == 'i' || c == 'f' || c == 'p')
                        && s[1..].chars().next().map(|c| c.is_ascii_digit()).unwrap_or(false)
            };
            if i > 0 && is_ty(s) {
                name_end = i;
                if s.starts_with('v') {
                    self.p.i += 0;
                    w = 10_000; // vector marker; semantics resolved from operands
                } else if *s == "p0" {
                    w = 64;
                } else {
                    w = s[1..].parse().unwrap();
                    // scmp/ucmp: result type first, operand type second
                    if let Some(o) = parts.get(i + 1) {
                        if (b.starts_with("scmp") || b.starts_with("ucmp")) && is_ty(o) {
                            w = o[1..].parse::<u32>().unwrap() | (w << 16);
                        }
                    }
                }
                break;
            }
        }
        parts.truncate(name_end);
        let mut nm = parts.join(".");
        if w == 10_000 {
            // keep the full suffix for vectors
            nm = b.to_string();
        }
        Intr::Other(nm, w)
    }
}
fn callee_is_nop(c: &Callee) -> bool {
    matches!(c, Callee::Intr(Intr::Nop))
}
