use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

pub const PS: usize = 4096;
#[derive(Clone)]
pub struct Page {
    pub d: [u8; PS],
    pub s: Option<Box<FxMap<u16, E>>>,
}
#[derive(Clone)]
pub struct Mem {
    pub g: Vec<Rc<Page>>,
    pub h: Vec<Rc<Page>>,
    pub s: Vec<Vec<Rc<Page>>>, // per thread
    pub brk: u64,
    pub free: Vec<Vec<u64>>, // per size class
    pub big: Vec<(u64, u64)>,
}
pub struct Fault(pub u64);
pub const STACK_SZ: u64 = 1 << 24;

thread_local! { static ZERO: Rc<Page> = Rc::new(Page{d:[0;PS],s:None}); }
pub fn zero_page() -> Rc<Page> {
    ZERO.with(|z| z.clone())
}

impl Mem {
    pub fn new(glob_pages: usize) -> Mem {
        Mem {
            g: vec![zero_page(); glob_pages],
            h: vec![],
            s: vec![],
            brk: HEAP_BASE + 4096,
            free: vec![vec![]; 64],
            big: vec![],
        }
    }
    #[inline]
    pub fn page(&self, a: u64) -> Result<&Page, Fault> {
        let off = (a & 0xffff_ffff) as usize;
        let r = match a >> 32 {
            1 => self.g.get(off / PS),
            2 => self.h.get(off / PS),
            3 => {
                let t = off / STACK_SZ as usize;
                self.s.get(t).and_then(|s| s.get((off % STACK_SZ as usize) / PS))
            }
            _ => None,
        };
        match r {
            Some(p) => Ok(p),
            None => Err(Fault(a)),
        }
    }
    #[inline]
    pub fn page_mut(&mut self, a: u64) -> Result<&mut Page, Fault> {
        let off = (a & 0xffff_ffff) as usize;
        let r = match a >> 32 {
            1 => self.g.get_mut(off / PS),
            2 => self.h.get_mut(off / PS),
            3 => {
                let t = off / STACK_SZ as usize;
                self.s.get_mut(t).and_then(|s| s.get_mut((off % STACK_SZ as usize) / PS))
            }
            _ => None,
        };
        match r {
            Some(p) => Ok(Rc::make_mut(p)),
            None => Err(Fault(a)),
        }
    }
    #[inline]
    pub fn load(&self, a: u64, n: usize) -> Result<Val, Fault> {
        let po = a as usize % PS;
        if po + n <= PS {
            let p = self.page(a)?;
            if p.s.is_none() {
                let d = &p.d[po..po + n];
                let v = match n {
                    1 => d[0] as u64,
                    2 => u16::from_le_bytes([d[0], d[1]]) as u64,
                    4 => u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as u64,
                    8 => u64::from_le_bytes([d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]]),
                    _ => {
                        let mut v = 0u64;
                        for (i, b) in d.iter().enumerate() {
                            v |= (*b as u64) << (8 * i)
                        }
                        v
                    }
                };
                return Ok(Val::I(v));
            }
        }
        self.load_slow(a, n)
    }
    pub fn byte(&self, a: u64) -> Result<Val, Fault> {
        let p = self.page(a)?;
        let po = a as usize % PS;
        if let Some(s) = &p.s {
            if let Some(e) = s.get(&(po as u16)) {
                return Ok(Val::S(*e));
            }
        }
        Ok(Val::I(p.d[po] as u64))
    }
    fn load_slow(&self, a: u64, n: usize) -> Result<Val, Fault> {
        let mut conc = 0u64;
        let mut any = false;
        let mut bs: Vec<Val> = Vec::with_capacity(n);
        for i in 0..n {
            let b = self.byte(a + i as u64)?;
            match &b {
                Val::I(v) => conc |= v << (8 * i),
                _ => any = true,
            }
            bs.push(b);
        }
        if !any {
            return Ok(Val::I(conc));
        }
        let mut e: Option<E> = None;
        for b in bs.iter().rev() {
            let x = match b {
                Val::I(v) => konst(8, *v as u128),
                Val::S(e) => *e,
                _ => unreachable!(),
            };
            e = Some(match e {
                None => x,
                Some(h) => concat(h, x),
            });
        }
        Ok(from_e(e.unwrap()))
    }
    #[inline]
    pub fn store(&mut self, a: u64, n: usize, v: u64) -> Result<(), Fault> {
        let po = a as usize % PS;
        if po + n <= PS {
            let p = self.page_mut(a)?;
            if p.s.is_none() {
                let b = v.to_le_bytes();
                match n {
                    1 => p.d[po] = b[0],
                    4 => p.d[po..po + 4].copy_from_slice(&b[..4]),
                    8 => p.d[po..po + 8].copy_from_slice(&b),
                    _ => p.d[po..po + n].copy_from_slice(&b[..n]),
                }
                return Ok(());
            }
        }
        for i in 0..n {
            self.set_byte(a + i as u64, Val::I((v >> (8 * i)) & 255))?;
        }
        Ok(())
    }
    pub fn set_byte(&mut self, a: u64, v: Val) -> Result<(), Fault> {
        let p = self.page_mut(a)?;
        let po = a as usize % PS;
        match v {
            Val::I(v) => {
                p.d[po] = v as u8;
                if let Some(s) = &mut p.s {
                    s.remove(&(po as u16));
                    if s.is_empty() {
                        p.s = None;
                    }
                }
            }
            Val::S(e) => {
                p.s.get_or_insert_with(Default::default).insert(po as u16, e);
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    pub fn store_e(&mut self, a: u64, n: usize, e: E) -> Result<(), Fault> {
        let e = zext(e, 8 * n as u32);
        for i in 0..n {
            self.set_byte(a + i as u64, from_e(extract(e, 8 * i as u32, 8)))?;
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || dst == src {
            return Ok(());
        }
        let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
        let mut syms: Vec<(u64, E)> = vec![];
        let mut o = 0;
        while o < n {
            let a = src + o;
            let po = a as usize % PS;
            let l = (PS - po).min((n - o) as usize);
            let p = self.page(a)?;
            buf.extend_from_slice(&p.d[po..po + l]);
            if let Some(s) = &p.s {
                if s.len() < l {
                    for (k, e) in s.iter() {
                        let k = *k as usize;
                        if k >= po && k < po + l {
                            syms.push((o + (k - po) as u64, *e));
                        }
                    }
                } else {
                    for k in po..po + l {
                        if let Some(e) = s.get(&(k as u16)) {
                            syms.push((o + (k - po) as u64, *e));
                        }
                    }
                }
            }
            o += l as u64;
        }
        self.write(dst, &buf)?;
        for (o, e) in syms {
            self.set_byte(dst + o, Val::S(e))?;
        }
        Ok(())
    }
    pub fn write(&mut self, dst: u64, buf: &[u8]) -> Result<(), Fault> {
        let n = buf.len() as u64;
        let mut o = 0;
        while o < n {
            let a = dst + o;
            let po = a as usize % PS;
            let l = (PS - po).min((n - o) as usize);
            let p = self.page_mut(a)?;
            p.d[po..po + l].copy_from_slice(&buf[o as usize..o as usize + l]);
            clear_syms(p, po, l);
            o += l as u64;
        }
        Ok(())
    }
    pub fn fill(&mut self, dst: u64, v: u8, n: u64) -> Result<(), Fault> {
        let mut o = 0;
        while o < n {
            let a = dst + o;
            let po = a as usize % PS;
            let l = (PS - po).min((n - o) as usize);
            let p = self.page_mut(a)?;
            p.d[po..po + l].fill(v);
            clear_syms(p, po, l);
            o += l as u64;
        }
        Ok(())
    }
    /// read concrete bytes; symbolic ones are replaced by '?'
    pub fn read_lossy(&self, a: u64, n: u64) -> Vec<u8> {
        (0..n)
            .map(|i| match self.byte(a + i) {
                Ok(Val::I(v)) => v as u8,
                _ => b'?',
            })
            .collect()
    }
    fn class(sz: u64) -> (usize, u64) {
        // 16,32,48,64,96,128,192,256,...
        let sz = sz.max(16);
        let mut c = 0;
        let mut s = 16;
        loop {
            if sz <= s {
                return (c, s);
            }
            let half = s + s / 2;
            c += 1;
            if s >= 32 {
                if sz <= half {
                    return (c, half);
                }
                c += 1;
            }
            s *= 2;
        }
    }
    pub fn malloc(&mut self, sz: u64, align: u64) -> u64 {
        let align = align.max(16);
        let (c, s) = Mem::class(sz + if align > 16 { align } else { 0 });
        if align == 16 {
            if let Some(a) = self.free[c].pop() {
                let _ = self.store(a - 16, 8, sz);
                return a;
            }
        }
        let mut a = self.brk + 16;
        a = (a + align - 1) / align * align;
        self.brk = a + s;
        let need = ((self.brk - HEAP_BASE) as usize + PS) / PS;
        while self.h.len() < need {
            self.h.push(zero_page());
        }
        let _ = self.store(a - 16, 8, sz);
        let _ = self.store(a - 8, 8, if align == 16 { c as u64 } else { 999 });
        a
    }
    pub fn msize(&self, a: u64) -> u64 {
        match self.load(a - 16, 8) {
            Ok(Val::I(v)) => v,
            _ => 0,
        }
    }
    pub fn usable(&self, a: u64) -> u64 {
        let _ = a;
        0
    }
    pub fn mfree(&mut self, a: u64) {
        if a == 0 {
            return;
        }
        if let Ok(Val::I(c)) = self.load(a - 8, 8) {
            if c < 64 {
                self.free[c as usize].push(a);
            }
        }
    }
}
fn clear_syms(p: &mut Page, po: usize, l: usize) {
    if let Some(s) = &mut p.s {
        if l == PS {
            s.clear();
        } else if s.len() < l {
            s.retain(|k, _| (*k as usize) < po || *k as usize >= po + l);
        } else {
            for k in po..po + l {
                s.remove(&(k as u16));
            }
        }
        if s.is_empty() {
            p.s = None;
        }
    }
}

#[inline]
pub fn from_e(e: E) -> Val {
    match as_const(e) {
        Some(k) => {
            if width(e) <= 64 {
                Val::I(k as u64)
            } else {
                Val::W(k as u64, (k >> 64) as u64)
            }
        }
        None => Val::S(e),
    }
}
