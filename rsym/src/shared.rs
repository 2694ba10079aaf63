//! State shared by the worker processes.
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, Ordering::*};

pub const C_PATHS: usize = 0;
pub const C_KILLED: usize = 1;
pub const C_FORKS: usize = 2;
pub const C_INSTS: usize = 3;
pub const C_ASSYM: usize = 4;
pub const C_ASCONC: usize = 5;
pub const C_QUERIES: usize = 6;
pub const C_CACHED: usize = 7;
pub const C_DOMQ: usize = 8;
pub const C_SOLVER_US: usize = 9;
pub const C_MAXQ_US: usize = 10;
pub const C_AUDIT: usize = 11;

pub const NFN: usize = 1 << 17;
pub const NTAG: usize = 256;
pub const VBUF: usize = 1 << 22;

#[repr(C)]
pub struct Shared {
    active: AtomicU64,
    stop: AtomicU32,
    timeout: AtomicU32,
    nviol: AtomicU32,
    nerr: AtomicU32,
    vlen: AtomicU32,
    elen: AtomicU32,
    slen: AtomicU32,
    nsample: AtomicU32,
    pub c: [AtomicU64; 16],
    tag_lock: AtomicU32,
    pub tags: [[u8; 64]; NTAG],
    pub tagn: [AtomicU64; NTAG],
    pub cov: [AtomicU8; NFN],
    pub vbuf: [u8; VBUF],
    pub sbuf: [u8; VBUF],
    pub ebuf: [u8; 1 << 16],
}
static mut SH: *mut Shared = std::ptr::null_mut();
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
pub fn init() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        SH = p as *mut Shared;
        (*SH).active.store(1, SeqCst);
    }
}
#[inline]
pub fn shared() -> &'static mut Shared {
    unsafe { &mut *SH }
}
impl Shared {
    #[inline]
    pub fn cover(&self, f: u32) {
        let c = &self.cov[f as usize % NFN];
        if c.load(Relaxed) == 0 {
            c.store(1, Relaxed);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed) != 0
    }
    pub fn set_timeout(&self) {
        self.timeout.store(1, SeqCst);
        self.stop.store(1, SeqCst);
    }
    pub fn timed_out(&self) -> bool {
        self.timeout.load(SeqCst) != 0
    }
    pub fn try_acquire(&self, max: u64) -> bool {
        let mut a = self.active.load(Relaxed);
        while a < max {
            match self.active.compare_exchange(a, a + 1, SeqCst, Relaxed) {
                Ok(_) => return true,
                Err(x) => a = x,
            }
        }
        false
    }
    pub fn release(&self) {
        self.active.fetch_sub(1, SeqCst);
    }
    pub fn add(&self, i: usize, n: u64) {
        self.c[i].fetch_add(n, Relaxed);
    }
    pub fn max(&self, i: usize, n: u64) {
        self.c[i].fetch_max(n, Relaxed);
    }
    fn lock(&self) {
        while self.tag_lock.compare_exchange(0, 1, SeqCst, Relaxed).is_err() {
            std::hint::spin_loop()
        }
    }
    fn unlock(&self) {
        self.tag_lock.store(0, SeqCst)
    }
    pub fn report_violation(&mut self, s: &str, keep: bool) {
        self.lock();
        let n = self.vlen.load(SeqCst) as usize;
        let b = s.as_bytes();
        if n + b.len() + 2 < VBUF {
            self.vbuf[n..n + b.len()].copy_from_slice(b);
            self.vbuf[n + b.len()] = b'\n';
            self.vlen.store((n + b.len() + 1) as u32, SeqCst);
        }
        self.nviol.fetch_add(1, SeqCst);
        if !keep || self.nviol.load(SeqCst) > 200 {
            self.stop.store(1, SeqCst);
        }
        self.unlock();
    }
    pub fn want_sample(&self) -> bool {
        self.nsample.load(Relaxed) < 16
    }
    pub fn report_sample(&mut self, s: &str) {
        self.lock();
        let n = self.slen.load(SeqCst) as usize;
        let b = s.as_bytes();
        if n + b.len() + 2 < VBUF && b.len() < VBUF / 8 {
            self.sbuf[n..n + b.len()].copy_from_slice(b);
            self.sbuf[n + b.len()] = b'\n';
            self.slen.store((n + b.len() + 1) as u32, SeqCst);
            self.nsample.fetch_add(1, SeqCst);
        }
        self.unlock();
    }
    pub fn samples(&self) -> String {
        String::from_utf8_lossy(&self.sbuf[..self.slen.load(SeqCst) as usize]).into_owned()
    }
    pub fn report_error(&mut self, s: &str) {
        self.lock();
        let n = self.elen.load(SeqCst) as usize;
        let b = s.as_bytes();
        let l = b.len().min(self.ebuf.len() - n - 2);
        self.ebuf[n..n + l].copy_from_slice(&b[..l]);
        self.ebuf[n + l] = b'\n';
        self.elen.store((n + l + 1) as u32, SeqCst);
        self.nerr.fetch_add(1, SeqCst);
        self.stop.store(1, SeqCst);
        self.unlock();
    }
    pub fn violations(&self) -> String {
        String::from_utf8_lossy(&self.vbuf[..self.vlen.load(SeqCst) as usize]).into_owned()
    }
    pub fn errors(&self) -> String {
        String::from_utf8_lossy(&self.ebuf[..self.elen.load(SeqCst) as usize]).into_owned()
    }
    pub fn nviol(&self) -> u32 {
        self.nviol.load(SeqCst)
    }
    pub fn nerr(&self) -> u32 {
        self.nerr.load(SeqCst)
    }
    pub fn reach(&mut self, t: &[u8]) {
        let t = &t[..t.len().min(63)];
        for i in 0..NTAG {
            let k = &self.tags[i];
            if k[0] != 0 && &k[..t.len()] == t && k[t.len()] == 0 {
                self.tagn[i].fetch_add(1, Relaxed);
                return;
            }
        }
        self.lock();
        for i in 0..NTAG {
            let k = &mut self.tags[i];
            if k[0] != 0 && &k[..t.len()] == t && k[t.len()] == 0 {
                self.tagn[i].fetch_add(1, Relaxed);
                break;
            }
            if k[0] == 0 {
                k[..t.len()].copy_from_slice(t);
                self.tagn[i].fetch_add(1, Relaxed);
                break;
            }
        }
        self.unlock();
    }
}
