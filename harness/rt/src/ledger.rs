//! A ledger over the global allocator: checks every deallocation against its allocation (layout,
//! liveness, tail canary), poisons freed memory and counts per-thread traffic.
//! Only blocks allocated while the current thread is "tracked" take part in leak accounting.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

pub struct Ledger;

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static DEALLOCS: Cell<u64> = const { Cell::new(0) };
}
static LIVE: AtomicI64 = AtomicI64::new(0);
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static ERR: AtomicUsize = AtomicUsize::new(0);
static ERR_A: AtomicUsize = AtomicUsize::new(0);
static ERR_B: AtomicUsize = AtomicUsize::new(0);

const MAGIC: usize = 0xA11C_0C8E_D00D_F00D;
const MAGIC_T: usize = 0xA11C_0C8E_D00D_7AC7;
const FREED: usize = 0xF4EE_DF4E_EDF4_EED0;
const TAIL: usize = 16;
pub const POISON: u8 = 0xDD;

#[repr(C)]
struct Hdr { size: usize, align: usize, magic: usize, pad: usize }

fn pad(align: usize) -> usize { if align > 32 { align } else { 32 } }

const QN: usize = 512;
static QLOCK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static mut QUEUE: [(usize, usize, usize); QN] = [(0, 0, 0); QN];
static mut QPOS: usize = 0;

fn err(code: usize, a: usize, b: usize) {
    if ERR.compare_exchange(0, code, SeqCst, SeqCst).is_ok() {
        ERR_A.store(a, SeqCst);
        ERR_B.store(b, SeqCst);
    }
}

unsafe impl GlobalAlloc for Ledger {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = pad(l.align());
        let real = Layout::from_size_align_unchecked(p + l.size() + TAIL, if l.align() < 16 { 16 } else { l.align() });
        let base = System.alloc(real);
        if base.is_null() { return base; }
        let body = base.add(p);
        let tracked = TRACK.try_with(|t| t.get()).unwrap_or(false);
        (body.sub(32) as *mut Hdr).write(Hdr { size: l.size(), align: l.align(), magic: if tracked { MAGIC_T } else { MAGIC }, pad: p });
        std::ptr::write_bytes(body, 0xCD, l.size());
        std::ptr::write_bytes(body.add(l.size()), 0xBD, TAIL);
        if tracked {
            LIVE.fetch_add(1, SeqCst);
            LIVE_BYTES.fetch_add(l.size() as i64, SeqCst);
            TOTAL.fetch_add(1, Relaxed);
            let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        }
        body
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
        p
    }
    unsafe fn dealloc(&self, body: *mut u8, l: Layout) {
        let h = body.sub(32) as *mut Hdr;
        let magic = (*h).magic;
        if magic == FREED { err(1, body as usize, l.size()); return; }
        if magic != MAGIC && magic != MAGIC_T { err(2, body as usize, l.size()); return; }
        let tracked = magic == MAGIC_T;
        if (*h).size != l.size() || (*h).align != l.align() {
            err(3, (*h).size << 16 | (*h).align, l.size() << 16 | l.align());
        }
        let size = (*h).size;
        let align = (*h).align;
        for i in 0..TAIL {
            if *body.add(size + i) != 0xBD { err(4, body as usize, size); break; }
        }
        std::ptr::write_bytes(body, POISON, size);
        let p = (*h).pad;
        let base = body.sub(p);
        let total = p + size + TAIL;
        let al = if align < 16 { 16 } else { align };
        if tracked {
            (*h).magic = FREED;
            LIVE.fetch_sub(1, SeqCst);
            LIVE_BYTES.fetch_sub(size as i64, SeqCst);
            if DEALLOCS.try_with(|c| c.set(c.get() + 1)).is_err() {}
            // quarantine: the oldest quarantined block is really freed
            while QLOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() { std::hint::spin_loop(); }
            let q = std::ptr::addr_of_mut!(QUEUE) as *mut (usize, usize, usize);
            let pos = QPOS;
            QPOS = (pos + 1) % QN;
            let old = *q.add(pos);
            *q.add(pos) = (base as usize, total, al | (p << 32));
            QLOCK.store(false, Release);
            if old.0 != 0 {
                let opad = old.2 >> 32;
                let osz = old.1 - opad - TAIL;
                let ob = (old.0 as *mut u8).add(opad);
                let mut i = 0;
                while i < osz { if *ob.add(i) != POISON { err(5, ob as usize, osz); break; } i += 1; }
                System.dealloc(old.0 as *mut u8, Layout::from_size_align_unchecked(old.1, old.2 & 0xffff_ffff));
            }
        } else {
            System.dealloc(base, Layout::from_size_align_unchecked(total, al));
        }
    }
}

#[cfg(feature = "ledger")]
#[global_allocator]
static GLOBAL: Ledger = Ledger;

pub const ON: bool = cfg!(feature = "ledger");

/// Runs `f` with allocations accounted to the code under test.
pub fn tracked<R>(f: impl FnOnce() -> R) -> R { set(true, f) }
/// Runs harness code inside a tracked region without accounting it.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R { set(false, f) }
fn set<R>(v: bool, f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G { fn drop(&mut self) { TRACK.with(|t| t.set(self.0)) } }
    let _g = G(TRACK.with(|t| t.replace(v)));
    f()
}
#[derive(Clone, Copy, Debug)]
pub struct Mark(u64, u64);
pub fn mark() -> Mark { Mark(ALLOCS.with(|c| c.get()), DEALLOCS.with(|c| c.get())) }
impl Mark {
    pub fn allocs(&self) -> u64 { ALLOCS.with(|c| c.get()) - self.0 }
    pub fn deallocs(&self) -> u64 { DEALLOCS.with(|c| c.get()) - self.1 }
}
pub fn live() -> i64 { LIVE.load(SeqCst) }
pub fn live_bytes() -> i64 { LIVE_BYTES.load(SeqCst) }
pub fn total() -> u64 { TOTAL.load(Relaxed) }
pub fn error() -> Option<String> {
    let (a, b) = (ERR_A.load(SeqCst), ERR_B.load(SeqCst));
    Some(match ERR.load(SeqCst) {
        0 => return None,
        1 => format!("double free of block {a:#x} (size {b})"),
        2 => format!("free of {a:#x}, which was never allocated (claimed size {b})"),
        3 => format!("freed with another layout: allocated size {} align {}, freed as size {} align {}", a >> 16, a & 0xffff, b >> 16, b & 0xffff),
        4 => format!("write past the end of block {a:#x} (size {b})"),
        _ => format!("write to block {a:#x} (size {b}) after it was freed"),
    })
}
