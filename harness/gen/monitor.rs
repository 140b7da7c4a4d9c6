// ---- the monitor: every allocation knows its layout, every object is counted
mod ledger {
    use ::std::alloc::{GlobalAlloc, Layout, System};
    use ::std::sync::atomic::{AtomicI64, Ordering::SeqCst};
    pub static LIVE: AtomicI64 = AtomicI64::new(0);
    pub static BYTES: AtomicI64 = AtomicI64::new(0);
    pub struct L;
    const M: usize = 0x5af3_ff1a_110c_a7ed;
    fn pad(l: &Layout) -> usize { l.align().max(32) }
    unsafe impl GlobalAlloc for L {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = System.alloc(Layout::from_size_align_unchecked(l.size() + pad(&l), pad(&l))).add(pad(&l));
            let h = p.cast::<usize>();
            *h.sub(1) = M; *h.sub(2) = l.size(); *h.sub(3) = l.align();
            LIVE.fetch_add(1, SeqCst); BYTES.fetch_add(l.size() as i64, SeqCst);
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let h = p.cast::<usize>();
            if *h.sub(1) != M || *h.sub(2) != l.size() || *h.sub(3) != l.align() {
                let msg = if *h.sub(1) != M { "LEDGER: freed something that is not a live allocation\n" } else { "LEDGER: freed with a layout other than the one it was allocated with\n" };
                extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; fn abort() -> !; }
                write(2, msg.as_ptr(), msg.len()); abort();
            }
            *h.sub(1) = 0;
            p.write_bytes(0xDD, l.size());
            LIVE.fetch_sub(1, SeqCst); BYTES.fetch_sub(l.size() as i64, SeqCst);
            System.dealloc(p.sub(pad(&l)), Layout::from_size_align_unchecked(l.size() + pad(&l), pad(&l)))
        }
    }
}
#[global_allocator] static G: ledger::L = ledger::L;
static OBJECTS: AtomicI64 = AtomicI64::new(0);
pub struct Tracked(u64);
impl Tracked { fn new() -> Self { OBJECTS.fetch_add(1, SeqCst); Tracked(0x7261636b) } fn check(&self) { assert_eq!(self.0, 0x7261636b) } }
impl Drop for Tracked { fn drop(&mut self) { self.check(); self.0 = 0; OBJECTS.fetch_sub(1, SeqCst); } }
#[ffi_export] fn live_objects() -> i64 { OBJECTS.load(SeqCst) }
#[ffi_export] fn live_allocations() -> i64 { ledger::LIVE.load(SeqCst) }
#[ffi_export] fn live_bytes() -> i64 { ledger::BYTES.load(SeqCst) }

