//! C03: views of one buffer used from several threads.
use crate::ledger::{self, tracked};
use crate::prng::Rng;
use crate::report::{self, ev, evn, fold, seen};
use crate::Opts;
use safer_ffi::bytes::{Bytes, BytesVt};
use std::convert::TryFrom;
use std::io::Read;
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::*};
use std::sync::{Arc, Barrier, Mutex};

struct Owner { rc: AtomicIsize, released: AtomicUsize, bad: AtomicUsize, buf: *mut u8, len: usize }
unsafe impl Send for Owner {}
unsafe impl Sync for Owner {}
unsafe extern "C" fn retain(o: *const (), _: usize) {
    let o = &*(o as *const Owner);
    if o.rc.fetch_add(1, Relaxed) <= 0 { o.bad.store(1, Relaxed) }
}
unsafe extern "C" fn release(o: *const (), _: usize) {
    let o = &*(o as *const Owner);
    match o.rc.fetch_sub(1, AcqRel) {
        1 => {
            std::ptr::write_bytes(o.buf, 0xDD, o.len);
            drop(Vec::from_raw_parts(o.buf, o.len, o.len));
            o.released.fetch_add(1, AcqRel);
        }
        n if n <= 0 => o.bad.store(2, Relaxed),
        _ => {}
    }
}
static VT: BytesVt = BytesVt { retain: Some(retain), release: Some(release) };
static VT_UNIQUE: BytesVt = BytesVt { retain: None, release: Some(release) };

struct Held { data: Vec<u8>, drops: Arc<AtomicUsize> }
impl AsRef<[u8]> for Held { fn as_ref(&self) -> &[u8] { &self.data } }
impl Drop for Held { fn drop(&mut self) { for b in self.data.iter_mut() { *b = 0xDD } self.drops.fetch_add(1, AcqRel); } }
#[cfg(feature = "stb")]
struct StbHeld(Held);
#[cfg(feature = "stb")]
impl AsRef<[u8]> for StbHeld { fn as_ref(&self) -> &[u8] { self.0.as_ref() } }

/// a view together with the range of the original data it must show
struct View { b: Bytes<'static>, lo: usize, hi: usize }

fn fail(o: &Opts, what: String) -> ! { report::violation(&what) }

struct Shared<'a> { data: &'a [u8], boxes: Vec<Mutex<Vec<View>>>, seq: AtomicUsize, o: &'a Opts, logging: bool, kind: usize }

impl Shared<'_> {
    fn check(&self, v: &View, t: usize) {
        let s = v.b.as_slice();
        if s != &self.data[v.lo..v.hi] { fail(self.o, format!("thread {t}: a view of {}..{} (owner kind {}) reads {:?} instead of {:?}", v.lo, v.hi, self.kind, s, &self.data[v.lo..v.hi])) }
    }
}

fn worker(sh: &Shared<'_>, t: usize, mut r: Rng, mut mine: Vec<View>, root: Option<&View>, steps: usize, log: &mut Vec<(usize, u64)>) {
    let nt = sh.boxes.len();
    for _ in 0..steps {
        let op = r.below(15);
        if sh.logging { log.push((sh.seq.fetch_add(1, Relaxed), (t * 16 + op) as u64)) }
        let i = r.below(mine.len());
        match op {
            0 | 1 => {
                let src = match root { Some(v) if mine.is_empty() || r.chance(1, 2) => v, _ => match mine.get(i) { Some(v) => v, None => continue } };
                let c = tracked(|| src.b.clone());
                let v = View { b: c, lo: src.lo, hi: src.hi };
                sh.check(&v, t);
                if mine.len() < 6 { mine.push(v) } else { tracked(|| drop(v)) }
            }
            2 => if let Some(v) = mine.get_mut(i) {
                let n = v.hi - v.lo;
                let a = r.below(n + 1);
                let b = a + r.below(n - a + 1);
                tracked(|| v.b.shrink_to(a..b));
                v.hi = v.lo + b;
                v.lo += a;
            },
            3 => if i < mine.len() {
                let v = mine.swap_remove(i);
                let k = r.below(v.hi - v.lo + 1);
                match tracked(|| v.b.split_at(k)) {
                    Ok((l, rr)) => { mine.push(View { b: l, lo: v.lo, hi: v.lo + k }); mine.push(View { b: rr, lo: v.lo + k, hi: v.hi }) }
                    Err(_) => fail(sh.o, "an in-range split was refused".into()),
                }
            },
            4 => if i < mine.len() { let v = mine.swap_remove(i); let b = tracked(|| v.b.upgrade()); mine.push(View { b, ..v }) },
            5 => if let Some(v) = mine.get_mut(i) {
                let n = v.hi - v.lo;
                let k = r.below(n + 1);
                let mut buf = vec![0u8; k];
                let got = tracked(|| v.b.read(&mut buf).unwrap());
                if got != k || buf != sh.data[v.lo..v.lo + k] { fail(sh.o, format!("thread {t}: read {got} of {k} bytes: {buf:?}")) }
                v.lo += k;
            },
            6 => if i < mine.len() { let v = mine.swap_remove(i); sh.boxes[r.below(nt)].lock().unwrap().push(v) },
            7 => { let got = sh.boxes[t].lock().unwrap().pop(); if let Some(v) = got { sh.check(&v, t); mine.push(v) } }
            8 => if i < mine.len() {
                let v = mine.swap_remove(i);
                let (lo, hi) = (v.lo, v.hi);
                match tracked(|| Arc::<[u8]>::try_from(v.b)) {
                    Ok(a) => {
                        if a[..] != sh.data[lo..hi] { fail(sh.o, format!("thread {t}: conversion to Arc<[u8]> gave {a:?}")) }
                        mine.push(View { b: tracked(|| Bytes::from(a)), lo, hi })
                    }
                    Err(b) => mine.push(View { b, lo, hi }),
                }
            },
            9 => if i < mine.len() { let v = mine.swap_remove(i); sh.check(&v, t); tracked(|| drop(v)) },
            10 => { for _ in 0..r.below(40) { std::hint::spin_loop() } if r.chance(1, 3) { std::thread::yield_now() } }
            11 => if i < mine.len() { let v = mine.swap_remove(i); let (lo, hi) = (v.lo, v.hi); match tracked(|| v.b.noalloc_upgrade()) { Ok(b) | Err(b) => mine.push(View { b, lo, hi }) } },
            12 => if let Some(src) = mine.get(i).or(root) { if let Some(b) = tracked(|| src.b.noalloc_clone()) { let v = View { b, lo: src.lo, hi: src.hi }; sh.check(&v, t); mine.push(v) } },
            #[cfg(feature = "stb")]
            13 => if i < mine.len() {
                let v = mine.swap_remove(i);
                let (lo, hi) = (v.lo, v.hi);
                // (a value that was narrowed must not be asked: see DESIGN.md)
                if lo != 0 || hi != sh.data.len() { mine.push(v) } else {
                    match tracked(|| stabby::sync::ArcSlice::<u8>::try_from(v.b)) {
                        Ok(a) => {
                            if a[..] != sh.data[lo..hi] { fail(sh.o, format!("thread {t}: conversion to ArcSlice gave {a:?}")) }
                            mine.push(View { b: tracked(|| Bytes::from(a)), lo, hi })
                        }
                        Err(b) => mine.push(View { b, lo, hi }),
                    }
                }
            },
            _ => if let Some(v) = root { sh.check(v, t) } else if let Some(v) = mine.get(i) { sh.check(v, t) },
        }
        if mine.len() > 8 { let v = mine.swap_remove(0); tracked(|| drop(v)); }
    }
    while let Some(v) = mine.pop() { sh.check(&v, t); tracked(|| drop(v)); }
    evn("thread_steps", steps as u64);
}

/// Whether the type can become a `Bytes`, which can be sent and shared (an inherent method goes first, where it applies).
struct Can<T>(std::marker::PhantomData<T>);
trait Cannot { fn can(&self) -> bool { false } }
impl<T> Cannot for &Can<T> {}
impl<T> Can<T> where Bytes<'static>: From<T> { #[allow(dead_code)] fn can(&self) -> bool { true } }
struct IsSend<T>(std::marker::PhantomData<T>);
struct IsSync<T>(std::marker::PhantomData<T>);
trait Is { fn is(&self) -> bool { false } }
impl<T> Is for &IsSend<T> {}
impl<T> Is for &IsSync<T> {}
impl<T: Send> IsSend<T> { fn is(&self) -> bool { true } }
impl<T: Sync> IsSync<T> { fn is(&self) -> bool { true } }
struct Owned<M>(Vec<u8>, std::marker::PhantomData<M>);
impl<M> AsRef<[u8]> for Owned<M> { fn as_ref(&self) -> &[u8] { &self.0 } }
type OnlySend = std::cell::Cell<u8>;
type OnlySync = std::sync::MutexGuard<'static, u8>;
type Neither = std::rc::Rc<u8>;

fn bounds() {
    use std::marker::PhantomData as P;
    macro_rules! can { ($($t:ty => $want:expr),* $(,)?) => { $({
        let got = (&Can::<$t>(P)).can();
        ev("owner_bounds");
        if got != $want { report::violation(&format!("{} {} become a Bytes, which any thread may use and drop", stringify!($t), if got { "can" } else { "cannot" })) }
    })* } }
    can! { Arc<Owned<u8>> => true, Arc<Owned<OnlySend>> => false, Arc<Owned<OnlySync>> => false, Arc<Owned<Neither>> => false, Arc<Vec<u8>> => true, Arc<[u8]> => true, Box<[u8]> => true, Vec<u8> => true }
    can! { std::rc::Rc<Owned<u8>> => false, std::rc::Rc<[u8]> => false }
    #[cfg(feature = "stb")]
    can! { stabby::sync::Arc<Owned<u8>> => true, stabby::sync::Arc<Owned<OnlySend>> => false, stabby::sync::Arc<Owned<OnlySync>> => false, stabby::sync::Arc<Owned<Neither>> => false }
    if !((&IsSend::<Bytes<'static>>(P)).is() && (&IsSync::<Bytes<'static>>(P)).is()) { report::violation("Bytes cannot be sent to or shared with other threads") }
}

pub fn run(o: &Opts) {
    bounds();
    // logging adds synchronisation that would hide races from ThreadSanitizer and Miri
    let logging = o.args.iter().any(|a| a == "--log");
    o.histories(3, |mut r, _| {
        let before = ledger::live();
        let kinds = if cfg!(feature = "stb") { 9 } else { 7 };
        let kind = r.below(kinds);
        let n = match r.below(4) { 0 => r.range(20, 45), 1 => r.range(60, 80), _ => r.range(80, 160) };
        let data = r.bytes(n);
        let nt = r.range(2, if cfg!(miri) { 3 } else { 4 });
        let (mut owner, mut leaked): (Option<*mut Owner>, Option<*mut u8>) = (None, None);
        let mut drops: Option<Arc<AtomicUsize>> = None;
        let b: Bytes<'static> = match kind {
            0 | 1 => {
                let v = tracked(|| { let mut v = Vec::with_capacity(n); v.extend_from_slice(&data); v });
                let mut v = std::mem::ManuallyDrop::new(v);
                let p = Box::into_raw(Box::new(Owner { rc: AtomicIsize::new(1), released: AtomicUsize::new(0), bad: AtomicUsize::new(0), buf: v.as_mut_ptr(), len: n }));
                owner = Some(p);
                unsafe { Bytes::from_raw_parts(std::slice::from_raw_parts((*p).buf, n), p as *const (), 7, if kind == 0 { &VT } else { &VT_UNIQUE }) }
            }
            2 => tracked(|| Bytes::from(Arc::<[u8]>::from(&data[..]))),
            3 => { let d = Arc::new(AtomicUsize::new(0)); drops = Some(d.clone()); tracked(|| Bytes::from(Arc::new(Held { data: data.clone(), drops: d }))) }
            4 => tracked(|| Bytes::from(data.clone().into_boxed_slice())),
            5 => tracked(|| Bytes::copied_from_slice(&data)),
            6 => { let d: &'static [u8] = Box::leak(data.clone().into_boxed_slice()); leaked = Some(d.as_ptr() as *mut u8); if r.chance(1, 2) { Bytes::from_static(d) } else { Bytes::from_slice(d) } }
            #[cfg(feature = "stb")]
            7 => tracked(|| Bytes::from(stabby::sync::ArcSlice::<u8>::from(&data[..]))),
            #[cfg(feature = "stb")]
            8 => { let d = Arc::new(AtomicUsize::new(0)); drops = Some(d.clone()); tracked(|| Bytes::from(stabby::sync::Arc::new(StbHeld(Held { data: data.clone(), drops: d })))) }
            _ => unreachable!(),
        };
        let root = View { b, lo: 0, hi: n };
        let shared_root = r.chance(1, 3);
        let sh = Shared { data: &data, boxes: (0..nt).map(|_| Mutex::new(vec![])).collect(), seq: AtomicUsize::new(0), o, logging, kind };
        let steps = r.range(4, o.steps.max(5));
        let mut starts: Vec<Vec<View>> = (0..nt).map(|_| vec![]).collect();
        let mut root = Some(root);
        if !shared_root {
            for s in starts.iter_mut().skip(1) { let v = root.as_ref().unwrap(); s.push(View { b: tracked(|| v.b.clone()), lo: 0, hi: n }) }
            starts[0].push(root.take().unwrap());
        }
        let bar = Barrier::new(nt);
        let mut logs: Vec<Vec<(usize, u64)>> = (0..nt).map(|_| vec![]).collect();
        std::thread::scope(|sc| {
            for ((t, mine), log) in starts.into_iter().enumerate().zip(logs.iter_mut()) {
                let (sh, bar, root) = (&sh, &bar, root.as_ref());
                let mut rr = Rng::new(r.next());
                sc.spawn(move || { bar.wait(); worker(sh, t, rr.clone(), mine, root, steps, log); });
            }
        });
        let left: Vec<Vec<View>> = sh.boxes.iter().map(|b| std::mem::take(&mut *b.lock().unwrap())).collect();
        // the stragglers die on yet another thread
        std::thread::scope(|sc| { let (left, root, sh) = (left, root, &sh); sc.spawn(move || { for v in left.into_iter().flatten().chain(root) { sh.check(&v, 99); tracked(|| drop(v)) } }); });
        if logging {
            let mut all: Vec<(usize, u64)> = logs.into_iter().flatten().collect();
            all.sort();
            seen(fold(&all.iter().map(|x| x.1).collect::<Vec<_>>()));
            evn("logged_steps", all.len() as u64);
            report::sample(|| format!("owner kind {kind}, {nt} threads: {}", all.iter().take(24).map(|x| format!("t{}:{}", x.1 / 16, x.1 % 16)).collect::<Vec<_>>().join(" ")));
        } else { seen(fold(&[kind as u64, nt as u64, shared_root as u64, steps as u64, n as u64])) }
        if let Some(p) = owner {
            let w = unsafe { Box::from_raw(p) };
            let (rel, rc, bad) = (w.released.load(SeqCst), w.rc.load(SeqCst), w.bad.load(SeqCst));
            if rel != 1 || rc != 0 || bad != 0 { fail(o, format!("foreign owner released {rel} times, {rc} references left, misuse code {bad}")) }
            ev("owner_released_once");
        }
        if let Some(d) = drops { let k = d.load(SeqCst); if k != 1 { fail(o, format!("the shared owner was dropped {k} times")) } ev("owner_released_once"); }
        if let Some(p) = leaked { unsafe { drop(Vec::from_raw_parts(p, n, n)) } }
        drop(sh);
        if let Some(e) = ledger::error() { fail(o, format!("allocator ledger: {e}")) }
        if ledger::ON && ledger::live() != before { fail(o, format!("{} blocks are still live after the last view was dropped (owner kind {kind})", ledger::live() - before)) }
        ev("history");
    });
}
