//! C24: one seeded workload, the same in every feature set and build profile; prints one hash per history and
//! section of everything it observed (results, drops, allocator traffic), or with --only every observation.
#![allow(clippy::all, unused, static_mut_refs, unexpected_cfgs)]
#[path = "../../rt/src/ledger.rs"]
mod ledger;
#[path = "../../rt/src/prng.rs"]
mod prng;
mod report { pub fn violation(s: &str) -> ! { println!("VIOL {{\"what\":{s:?}}}"); std::process::exit(66) } }
use ledger::{tracked, untracked};
use prng::Rng;
use safer_ffi::prelude::*;
use std::hash::{Hash, Hasher};
use std::hint::black_box as bb;
use std::sync::atomic::{AtomicI64, Ordering::*};

mod core_ops;
#[cfg(feature = "f_alloc")]
mod alloc_ops;
#[cfg(feature = "f_std")]
mod std_ops;
#[cfg(feature = "f_dyn")]
mod dyn_ops;

pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3) } }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = Fnv(0xcbf29ce484222325); t.hash(&mut h); h.0 }

pub struct Tr { pub h: Fnv, /** with byte sizes too */ pub hb: Fnv, pub log: bool, pub n: u64, pub allocs: bool }
impl Tr {
    pub fn ev(&mut self, what: &str, val: &dyn std::fmt::Debug) {
        untracked(|| {
            let s = format!("{what} = {val:?}");
            self.h.write(s.as_bytes());
            self.h.write(b"\n");
            self.hb.write(s.as_bytes());
            self.n += 1;
            if self.log { println!("EV {}", s.replace('\n', "\\n")) }
        })
    }
    /// runs one operation and notes the allocator calls it made
    pub fn op<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> R {
        let m = ledger::mark();
        let (live, bytes) = (ledger::live(), ledger::live_bytes());
        let r = tracked(f);
        if self.allocs { 
            let bytes = ledger::live_bytes() - bytes;
            self.ev(what, &("allocs, frees, blocks", m.allocs(), m.deallocs(), ledger::live() - live));
            untracked(|| { self.hb.write(&bytes.to_ne_bytes()); self.n += 1; if self.log { println!("EVB bytes = {bytes}") } })
        }
        r
    }
}

pub static LIVE: AtomicI64 = AtomicI64::new(0);
#[derive(Debug)]
pub struct D(pub u32, pub Box<u32>);
impl D { pub fn new(x: u32) -> D { LIVE.fetch_add(1, Relaxed); D(x, Box::new(!x)) } }
impl Drop for D { fn drop(&mut self) { if *self.1 != !self.0 { report::violation("an element was corrupt when dropped") } LIVE.fetch_sub(1, Relaxed); } }
impl Clone for D { fn clone(&self) -> D { D::new(self.0) } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: u64| a.iter().position(|x| x == k).map(|i| a[i + 1].parse().unwrap()).unwrap_or(d);
    let (seed, n, from) = (get("--seed", 1), get("--iters", 1000), get("--from", 0));
    let only = a.iter().any(|x| x == "--only").then(|| get("--only", 0));
    let mut total = 0;
    let range = match only { Some(i) => i..i + 1, None => from..from + n };
    let mut go = |name: &str, stream: u64, f: &dyn Fn(&mut Tr, &mut Rng)| {
        let mut hs = Vec::new();
        let mut events = 0;
        for i in range.clone() {
            let mut r = Rng::for_history(seed, stream, i);
            let mut t = Tr { h: Fnv(0xcbf29ce484222325), hb: Fnv(0xcbf29ce484222325), log: only.is_some(), n: 0, allocs: true };
            if only.is_some() { println!("SECTION {name}") }
            let (l0, d0) = (ledger::live(), LIVE.load(Relaxed));
            f(&mut t, &mut r);
            t.ev("left over", &(ledger::live() - l0, LIVE.load(Relaxed) - d0));
            if let Some(e) = ledger::error() { t.ev("ledger", &e) }
            hs.push((t.h.0, t.hb.0));
            events += t.n;
        }
        if only.is_none() {
            use std::fmt::Write;
            let mut s = String::new();
            for (h, b) in hs { write!(s, " {h:x}.{b:x}"); }
            println!("TRACE {name} {events}{s}");
        }
    };
    go("core", 1, &core_ops::run);
    #[cfg(feature = "f_alloc")]
    go("alloc", 2, &alloc_ops::run);
    #[cfg(feature = "f_std")]
    go("std", 3, &std_ops::run);
    #[cfg(feature = "f_dyn")]
    go("dyn", 4, &dyn_ops::run);
    println!("DONE");
}
