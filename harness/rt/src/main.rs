#![allow(clippy::all, unused, dead_code, static_mut_refs, unexpected_cfgs, dangerous_implicit_autorefs)]
mod prng;
#[macro_use]
mod report;
mod ledger;
#[cfg(feature = "w_bytes")]
mod bytes_seq;
#[cfg(feature = "w_bytes")]
mod bytes_mt;
#[cfg(feature = "w_conts")]
mod conts;
#[cfg(feature = "w_views")]
mod views;
#[cfg(feature = "w_charp")]
mod charp;
#[cfg(feature = "w_clos")]
mod clos;
#[cfg(feature = "w_dynt")]
mod dynt;
#[cfg(feature = "w_dynt")]
mod dynt_traits;
#[cfg(feature = "w_fut")]
mod fut;
#[cfg(all(feature = "w_stabs", feature = "stb"))]
mod stabs;

pub struct Opts {
    pub seed: u64,
    pub iters: u64,
    pub steps: usize,
    pub only: Option<u64>,
    pub millis: u64,
    pub shard: u64,
    pub shards: u64,
    pub verbose: bool,
    pub args: Vec<String>,
}
impl Opts {
    /// Runs history i for all i of this shard (or the one asked for), within the time allowed.
    pub fn histories(&self, stream: u64, mut f: impl FnMut(prng::Rng, u64)) {
        let t0 = std::time::Instant::now();
        if let Some(i) = self.only {
            report::ctx(format!("--seed {} --steps {} --only {i}", self.seed, self.steps));
            return f(prng::Rng::for_history(self.seed, stream, i), i);
        }
        let mut i = self.shard;
        while i < self.iters {
            report::ctx(format!("--seed {} --steps {} --only {i}", self.seed, self.steps));
            f(prng::Rng::for_history(self.seed, stream, i), i);
            i += self.shards;
            if self.millis > 0 && t0.elapsed().as_millis() as u64 > self.millis { break; }
        }
    }
}

fn main() {
    let mut a = std::env::args().skip(1);
    let what = a.next().expect("usage: rt WORKLOAD [--seed N] [--iters N] [--steps N] [--only I] [--millis N] [--shard K/N]");
    let mut o = Opts { seed: 1, iters: 1000, steps: 60, only: None, millis: 0, shard: 0, shards: 1, verbose: false, args: vec![] };
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("value");
        match &k[..] {
            "--seed" => o.seed = v().parse().unwrap(),
            "--iters" => o.iters = v().parse().unwrap(),
            "--steps" => o.steps = v().parse().unwrap(),
            "--only" => o.only = Some(v().parse().unwrap()),
            "--millis" => o.millis = v().parse().unwrap(),
            "--shard" => { let s = v(); let (x, y) = s.split_once('/').unwrap(); o.shard = x.parse().unwrap(); o.shards = y.parse().unwrap(); }
            "--verbose" => o.verbose = true,
            _ => o.args.push(k),
        }
    }
    #[cfg(feature = "w_bytes")]
    use bytes_seq::Mode;
    match &what[..] {
        #[cfg(feature = "w_bytes")]
        "bytes-content" => bytes_seq::run(&o, Mode::Content),
        #[cfg(feature = "w_bytes")]
        "bytes-owner" => bytes_seq::run(&o, Mode::Owner),
        #[cfg(feature = "w_bytes")]
        "bytes-alloc" => bytes_seq::run(&o, Mode::Alloc),
        #[cfg(feature = "w_bytes")]
        "bytes-mt" => bytes_mt::run(&o),
        #[cfg(feature = "w_conts")]
        "conts" => conts::run(&o),
        #[cfg(feature = "w_views")]
        "views" => views::run(&o),
        #[cfg(feature = "w_charp")]
        "charp" => charp::run(&o),
        #[cfg(feature = "w_clos")]
        "clos" => clos::run(&o),
        #[cfg(feature = "w_clos")]
        "clos-mt" => clos::run_mt(&o),
        #[cfg(feature = "w_dynt")]
        "dynt" => dynt::run(&o),
        #[cfg(feature = "w_dynt")]
        "dynt-mt" => dynt::run_mt(&o),
        #[cfg(feature = "w_fut")]
        "fut" => fut::run(&o),
        #[cfg(feature = "w_fut")]
        "fut-mt" => fut::run_mt(&o),
        #[cfg(all(feature = "w_stabs", feature = "stb"))]
        "stabs" => stabs::run(&o),
        "nop" => {}
        _ => { eprintln!("unknown workload {what}"); std::process::exit(2) }
    }
    report::finish();
}
