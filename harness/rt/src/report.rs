use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;

#[derive(Default)]
struct Rep {
    counts: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
}
static REP: Mutex<Option<Rep>> = Mutex::new(None);
static CTX: Mutex<String> = Mutex::new(String::new());

fn with<R>(f: impl FnOnce(&mut Rep) -> R) -> R {
    crate::ledger::untracked(|| {
        let mut g = REP.lock().unwrap_or_else(|e| e.into_inner());
        f(g.get_or_insert_with(Rep::default))
    })
}
/// one observed event of the given kind
pub fn ev(k: &str) { evn(k, 1) }
pub fn evn(k: &str, n: u64) {
    with(|r| match r.counts.get_mut(k) { Some(c) => *c += n, None => { r.counts.insert(k.to_string(), n); } })
}
/// one observed abstract state (deduplicated)
pub fn seen(h: u64) { if cfg!(miri) && h % 4 != 0 { return } with(|r| { r.distinct.insert(h); }) }
pub fn fold(parts: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for p in parts { h = (h ^ p).wrapping_mul(0x100_0000_01b3); h ^= h >> 29; }
    h
}
pub fn seen_parts(parts: &[u64]) { seen(fold(parts)) }
pub fn sample(s: impl FnOnce() -> String) { with(|r| if r.samples.len() < 6 { let s = cut(&s(), 500); r.samples.push(s) }) }
/// what a violation is attributed to (workload and history), for the replay file
pub fn ctx(s: String) { crate::ledger::untracked(|| *CTX.lock().unwrap_or_else(|e| e.into_inner()) = s) }

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => { for u in c.encode_utf16(&mut [0; 2]) { o.push_str(&format!("\\u{u:04x}")) } }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// the beginning and the end of what is too long to be read
fn cut(s: &str, n: usize) -> String {
    if s.len() <= n { return s.to_string() }
    let c: Vec<char> = s.chars().collect();
    if c.len() <= n { return s.to_string() }
    let at = |r: std::ops::Range<usize>| c[r].iter().collect::<String>();
    format!("{} ...({} characters)... {}", at(0..n * 3 / 4), c.len() - n, at(c.len() - n / 4..c.len()))
}
pub fn violation(what: &str) -> ! {
    crate::ledger::untracked(|| {
        let what = &cut(what, 3000);
        let ctx = CTX.lock().unwrap_or_else(|e| e.into_inner()).clone();
        println!("VIOL {{\"what\":{},\"context\":{}}}", esc(what), esc(&cut(&ctx, 6000)));
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(66)
    })
}
pub fn finish() {
    if let Some(e) = crate::ledger::error() { violation(&format!("allocator ledger: {e}")) }
    with(|r| {
        let c: Vec<String> = r.counts.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect();
        let s: Vec<String> = r.samples.iter().map(|s| esc(s)).collect();
        let mut d: Vec<u64> = r.distinct.iter().copied().collect();
        d.sort();
        d.truncate(200_000);
        let d: Vec<String> = d.iter().map(|h| format!("\"{h:x}\"")).collect();
        println!("STATS {{\"counts\":{{{}}},\"samples\":[{}],\"distinct\":[{}]}}", c.join(","), s.join(","), d.join(","));
    })
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { $crate::ledger::untracked(|| $crate::report::violation(&format!($($t)*))) } };
}
