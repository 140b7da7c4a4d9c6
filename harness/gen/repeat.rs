
// One header generation, into one of many sinks, whatever was generated before (C16).
use ::std::io::Write as _;
macro_rules! vf_builder { ($l:expr) => {{
    let l: u32 = $l;
    let mut b = ::safer_ffi::headers::builder().with_language(vf_lang(l & 255));
    if l & 256 != 0 { b = b.with_stable_header(false); }
    if l & 512 != 0 { b = b.with_guard("VF_GUARD_H").with_banner("/* vf banner: é */").with_text_after_guard("\n#define VF_AFTER_GUARD 1\n"); }
    b
}} }
struct Set1<'a> { out: &'a mut dyn ::std::io::Write, seen: ::std::collections::BTreeSet<String> }
impl ::safer_ffi::headers::Definer for Set1<'_> {
    fn insert(&mut self, n: &str) -> bool { self.seen.insert(n.into()) }
    fn out(&mut self) -> &mut dyn ::std::io::Write { self.out }
}
struct Set2<'a> { out: &'a mut Vec<u8>, seen: Vec<String> }
impl ::safer_ffi::headers::Definer for Set2<'_> {
    fn insert(&mut self, n: &str) -> bool { if self.seen.iter().any(|s| s == n) { false } else { self.seen.push(n.into()); true } }
    fn out(&mut self) -> &mut dyn ::std::io::Write { &mut *self.out }
}
// Starts another generation whenever it is written to.
struct Nested { got: Vec<u8>, n: u32 }
impl ::std::io::Write for Nested {
    fn write(&mut self, b: &[u8]) -> ::std::io::Result<usize> {
        self.n += 1;
        if self.n % 64 == 1 { let mut v = Vec::new(); vf_builder!((self.n / 64) % 3 + 256 * (self.n / 192 % 2)).to_writer(&mut v).generate()?; }
        self.got.extend_from_slice(b); Ok(b.len())
    }
    fn flush(&mut self) -> ::std::io::Result<()> { Ok(()) }
}
struct Bytewise(Vec<u8>);
impl ::std::io::Write for Bytewise {
    fn write(&mut self, b: &[u8]) -> ::std::io::Result<usize> { self.0.extend(b.first()); Ok(b.len().min(1)) }
    fn flush(&mut self) -> ::std::io::Result<()> { Ok(()) }
}
// A generation that fails halfway leaves nothing behind for the next one.
struct Gone(u64);
impl ::std::io::Write for Gone {
    fn write(&mut self, b: &[u8]) -> ::std::io::Result<usize> { if self.0 == 0 { panic!("VFSINK panics") } self.0 -= 1; Ok(b.len()) }
    fn flush(&mut self) -> ::std::io::Result<()> { Ok(()) }
}
#[no_mangle] pub unsafe extern "C" fn vf_again(lang: u32, sink: u32, arg: u64, path: *const ::core::ffi::c_char, out: *mut u8, cap: usize) -> i64 {
    let r = ::std::panic::catch_unwind(|| -> ::std::io::Result<Vec<u8>> {
        let mut v: Vec<u8> = Vec::new();
        let p = if path.is_null() { "" } else { ::std::ffi::CStr::from_ptr(path).to_str().unwrap() };
        let b = || vf_builder!(lang);
        match sink {
            0 => b().to_writer(&mut v).generate()?,
            1 => { b().to_file(p)?.generate()?; v = ::std::fs::read(p)?; }
            2 => { ::std::fs::write(p, vec![b'#'; 1 << 20])?; b().to_file(p)?.generate()?; v = ::std::fs::read(p)?; }
            3 => { b().to_writer(::std::io::BufWriter::new(::std::fs::File::create(p)?)).generate()?; v = ::std::fs::read(p)?; }
            4 => b().generate_with_definer(&mut Set1 { out: &mut v, seen: Default::default() })?,
            5 => b().generate_with_definer(&mut Set2 { out: &mut v, seen: Default::default() })?,
            6 => { let mut n = Nested { got: v, n: 0 }; b().to_writer(&mut n).generate()?; v = n.got; }
            7 => b().to_writer(::std::io::LineWriter::new(&mut v)).generate()?,
            8 => { let mut n = Bytewise(v); b().to_writer(&mut n).generate()?; v = n.0; }
            9 => { // fails or panics on the way
                let mut room = vec![0u8; (arg % 5000) as usize];
                let e = b().to_writer(&mut room[..]).generate();
                let _ = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| b().to_writer(&mut Gone(arg % 300)).generate()));
                let _ = e;
                b().to_writer(&mut v).generate()?;
            }
            10 => { // one builder's output straight after another's, in one sink
                b().to_writer(&mut v).generate()?;
                let n = v.len();
                b().to_writer(&mut v).generate()?;
                if v[..n] != v[n..] { return Ok(v); }
                v.truncate(n);
            }
            _ => { // the name of an exported function is taken
                let mut d = Set2 { out: &mut v, seen: vec![p.into()] };
                let r = b().generate_with_definer(&mut d);
                return match r { Ok(()) => Ok(b"Ok".to_vec()), Err(e) => Ok(format!("{:?}", e.kind()).into_bytes()) };
            }
        }
        Ok(v)
    });
    match r {
        Ok(Ok(v)) => { if v.len() <= cap { ::core::ptr::copy_nonoverlapping(v.as_ptr(), out, v.len()); } v.len() as i64 }
        Ok(Err(e)) => { let s = format!("{:?}: {}", e.kind(), e); let n = s.len().min(cap); ::core::ptr::copy_nonoverlapping(s.as_ptr(), out, n); -1000 - n as i64 }
        Err(_) => -2,
    }
}
