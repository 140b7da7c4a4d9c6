
// Sinks that fail, accept little, are interrupted, buffer: header generation into them, judged against the complete header.
use ::std::io::{self as vio, Write as _};
#[repr(C)] #[derive(Clone, Copy)]
pub struct Plan { pub lang: u32, pub at_write: u64, pub at_byte: u64, pub kind: u32, pub sticky: u32, pub chunk: u32, pub interrupts: u32, pub wrap: u32, pub fail_flush: u32, pub seed: u64 }
// status: 0 Ok, 1 Err, 2 panic
#[repr(C)]
pub struct Seen { pub status: u32, pub same_error: u32, pub prefix: u32, pub complete: u32, pub accepted: u64, pub writes: u64, pub failed: u32, pub flushes: u32, pub interrupted: u64, pub after: u64, pub msg_len: u32, pub msg: [u8; 256] }
const VF_KINDS: &[vio::ErrorKind] = &[vio::ErrorKind::Other, vio::ErrorKind::BrokenPipe, vio::ErrorKind::WouldBlock, vio::ErrorKind::TimedOut, vio::ErrorKind::PermissionDenied, vio::ErrorKind::AlreadyExists, vio::ErrorKind::UnexpectedEof, vio::ErrorKind::InvalidData, vio::ErrorKind::NotFound, vio::ErrorKind::OutOfMemory];
struct Sink { p: Plan, got: Vec<u8>, writes: u64, failed: bool, flushes: u32, rng: u64, interrupted: u64, after: u64, was_int: bool }
impl Sink {
    fn rnd(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }
    // kinds: 0..10 custom errors, 100 Ok(0), 101 a raw OS error
    fn fail(&mut self) -> vio::Result<usize> {
        self.failed = true;
        match self.p.kind { 100 => Ok(0), 101 => Err(vio::Error::from_raw_os_error(28)), k => Err(vio::Error::new(VF_KINDS[k as usize], "VFSINK 4711")) }
    }
}
impl vio::Write for Sink {
    fn write(&mut self, b: &[u8]) -> vio::Result<usize> {
        if b.is_empty() { return Ok(0); }
        if self.failed { self.after += 1; if self.p.sticky != 0 { return self.fail(); } self.got.extend_from_slice(b); return Ok(b.len()); }
        if self.p.interrupts != 0 && !self.was_int && self.rnd() % 100 < self.p.interrupts as u64 { self.interrupted += 1; self.was_int = true; return Err(vio::Error::new(vio::ErrorKind::Interrupted, "again")); }
        self.was_int = false;
        self.writes += 1;
        if self.writes == self.p.at_write { return self.fail(); }
        let mut n = b.len();
        if self.p.chunk != 0 { n = n.min(1 + (self.rnd() % self.p.chunk as u64) as usize); }
        let room = self.p.at_byte.saturating_sub(self.got.len() as u64);
        if room == 0 { return self.fail(); }
        n = n.min(room.min(1 << 40) as usize);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> vio::Result<()> {
        self.flushes += 1;
        if self.p.fail_flush != 0 && !self.failed { self.failed = true; return Err(vio::Error::new(VF_KINDS[self.p.kind as usize % 10], "VFSINK 4711")); }
        Ok(())
    }
}
struct VfDefiner<'a> { out: &'a mut dyn vio::Write, seen: ::std::collections::BTreeSet<String> }
impl ::safer_ffi::headers::Definer for VfDefiner<'_> {
    fn insert(&mut self, n: &str) -> bool { self.seen.insert(n.into()) }
    fn out(&mut self) -> &mut dyn vio::Write { self.out }
}
static mut VF_REF: [Option<Vec<u8>>; 3] = [None, None, None];
#[no_mangle] pub unsafe extern "C" fn vf_sink(plan: *const Plan, seen: *mut Seen) -> u64 {
    let p = *plan;
    let b = || ::safer_ffi::headers::builder().with_language(vf_lang(p.lang));
    if VF_REF[p.lang as usize].is_none() { let mut v = Vec::new(); b().to_writer(&mut v).generate().expect("the complete header"); VF_REF[p.lang as usize] = Some(v); }
    let full: &[u8] = VF_REF[p.lang as usize].as_ref().unwrap();
    if seen.is_null() { return full.len() as u64; }
    let mut s = Sink { p, got: Vec::with_capacity(full.len()), writes: 0, failed: false, flushes: 0, rng: p.seed | 1, interrupted: 0, after: 0, was_int: false };
    let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| match p.wrap {
        0 => b().to_writer(&mut s).generate(),
        1 => b().to_writer(vio::BufWriter::new(&mut s)).generate(),
        2 => b().to_writer(vio::BufWriter::with_capacity(1 << 24, &mut s)).generate(),
        3 => b().to_writer(vio::LineWriter::new(&mut s)).generate(),
        4 => b().to_writer(vio::BufWriter::with_capacity(7, &mut s)).generate(),
        5 => b().generate_with_definer(&mut VfDefiner { out: &mut s, seen: Default::default() }),
        6 => b().to_writer(Box::new(&mut s) as Box<dyn vio::Write + '_>).generate(),
        _ => b().to_writer(&mut vio::BufWriter::new(&mut s)).generate(),
    }));
    let o = &mut *seen;
    *o = Seen::default_();
    match r {
        Ok(Ok(())) => o.status = 0,
        Ok(Err(e)) => {
            o.status = 1;
            o.same_error = match p.kind { 100 => e.kind() == vio::ErrorKind::WriteZero, 101 => e.raw_os_error() == Some(28), k => e.kind() == VF_KINDS[k as usize % 10] && e.to_string().contains("VFSINK 4711") } as u32;
            let m = format!("{:?}: {}", e.kind(), e); let n = m.len().min(256); o.msg[..n].copy_from_slice(&m.as_bytes()[..n]); o.msg_len = n as u32;
        }
        Err(_) => o.status = 2,
    }
    o.prefix = full.starts_with(&s.got) as u32;
    o.complete = (full == &s.got[..]) as u32;
    o.accepted = s.got.len() as u64; o.writes = s.writes; o.failed = s.failed as u32; o.flushes = s.flushes; o.interrupted = s.interrupted; o.after = s.after;
    full.len() as u64
}
impl Seen { fn default_() -> Seen { unsafe { ::core::mem::zeroed() } } }
// Into a file descriptor (wrap: 0 straight, 1 buffered) or a path (fd < 0). 0 Ok, 1 panic, otherwise 1000 + errno (or 1000 alone).
#[no_mangle] pub unsafe extern "C" fn vf_to_fd(lang: u32, fd: i32, wrap: u32, path: *const ::core::ffi::c_char) -> i64 {
    use ::std::os::fd::FromRawFd;
    let r = ::std::panic::catch_unwind(|| {
        let b = ::safer_ffi::headers::builder().with_language(vf_lang(lang));
        if fd < 0 { return b.to_file(::std::ffi::CStr::from_ptr(path).to_str().unwrap())?.generate(); }
        let f = ::std::fs::File::from_raw_fd(fd);
        if wrap == 0 { b.to_writer(f).generate() } else { b.to_writer(vio::BufWriter::new(f)).generate() }
    });
    match r { Ok(Ok(())) => 0, Ok(Err(e)) => 1000 + e.raw_os_error().unwrap_or(0) as i64, Err(_) => 1 }
}
