use super::*;
use safer_ffi::bytes::Bytes;
use std::ffi::{CStr, CString};
use std::io::Read;

pub fn run(t: &mut Tr, r: &mut Rng) {
    let data: Vec<u8> = (0..r.below(80)).map(|_| r.byte()).collect();
    let mut b = Bytes::from_slice(&data);
    let mut buf = [0; 16];
    for _ in 0..r.below(8) {
        let n = r.below(17);
        let k = t.op("read", || b.read(&mut buf[..n]).unwrap());
        t.ev("read", &(k, buf, b.len(), b.as_slice()));
    }
    let mut rest = vec![];
    b.read_to_end(&mut rest).unwrap();
    t.ev("rest", &rest);
    let text: String = (0..r.below(9)).map(|_| *r.pick(&['a', 'é', 'Z', '7'])).collect();
    let cs = CString::new(text.clone()).unwrap();
    let c: char_p::Box = t.op("new", || char_p::new(&*cs));
    t.ev("char_p", &(c.to_str(), c.to_bytes(), c.to_str() == text));
    let d: char_p::Box = t.op("new", || char_p::new(cs.clone()));
    t.ev("eq", &(c == d));
    t.op("drop", || { drop(c); drop(d) });
    let e = char_p::Box::try_from("a\0b".to_string()).unwrap_err();
    t.ev("error", &(&e as &dyn std::error::Error).to_string());
}
