use super::*;

#[derive_ReprC(dyn, Clone)]
pub trait Shape {
    fn area(&self, k: u32) -> u64;
    fn name(&self) -> repr_c::String;
    fn add(&self, other: repr_c::Box<u32>) -> Option<repr_c::Box<u32>>;
}
#[derive(Clone)]
struct Sq(D);
impl Shape for Sq {
    fn area(&self, k: u32) -> u64 { self.0 .0 as u64 * k as u64 }
    fn name(&self) -> repr_c::String { format!("sq{}", self.0 .0).into() }
    fn add(&self, o: repr_c::Box<u32>) -> Option<repr_c::Box<u32>> { if *o % 2 == 0 { Some(Box::new(*o + self.0 .0).into()) } else { None } }
}
pub fn run(t: &mut Tr, r: &mut Rng) {
    let k = r.next() as u32 % 1000;
    let v: VirtualPtr<dyn 'static + Shape> = t.op("make", || Box::new(Sq(D::new(k))).into());
    let mut vs = vec![v];
    for _ in 0..r.below(8) {
        if vs.is_empty() { break }
        let i = r.below(vs.len());
        match r.below(5) {
            0 => { let x = t.op("area", || vs[i].area(k)); t.ev("area", &x) }
            1 => { let x = t.op("name", || vs[i].name()); t.ev("name", &&*x); t.op("drop", || drop(x)) }
            2 => { let a = r.next() as u32 % 10; let x = t.op("add", || vs[i].add(Box::new(a).into())); t.ev("added", &x.as_ref().map(|b| **b)); t.op("drop", || drop(x)) }
            3 => { let c = t.op("clone", || vs[i].clone()); vs.push(c) }
            _ => { let v = vs.swap_remove(i); t.op("drop", || drop(v)) }
        }
        t.ev("live", &LIVE.load(Relaxed));
    }
    t.op("drop", || for v in vs.drain(..) { drop(v) });
}
