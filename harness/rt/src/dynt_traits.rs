//! The trait shapes of dynt.rs. (Spelled out: `#[derive_ReprC(dyn)]` does not take a `self` that comes from a macro.)
use crate::dynt::Wide;
use crate::report;
use safer_ffi::prelude::*;
use std::pin::Pin;

pub mod shared {
    use super::*;
    #[derive_ReprC(dyn, Clone)]
    pub trait Tr {
        fn m0(&self, x: u32, y: u8) -> u64;
        fn m1(&self, x: u32, y: u8) -> u64;
        fn m2(&self, _x: u32, y: u8) -> u64 { report::violation(&format!("the default body of a method ran instead of the object's own ({y})")) }
        fn m3(&self, a: u8, b: Wide, c: f64, d: repr_c::Box<u64>, e: c_slice::Ref<'_, u8>, f: f32, g: i16) -> Wide;
        fn m4(&self);
        fn m5(&self, d: u64) -> u64;
        fn m6(&self, v: repr_c::Vec<u16>, k: bool) -> Option<repr_c::Box<u64>>;
        fn m7(&self) -> c_slice::Raw<u8>;
        fn m8(&self) -> usize;
        fn m9(&self, x: i64, y: i64, z: i64) -> i64 { x.wrapping_mul(3).wrapping_sub(y) ^ z }
    }
}

pub mod plain {
    use super::*;
    #[derive_ReprC(dyn)]
    pub trait Tr {
        fn m0(&self, x: u32, y: u8) -> u64;
        fn m1(&self, x: u32, y: u8) -> u64;
        fn m2(&self, _x: u32, y: u8) -> u64 { report::violation(&format!("the default body of a method ran instead of the object's own ({y})")) }
        fn m3(&self, a: u8, b: Wide, c: f64, d: repr_c::Box<u64>, e: c_slice::Ref<'_, u8>, f: f32, g: i16) -> Wide;
        fn m4(&self);
        fn m5(&self, d: u64) -> u64;
        fn m6(&self, v: repr_c::Vec<u16>, k: bool) -> Option<repr_c::Box<u64>>;
        fn m7(&self) -> c_slice::Raw<u8>;
        fn m8(&self) -> usize;
        fn m9(&self, x: i64, y: i64, z: i64) -> i64 { x.wrapping_mul(3).wrapping_sub(y) ^ z }
    }
}

pub mod mixed {
    use super::*;
    #[derive_ReprC(dyn)]
    pub trait Tr {
        fn m0(&self, x: u32, y: u8) -> u64;
        fn m1(&mut self, x: u32, y: u8) -> u64;
        fn m2(&self, _x: u32, y: u8) -> u64 { report::violation(&format!("the default body of a method ran instead of the object's own ({y})")) }
        fn m3(&mut self, a: u8, b: Wide, c: f64, d: repr_c::Box<u64>, e: c_slice::Ref<'_, u8>, f: f32, g: i16) -> Wide;
        fn m4(&self);
        fn m5(&mut self, d: u64) -> u64;
        fn m6(&self, v: repr_c::Vec<u16>, k: bool) -> Option<repr_c::Box<u64>>;
        fn m7(&mut self) -> c_slice::Raw<u8>;
        fn m8(&self) -> usize;
        fn m9(&mut self, x: i64, y: i64, z: i64) -> i64 { x.wrapping_mul(3).wrapping_sub(y) ^ z }
    }
}

pub mod mixed_clone {
    use super::*;
    #[derive_ReprC(dyn, Clone)]
    pub trait Tr {
        fn m0(&mut self, x: u32, y: u8) -> u64;
        fn m1(&self, x: u32, y: u8) -> u64;
        fn m2(&mut self, _x: u32, y: u8) -> u64 { report::violation(&format!("the default body of a method ran instead of the object's own ({y})")) }
        fn m3(&self, a: u8, b: Wide, c: f64, d: repr_c::Box<u64>, e: c_slice::Ref<'_, u8>, f: f32, g: i16) -> Wide;
        fn m4(&mut self);
        fn m5(&self, d: u64) -> u64;
        fn m6(&mut self, v: repr_c::Vec<u16>, k: bool) -> Option<repr_c::Box<u64>>;
        fn m7(&self) -> c_slice::Raw<u8>;
        fn m8(&mut self) -> usize;
        fn m9(&self, x: i64, y: i64, z: i64) -> i64 { x.wrapping_mul(3).wrapping_sub(y) ^ z }
    }
}

pub mod exclusive {
    use super::*;
    #[derive_ReprC(dyn)]
    pub trait Tr {
        fn m0(&mut self, x: u32, y: u8) -> u64;
        fn m1(&mut self, x: u32, y: u8) -> u64;
        fn m2(&mut self, _x: u32, y: u8) -> u64 { report::violation(&format!("the default body of a method ran instead of the object's own ({y})")) }
        fn m3(&mut self, a: u8, b: Wide, c: f64, d: repr_c::Box<u64>, e: c_slice::Ref<'_, u8>, f: f32, g: i16) -> Wide;
        fn m4(&mut self);
        fn m5(&mut self, d: u64) -> u64;
        fn m6(&mut self, v: repr_c::Vec<u16>, k: bool) -> Option<repr_c::Box<u64>>;
        fn m7(&mut self) -> c_slice::Raw<u8>;
        fn m8(&mut self) -> usize;
        fn m9(&mut self, x: i64, y: i64, z: i64) -> i64 { x.wrapping_mul(3).wrapping_sub(y) ^ z }
    }
}

pub mod pin_mut {
    use super::*;
    #[derive_ReprC(dyn)]
    pub trait Tr {
        fn m0(&self, x: u32, y: u8) -> u64;
        fn m1(self: Pin<&mut Self>, x: u32, y: u8) -> u64;
        fn m2(&self, _x: u32, y: u8) -> u64 { report::violation(&format!("the default body of a method ran instead of the object's own ({y})")) }
        fn m3(self: Pin<&mut Self>, a: u8, b: Wide, c: f64, d: repr_c::Box<u64>, e: c_slice::Ref<'_, u8>, f: f32, g: i16) -> Wide;
        fn m4(&self);
        fn m5(self: Pin<&mut Self>, d: u64) -> u64;
        fn m6(&self, v: repr_c::Vec<u16>, k: bool) -> Option<repr_c::Box<u64>>;
        fn m7(self: Pin<&mut Self>) -> c_slice::Raw<u8>;
        fn m8(&self) -> usize;
        fn m9(self: Pin<&mut Self>, x: i64, y: i64, z: i64) -> i64 { x.wrapping_mul(3).wrapping_sub(y) ^ z }
    }
}

pub mod pin_ref {
    use super::*;
    #[derive_ReprC(dyn, Clone)]
    pub trait Tr {
        fn m0(self: Pin<&Self>, x: u32, y: u8) -> u64;
        fn m1(&self, x: u32, y: u8) -> u64;
        fn m2(self: Pin<&Self>, _x: u32, y: u8) -> u64 { report::violation(&format!("the default body of a method ran instead of the object's own ({y})")) }
        fn m3(&self, a: u8, b: Wide, c: f64, d: repr_c::Box<u64>, e: c_slice::Ref<'_, u8>, f: f32, g: i16) -> Wide;
        fn m4(self: Pin<&Self>);
        fn m5(&self, d: u64) -> u64;
        fn m6(self: Pin<&Self>, v: repr_c::Vec<u16>, k: bool) -> Option<repr_c::Box<u64>>;
        fn m7(&self) -> c_slice::Raw<u8>;
        fn m8(self: Pin<&Self>) -> usize;
        fn m9(&self, x: i64, y: i64, z: i64) -> i64 { x.wrapping_mul(3).wrapping_sub(y) ^ z }
    }
}

pub mod pin_excl {
    use super::*;
    #[derive_ReprC(dyn, Clone)]
    pub trait Tr {
        fn m0(self: Pin<&mut Self>, x: u32, y: u8) -> u64;
        fn m1(self: Pin<&mut Self>, x: u32, y: u8) -> u64;
        fn m2(self: Pin<&mut Self>, _x: u32, y: u8) -> u64 { report::violation(&format!("the default body of a method ran instead of the object's own ({y})")) }
        fn m3(self: Pin<&mut Self>, a: u8, b: Wide, c: f64, d: repr_c::Box<u64>, e: c_slice::Ref<'_, u8>, f: f32, g: i16) -> Wide;
        fn m4(self: Pin<&mut Self>);
        fn m5(self: Pin<&mut Self>, d: u64) -> u64;
        fn m6(self: Pin<&mut Self>, v: repr_c::Vec<u16>, k: bool) -> Option<repr_c::Box<u64>>;
        fn m7(self: Pin<&mut Self>) -> c_slice::Raw<u8>;
        fn m8(self: Pin<&mut Self>) -> usize;
        fn m9(self: Pin<&mut Self>, x: i64, y: i64, z: i64) -> i64 { x.wrapping_mul(3).wrapping_sub(y) ^ z }
    }
}
