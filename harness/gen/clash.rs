#![allow(warnings)]
use ::safer_ffi::prelude::*;
use ::safer_ffi::layout::{ReprC, CLayoutOf};
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/support.rs"));

//~ same constants
mod a {
    use super::*;
    #[ffi_export]
    const VF_LIMIT: i32 = 1;
}
mod b {
    use super::*;
    #[ffi_export]
    const VF_LIMIT: i32 = 2;
}
//~ same untyped constants
mod a {
    use super::*;
    #[ffi_export(untyped)]
    const VF_LIMIT: i32 = 1;
}
mod b {
    use super::*;
    #[ffi_export(untyped)]
    const VF_LIMIT: &str = "2";
}
//~ constants that differ in type and agree in value
mod a {
    use super::*;
    #[ffi_export]
    const VF_LIMIT: u8 = 1;
}
#[ffi_export]
const VF_LIMIT: i64 = 1;
//~ same types
mod a {
    use super::*;
    #[ffi_export]
    #[derive_ReprC]
    #[repr(C)]
    pub struct VfClash { pub one: u8 }
}
mod b {
    use super::*;
    #[ffi_export]
    #[derive_ReprC]
    #[repr(C)]
    pub struct VfClash { pub two: u64 }
}
//~ same types by renaming
#[derive_ReprC(rename = "VfClash")]
#[repr(C)]
pub struct One { pub one: u8 }
#[derive_ReprC(rename = "VfClash")]
#[repr(u16)]
#[derive(Clone, Copy)]
pub enum Two { Two = 2 }
#[ffi_export]
fn vf_use(a: One, b: Two) {}
//~ array of options and option of array
#[ffi_export]
fn vf_use(a: &[::safer_ffi::option::TaggedOption<u8>; 16], b: &::safer_ffi::option::TaggedOption<[u8; 16]>) {}
//~ fine: distinct names
mod a {
    use super::*;
    #[ffi_export]
    const VF_LIMIT: i32 = 1;
    #[derive_ReprC(rename = "VfOne")]
    #[repr(C)]
    pub struct Same { pub one: u8 }
    #[ffi_export]
    fn vf_one(s: Same) {}
}
mod b {
    use super::*;
    #[ffi_export]
    const VF_LIMIT2: i32 = 2;
    #[derive_ReprC(rename = "VfTwo")]
    #[repr(C)]
    pub struct Same { pub two: u64 }
    #[ffi_export]
    fn vf_two(s: Same) {}
}
//~ fine: one type reached in many ways
#[ffi_export]
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct VfSame { pub one: u8 }
#[ffi_export]
fn vf_use(a: VfSame, b: &VfSame, c: repr_c::Box<VfSame>, d: [VfSame; 2], e: Option<&'static VfSame>, f: c_slice::Ref<'_, VfSame>) -> VfSame { a }
#[ffi_export]
fn vf_more(a: extern "C" fn(VfSame) -> VfSame) {}
