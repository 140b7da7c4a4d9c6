#![allow(warnings)]
use ::safer_ffi::prelude::*;
use ::safer_ffi::layout::{ReprC, CLayoutOf};
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/support.rs"));

#[derive_ReprC]
#[repr(u8)]
#[derive(Clone, Copy)]
pub enum VfLevel { Low = 1, High = 10 }

/// Its fields are laid out by what `VfLevel` is declared as.
#[derive_ReprC]
#[repr(C)]
pub struct VfPair { pub level: VfLevel, pub next: u8 }

#[ffi_export]
fn vf_pair(p: VfPair) -> u8 { p.next }

/// A renamed wrapper, seen by value first and behind a pointer next.
#[derive_ReprC(rename = "VfHandle")]
#[repr(transparent)]
pub struct VfH(pub u32);

#[derive_ReprC]
#[repr(C)]
pub struct VfUse { pub a: VfH }

#[ffi_export]
fn vf_alias(u: VfUse, h: &VfH) -> u32 { 0 }
