// Contracts for engine/src/vault/{view,crypto_box}.rs and the parts of types/ they use
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
//@include std.inc
//@include entry.inc
//@closures on
//@include rewrites.inc

//@include vaulttypes.inc

//@include crypto_box.inc
//@include vault.inc
} // verus!
fn main() {}
