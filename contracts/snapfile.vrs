// Contracts for engine/src/snapshot/logic.rs: the snapshot container, the snapshot file, and every state the file
// system goes through while one is written
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
//@include std.inc
//@include aead.inc
pub uninterp spec fn fault() -> bool;
//@include snapfile.inc
} // verus!
fn main() {}
