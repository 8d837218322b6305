// Contracts for client/src/security/keyprovider.rs
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
//@include std.inc
//@include entry.inc
//@include time.inc
//@include client_base.inc
//@include client_error.inc
//@include keyprov.inc
} // verus!
fn main() {}
