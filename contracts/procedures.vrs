#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
//@include std.inc
//@include entry.inc
//@include client_base.inc
//@closures on
//@rewrite "\"[^\"]*\"\.(to_string|to_owned)\(\)\.into\(\)" => "vx_fatal()"
//@include runner.inc
//@include crypto_prims.inc
//@include procs.inc
//@include primitives.inc
//@include procedures_lemmas.inc
//@bodies on
//@include procs_out.inc
} // verus!
fn main() {}
