// Contracts for stm/src/stm: transactional variables, transactions
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include entry.inc
//@include stm.inc
} // verus!
fn main() {}
