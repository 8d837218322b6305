// Contracts for engine/src/store/storage.rs, engine/src/store/storage/cache.rs and client/src/types/store.rs
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std.inc
//@include time.inc
//@include cache_std.inc
//@include cache.inc
// Locks: `RwLock` is read as exclusive access to its content (sequential use; C24 and C27 are not claimed).
//@include lock.inc
//@include store.inc
} // verus!
fn main() {}
