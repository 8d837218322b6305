// Contracts for client/src/sync.rs and client/src/types/snapshot.rs: synchronising snapshots
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
//@include std.inc
//@include entry.inc
//@include time.inc
//@include client_base.inc
//@include client_error.inc
// contracts only: discharged by the checks of C03, C08 to C12, C17, C20, C22 and by sync.vrs
//@bodies off
//@include cache.inc
//@rewrites clear
//@rewrite "Arc<(RwLock<[^\n]*>)>,?" => "$1,"
//@rewrite "(fn (?:insert|get|delete|contains_key|keys|clear|reload)\(\s*)&self(,\s*key: |, cache|\) -> (?:\(r: )?Result)" => "${1}&mut self$2"
//@include store.inc
//@rewrites clear
//@closures on
//@rewrite "\"[^\"]*\"\.(to_string|to_owned)\(\)\.into\(\)" => "vx_fatal()"
//@include runner.inc
//@include client.inc
//@include client_rest.inc
pub trait Zeroize: Sized { fn zeroize(&mut self); }
pub mod snapshot {
use super::*;
//@include aead.inc
//@rewrites clear
//@include snapfile.inc
//@include snapmem.inc
}
use snapshot::{opened, payload_at, sealed_as, World, Path};
//@rewrites clear
//@include snapshot.inc
//@rewrites clear
//@include sync.inc
//@bodies on
//@rewrites clear
//@include sync_snap.inc
} // verus!
fn main() {}
