// Contracts for client/src/sync.rs and the synchronising functions of client.rs and snapshot.rs
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
//@include std.inc
//@include entry.inc
//@include time.inc
//@include client_base.inc
//@include client_error.inc
// contracts only: discharged by the checks of C03, C08 to C12, C17 and C22
//@bodies off
//@include cache.inc
//@rewrites clear
//@rewrite "Arc<(RwLock<[^\n]*>)>,?" => "$1,"
//@rewrite "(fn (?:insert|get|delete|contains_key|keys|clear|reload)\(\s*)&self(,\s*key: |, cache|\) -> (?:\(r: )?Result)" => "${1}&mut self$2"
//@include store.inc
//@rewrites clear
//@closures on
//@rewrite "\"[^\"]*\"\.(to_string|to_owned)\(\)\.into\(\)" => "vx_fatal()"
//@include runner.inc
//@include client.inc
//@include client_rest.inc
//@bodies on
//@rewrites clear
//@include sync.inc
} // verus!
fn main() {}
