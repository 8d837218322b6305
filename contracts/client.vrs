// Contracts for client/src/types/client.rs, client/src/types/vault.rs and client/src/procedures/clientrunner.rs
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
//@include std.inc
//@include entry.inc
//@include time.inc
//@include client_base.inc
//@include client_error.inc
//@bodies off
//@include cache.inc
//@rewrites clear
//@rewrite "Arc<(RwLock<[^\n]*>)>,?" => "$1,"
//@rewrite "(fn (?:insert|get|delete|contains_key|keys|clear|reload)\(\s*)&self(,\s*key: |, cache|\) -> (?:\(r: )?Result)" => "${1}&mut self$2"
//@include store.inc
//@bodies on
//@rewrites clear
//@closures on
//@rewrite "\"[^\"]*\"\.(to_string|to_owned)\(\)\.into\(\)" => "vx_fatal()"
//@include runner.inc
//@bodies off
//@include crypto_prims.inc
//@include procs.inc
//@include primitives.inc
//@include procedures_lemmas.inc
//@bodies on
//@include procs_out.inc
//@bodies on
//@include client.inc
//@include client_chain.inc
//@include client_rest.inc
} // verus!
fn main() {}
