// Contracts for client/src/security/keystore.rs and NCKey of engine/src/vault/crypto_box.rs
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
//@include std.inc
//@include entry.inc
//@closures on
//@include rewrites.inc
//@rewrite "\.unwrap_or_else\(\|e\| panic!\([^)]*\)\)" => ".vx_or_panic()"
//@rewrite "\.expect\(" => ".vx_expect("

//@include vaulttypes.inc
impl VxAsRef for VaultId {
    open spec fn bytes(&self) -> Seq<u8> { self.0.0@ }
//@fn AsRef<[u8]> for VaultId::as_ref
@rx "self\.0\.as_ref\(\)" => "self.0.0.as_slice()"
//@end
}
//@include crypto_box.inc

//@include keystore.inc
} // verus!
fn main() {}
