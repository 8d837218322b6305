// ================================================================ the engine and the key store: contracts only
// (they are discharged by the checks of C09 to C12)
//@closures on
//@include rewrites.inc
//@rewrite "\.unwrap_or_else\(\|e\| panic!\([^)]*\)\)" => ".vx_or_panic()"
//@rewrite "\.expect\(" => ".vx_expect("
//@include vaulttypes.inc
//@bodies off
impl VxAsRef for VaultId {
    open spec fn bytes(&self) -> Seq<u8> { self.0.0@ }
//@fn AsRef<[u8]> for VaultId::as_ref
//@end
}
//@include crypto_box.inc
//@include vault.inc
//@include keystore.inc
//@bodies on
//@rewrites clear
