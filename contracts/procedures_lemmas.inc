/// decrypting what was encrypted with the same key, nonce and associated data gives the plaintext back
pub proof fn lemma_aead_inverse(e: AeadEncrypt, d: AeadDecrypt, k: Seq<u8>, o: Vec<u8>, r: Result<Vec<u8>, FatalProcedureError>)
    requires
        e.uses(seq![k], Ok(o)), d.uses(seq![k], r),
        d.cipher == e.cipher, d.nonce@ == e.nonce@, d.associated_data@ == e.associated_data@,
        d.tag@ == o@.take(16), d.ciphertext@ == o@.skip(16),
    ensures r matches Ok(p) && p@ == e.plaintext@,
{
    broadcast use axiom_aead;
    let s = aead_seal(e.cipher.alg(), k, e.nonce@, e.associated_data@, e.plaintext@);
    assert(o@ =~= s.1 + s.0);
    assert(o@.take(16) =~= s.1);
    assert(o@.skip(16) =~= s.0);
}
/// unwrapping what was wrapped with the same key gives the wrapped key back
pub proof fn lemma_kw_inverse(e: AesKeyWrapEncrypt, d: AesKeyWrapDecrypt, kek: Seq<u8>, key: Seq<u8>, c: Vec<u8>, r: Result<Products<()>, FatalProcedureError>)
    requires e.uses(seq![kek, key], Ok(c)), d.derives(seq![kek], r), d.wrapped_key@ == c@,
    ensures r matches Ok(p) && p.secret@ == key,
{
    broadcast use axiom_kw;
    assert(c@ =~= kw_wrap(kek, key));
}
/// a key of a wrong length or a malformed ciphertext gives an error, and then nothing is written
pub proof fn lemma_malformed<R: RunnerState>(d: AesKeyWrapDecrypt, a: R, b: R, r: Result<(), ProcedureError>, k: Seq<u8>)
    requires d.step(a, b, r), a.at(d.decryption_key.id()) == Some(k), k.len() != 32 || d.wrapped_key@.len() % 8 != 0 || d.wrapped_key@.len() < 8,
    ensures r is Err, forall|l: (VaultId, RecordId)| #[trigger] b.at(l) == a.at(l),
{
    if r is Ok {
        let (s, q) = choose|s: Seq<Seq<u8>>, q: Products<()>| #[trigger] d.derives(s, Ok(q)) && sees(a, d.srcs(), s);
        assert(d.srcs()[0].id() == d.decryption_key.id());
        assert(s[0] == k);
    }
}
