// ================================================================ client.rs: execute_procedure_chained
//@macros on
//@rewrites clear
//@file client/src/procedures/primitives.rs
/// `From<P> for StrongholdProcedure`: the enum's variant does the same as the procedure itself
pub trait VxProc: Procedure { spec fn sp(&self) -> StrongholdProcedure; proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) where Self::Output: VxOut requires self.sp().step(a, b, r), ensures acts_as(*self, a, b, r); }
pub trait VxFromProc<P: VxProc>: Sized { fn from(proc: P) -> (r: StrongholdProcedure) ensures r == proc.sp(); }
impl VxProc for WriteVault {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::WriteVault(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<WriteVault> for StrongholdProcedure {
//@fn From<WriteVault> for StrongholdProcedure::from
//@end
}
impl VxProc for RevokeData {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::RevokeData(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<RevokeData> for StrongholdProcedure {
//@fn From<RevokeData> for StrongholdProcedure::from
//@end
}
impl VxProc for GarbageCollect {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::GarbageCollect(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<GarbageCollect> for StrongholdProcedure {
//@fn From<GarbageCollect> for StrongholdProcedure::from
//@end
}
impl VxProc for CopyRecord {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::CopyRecord(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<CopyRecord> for StrongholdProcedure {
//@fn From<CopyRecord> for StrongholdProcedure::from
//@end
}
impl VxProc for Slip10Generate {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::Slip10Generate(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<Slip10Generate> for StrongholdProcedure {
//@fn From<Slip10Generate> for StrongholdProcedure::from
//@end
}
impl VxProc for Slip10Derive {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::Slip10Derive(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<Slip10Derive> for StrongholdProcedure {
//@fn From<Slip10Derive> for StrongholdProcedure::from
//@end
}
impl VxProc for BIP39Generate {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::BIP39Generate(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<BIP39Generate> for StrongholdProcedure {
//@fn From<BIP39Generate> for StrongholdProcedure::from
//@end
}
impl VxProc for BIP39Recover {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::BIP39Recover(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<BIP39Recover> for StrongholdProcedure {
//@fn From<BIP39Recover> for StrongholdProcedure::from
//@end
}
impl VxProc for PublicKey {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::PublicKey(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<PublicKey> for StrongholdProcedure {
//@fn From<PublicKey> for StrongholdProcedure::from
//@end
}
impl VxProc for GenerateKey {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::GenerateKey(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<GenerateKey> for StrongholdProcedure {
//@fn From<GenerateKey> for StrongholdProcedure::from
//@end
}
impl VxProc for Ed25519Sign {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::Ed25519Sign(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<Ed25519Sign> for StrongholdProcedure {
//@fn From<Ed25519Sign> for StrongholdProcedure::from
//@end
}
impl VxProc for X25519DiffieHellman {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::X25519DiffieHellman(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<X25519DiffieHellman> for StrongholdProcedure {
//@fn From<X25519DiffieHellman> for StrongholdProcedure::from
//@end
}
impl VxProc for Hmac {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::Hmac(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<Hmac> for StrongholdProcedure {
//@fn From<Hmac> for StrongholdProcedure::from
//@end
}
impl VxProc for Hkdf {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::Hkdf(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<Hkdf> for StrongholdProcedure {
//@fn From<Hkdf> for StrongholdProcedure::from
//@end
}
impl VxProc for ConcatKdf {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::ConcatKdf(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<ConcatKdf> for StrongholdProcedure {
//@fn From<ConcatKdf> for StrongholdProcedure::from
//@end
}
impl VxProc for AesKeyWrapEncrypt {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::AesKeyWrapEncrypt(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<AesKeyWrapEncrypt> for StrongholdProcedure {
//@fn From<AesKeyWrapEncrypt> for StrongholdProcedure::from
//@end
}
impl VxProc for AesKeyWrapDecrypt {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::AesKeyWrapDecrypt(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<AesKeyWrapDecrypt> for StrongholdProcedure {
//@fn From<AesKeyWrapDecrypt> for StrongholdProcedure::from
//@end
}
impl VxProc for Pbkdf2Hmac {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::Pbkdf2Hmac(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<Pbkdf2Hmac> for StrongholdProcedure {
//@fn From<Pbkdf2Hmac> for StrongholdProcedure::from
//@end
}
impl VxProc for AeadEncrypt {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::AeadEncrypt(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<AeadEncrypt> for StrongholdProcedure {
//@fn From<AeadEncrypt> for StrongholdProcedure::from
//@end
}
impl VxProc for AeadDecrypt {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::AeadDecrypt(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<AeadDecrypt> for StrongholdProcedure {
//@fn From<AeadDecrypt> for StrongholdProcedure::from
//@end
}
impl VxProc for ConcatSecret {
    open spec fn sp(&self) -> StrongholdProcedure { StrongholdProcedure::ConcatSecret(*self) }
    proof fn law_proc(&self, a: Client, b: Client, r: Result<ProcedureOutput, ProcedureError>) {}
}
impl VxFromProc<ConcatSecret> for StrongholdProcedure {
//@fn From<ConcatSecret> for StrongholdProcedure::from
//@end
}
//@rewrites clear
//@closures on
//@rewrite "fn execute_procedure_chained\(\s*&self" => "fn execute_procedure_chained(&mut self"
//@rewrite "fn execute_procedure<P>\(\s*&self" => "fn execute_procedure<P>(&mut self"
//@file client/src/types/client.rs
/// the states and outputs of the steps that succeeded, one after another
pub open spec fn steps(ps: Seq<StrongholdProcedure>, ss: Seq<Client>, out: Seq<ProcedureOutput>) -> bool {
    &&& ss.len() == out.len() + 1 && out.len() <= ps.len()
    &&& forall|i: int| 0 <= i < out.len() ==> (#[trigger] ps[i]).step(ss[i], ss[i + 1], Ok(out[i]))
}
/// `l` is where one of the first k steps writes
pub open spec fn written(ps: Seq<StrongholdProcedure>, k: int, l: (VaultId, RecordId)) -> bool {
    exists|i: int| 0 <= i < k && (#[trigger] ps[i]).out_loc() is Some && ps[i].out_loc()->Some_0.id() == l
}
proof fn lemma_written(ps: Seq<StrongholdProcedure>, k: int)
    requires 0 <= k,
    ensures forall|l: (VaultId, RecordId)| #[trigger] written(ps, k + 1, l) <==> written(ps, k, l) || (ps[k].out_loc() is Some && ps[k].out_loc()->Some_0.id() == l),
{
    assert forall|l: (VaultId, RecordId)| written(ps, k, l) || (ps[k].out_loc() is Some && ps[k].out_loc()->Some_0.id() == l) implies #[trigger] written(ps, k + 1, l) by {
        if !written(ps, k, l) { assert(ps[k].out_loc() is Some); }
    }
}
pub fn vx_vec1<T>(t: T) -> (r: Vec<T>) ensures r@ == seq![t], { let mut v = Vec::new(); v.push(t); assert(v@ =~= seq![t]); v }
/// what a step wrote is still there when no later step writes to the same place
pub proof fn lemma_still_there(ps: Seq<StrongholdProcedure>, ss: Seq<Client>, out: Seq<ProcedureOutput>, i: int, l: (VaultId, RecordId), k: int)
    requires
        steps(ps, ss, out), 0 <= i < k, k <= out.len(),
        ps[i].out_loc() is Some && ps[i].out_loc()->Some_0.id() == l,
        forall|j: int| i < j < k ==> writes_at(#[trigger] ps[j]) != Some(l),
    ensures ss[k].at(l) is Some && ss[k].at(l) == ss[i + 1].at(l),
    decreases k - i,
{
    if k == i + 1 {
        lemma_frame(ps[i], ss[i], ss[k], Ok(out[i]));
    } else {
        lemma_still_there(ps, ss, out, i, l, k - 1);
        lemma_frame(ps[k - 1], ss[k - 1], ss[k], Ok(out[k - 1]));
    }
}
/// what `execute_procedure_chained` returns and leaves
pub open spec fn chained(ps: Seq<StrongholdProcedure>, a: Client, b: Client, r: Result<Vec<ProcedureOutput>, ProcedureError>) -> bool {
    match r {
        Ok(out) => out@.len() == ps.len() && exists|ss: Seq<Client>| #[trigger] steps(ps, ss, out@) && ss[0] == a && ss.last() == b,
        // the chain stopped at the step that failed; what the steps before it wrote is revoked
        Err(e) => exists|ss: Seq<Client>, out: Seq<ProcedureOutput>, last: Client| #[trigger] stopped(ps, a, b, e, ss, out, last),
    }
}
pub open spec fn stopped(ps: Seq<StrongholdProcedure>, a: Client, b: Client, e: ProcedureError, ss: Seq<Client>, out: Seq<ProcedureOutput>, last: Client) -> bool {
    &&& steps(ps, ss, out) && ss[0] == a && out.len() < ps.len()
    &&& ps[out.len() as int].step(ss.last(), last, Err(e))
    &&& forall|l: (VaultId, RecordId)| if written(ps, out.len() as int, l) { b.at(l) is None || fault() } else { #[trigger] b.at(l) == last.at(l) }
}
proof fn lemma_single<P: VxProc>(p: P, a: Client, b: Client, r: Result<Vec<ProcedureOutput>, ProcedureError>) where P::Output: VxTryOut
    requires chained(seq![p.sp()], a, b, r),
    ensures match r {
        Ok(out) => out@.len() == 1 && P::Output::accepts(out@.last().0@) && exists|q: P::Output| #[trigger] p.step(a, b, Ok(q)) && q.out() == out@.last().0@,
        Err(e) => exists|last: Client| #[trigger] p.step(a, last, Err(e)) && same(last, b),
    },
{
    let ps = seq![p.sp()];
    match r {
        Ok(out) => {
            let ss = choose|ss: Seq<Client>| #[trigger] steps(ps, ss, out@) && ss[0] == a && ss.last() == b;
            assert(ps[0].step(ss[0], ss[1], Ok(out@[0])));
            p.law_proc(a, b, Ok(out@[0]));
            let q = choose|q: P::Output| #[trigger] p.step(a, b, Ok(q)) && q.out() == out@[0].0@;
            q.law_out();
        }
        Err(e) => {
            let (ss, out, last) = choose|ss: Seq<Client>, out: Seq<ProcedureOutput>, last: Client| #[trigger] stopped(ps, a, b, e, ss, out, last);
            assert(ps[0].step(ss.last(), last, Err(e)));
            p.law_proc(a, last, Err(e));
        }
    }
}
impl Client {
//@fn Client::execute_procedure_chained
@ret r
@attr #[verifier::loop_isolation(false)]
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(),
        chained(procedures@, *old(self), *final(self), r),
@rx "let mut out = Vec::new\(\);" => "let mut out = Vec::new(); let ghost mut ss: Seq<Client> = seq![*self];"
@rx "let mut log = Vec::new\(\);" => "let mut log: Vec<Location> = Vec::new();"
@loopiter 0 vx_it
@loop 0 for
    invariant
        self.wf(), vx_it.seq() == procedures@, out@.len() == vx_it.index@, steps(procedures@, ss, out@), ss[0] == *old(self), ss.last() == *self,
        forall|l: (VaultId, RecordId)| written(procedures@, vx_it.index@, l) <==> exists|j: int| 0 <= j < log@.len() && (#[trigger] log@[j]).id() == l,
@loopend 0
    proof {
        ss = ss.push(*self);
        let k = vx_it.index@ as int; let k1 = k + 1;
        lemma_written(procedures@, k);
        assert forall|l: (VaultId, RecordId)| #[trigger] written(procedures@, k1, l) implies exists|j: int| 0 <= j < log@.len() && (#[trigger] log@[j]).id() == l by {
            if written(procedures@, k, l) {
                let j = choose|j: int| 0 <= j < vx_l0.len() && (#[trigger] vx_l0[j]).id() == l;
                assert(log@[j].id() == l);
            } else {
                assert(log@[log@.len() - 1].id() == l);
            }
        }
        assert forall|l: (VaultId, RecordId)| (exists|j: int| 0 <= j < log@.len() && (#[trigger] log@[j]).id() == l) implies #[trigger] written(procedures@, k1, l) by {
            let j = choose|j: int| 0 <= j < log@.len() && (#[trigger] log@[j]).id() == l;
            if j < vx_l0.len() { assert(vx_l0[j].id() == l); }
        }
    }
@loopstart 0
    let ghost vx_l0 = log@;
@loopiter 1 vx_lt
@loop 1 for
    invariant
        self.wf(), vx_lt.seq() == vx_log,
        forall|l: (VaultId, RecordId)| #[trigger] self.at(l) == vx_last.at(l) || (self.at(l) is None && written(procedures@, out@.len() as int, l)),
        forall|j: int| 0 <= j < vx_lt.index@ ==> self.at((#[trigger] vx_log[j]).id()) is None || fault(),
@rx "return Err\(e\);" => "proof { assert(stopped(procedures@, *old(self), *self, e, ss, out@, vx_last)); } return Err(e);"
@rx "for location in" => "let ghost vx_last = *self; let ghost vx_log = log@; for location in"
//@end
//@fn Client::execute_procedure
@ret r
@rx "vec!\[procedure\.into\(\)\]" => "vx_vec1(<StrongholdProcedure as VxFromProc<P>>::from(procedure))"
@rx "\|mut vec\| vec\.pop\(\)\.unwrap\(\)\.try_into\(\)\.ok\(\)\.unwrap\(\)" => "|vx_v: Vec<ProcedureOutput>| -> (vx_o: P::Output) requires vx_v@.len() > 0, P::Output::accepts(vx_v@.last().0@) ensures vx_o.out() == vx_v@.last().0@ { let mut vec = vx_v; <P::Output as VxTryOut>::try_from(vec.pop().unwrap()).ok().unwrap() }"
@rx "let mapped" => "proof { lemma_single(procedure, *old(self), *self, res); } let mapped"
@rx "where\s*P: Procedure \+ Into<StrongholdProcedure>," => "where P: VxProc, P::Output: VxTryOut, StrongholdProcedure: VxFromProc<P>,"
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(),
        match r {
            Ok(o) => exists|q: P::Output| #[trigger] procedure.step(*old(self), *final(self), Ok(q)) && q.out() == o.out(),
            Err(e) => exists|last: Client| #[trigger] procedure.step(*old(self), last, Err(e)) && same(last, *final(self)),
        },
//@end
}
