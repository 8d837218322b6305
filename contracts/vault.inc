impl VxLawfulClone for VaultId {}
// ================================================================ types/transactions.rs
//@file engine/src/vault/types/transactions.rs
//@item struct Transaction
//@item const TRANSACTION_MAX_BYTES
//@item struct SealedTransaction
//@item struct SealedBlob
//@item struct DataTransaction #[derive(Clone, Copy)]
//@item struct RevocationTransaction #[derive(Clone, Copy)]
impl VxTryFromVec for Transaction {
    open spec fn plain(&self) -> Seq<u8> { self.0@ }
    open spec fn fits(s: Seq<u8>) -> bool { s.len() == TRANSACTION_MAX_BYTES }
//@fn TryFrom<Vec<u8>> for Transaction::try_from
@rx "Self::Error" => "()"
//@end
}
impl VxTryFromVec for Vec<u8> {
    open spec fn plain(&self) -> Seq<u8> { self@ }
    open spec fn fits(s: Seq<u8>) -> bool { true }
    // std: the blanket, infallible conversion of a type into itself
    fn try_from(vec: Vec<u8>) -> (r: Result<Self, ()>) { Ok(vec) }
}
impl VxAsRef for Transaction {
    open spec fn bytes(&self) -> Seq<u8> { self.0@ }
//@fn AsRef<[u8]> for Transaction::as_ref
//@end
}
impl VxFromVec for SealedTransaction {
    open spec fn raw(&self) -> Seq<u8> { self.0@ }
//@fn From<Vec<u8>> for SealedTransaction::from
//@end
}
impl VxAsRef for SealedTransaction {
    open spec fn bytes(&self) -> Seq<u8> { self.0@ }
//@fn AsRef<[u8]> for SealedTransaction::as_ref
//@end
}
impl VxFromVec for SealedBlob {
    open spec fn raw(&self) -> Seq<u8> { self.0@ }
//@fn From<Vec<u8>> for SealedBlob::from
//@end
}
impl SealedBlob {
//@fn From<&[u8]> for SealedBlob::from
@rename vx_from_slice
@ret r
@sig
    ensures r.0@ == bs@,
//@end
}
impl VxAsRef for SealedBlob {
    open spec fn bytes(&self) -> Seq<u8> { self.0@ }
//@fn AsRef<[u8]> for SealedBlob::as_ref
//@end
}
impl Encrypt<SealedTransaction> for Transaction {}
impl Decrypt<Transaction> for SealedTransaction {}
impl Decrypt<Vec<u8>> for SealedBlob {}
impl Encrypt<SealedBlob> for Vec<u8> {}
impl<'a> Encrypt<SealedBlob> for &'a [u8] {}

// The header layout (a cast of the byte vector to a packed struct) is decided by C07 on the real code;
// here a header is read through `parse`.
pub trait TypedTransaction: Sized {
    spec fn parse(s: Seq<u8>) -> Option<Self>;
}
pub uninterp spec fn parse_data(s: Seq<u8>) -> Option<DataTransaction>;
pub uninterp spec fn parse_revocation(s: Seq<u8>) -> Option<RevocationTransaction>;
impl TypedTransaction for DataTransaction {
    open spec fn parse(s: Seq<u8>) -> Option<Self> { parse_data(s) }
}
impl TypedTransaction for RevocationTransaction {
    open spec fn parse(s: Seq<u8>) -> Option<Self> { parse_revocation(s) }
}
impl Transaction {
    // contract decided by C07
    #[verifier::external_body]
    pub fn typed<T: TypedTransaction>(&self) -> (r: Option<&T>)
        ensures match r { Some(t) => T::parse(self.0@) == Some(*t), None => T::parse(self.0@) is None },
    { unimplemented!() }
}
pub trait IntoVal { spec fn val(self) -> Val; }
impl IntoVal for u64 { open spec fn val(self) -> Val { val_of(self) } }
impl IntoVal for Val { open spec fn val(self) -> Val { self } }
impl DataTransaction {
    // contract decided by C07
    #[verifier::external_body]
    pub fn new<L: IntoVal>(id: ChainId, len: L, blob: BlobId, record_hint: RecordHint) -> (r: Transaction)
        ensures r.0@.len() == TRANSACTION_MAX_BYTES,
            parse_data(r.0@) matches Some(d) && d.id == id && d.len == len.val() && d.blob == blob && d.record_hint == record_hint,
            parse_revocation(r.0@) is None,
    { unimplemented!() }
}
impl RevocationTransaction {
    // contract decided by C07
    #[verifier::external_body]
    pub fn new(id: ChainId) -> (r: Transaction)
        ensures r.0@.len() == TRANSACTION_MAX_BYTES, parse_data(r.0@) is None,
    { unimplemented!() }
}

// ================================================================ view.rs
//@file engine/src/vault/types/utils.rs
impl BlobId {
//@fn BlobId::random
@ret r
@sig
    ensures match r { Ok(b) => drawn(b.0@), Err(_) => fault() },
//@end
}
//@file engine/src/vault/view.rs
pub struct Infallible {}
//@item enum VaultError
//@item enum RecordError
// generated by thiserror from #[from]
impl<A, B> From<RecordError<A>> for VaultError<A, B> { fn from(e: RecordError<A>) -> Self { VaultError::Record(e) } }
impl<A, B> vstd::std_specs::convert::FromSpecImpl<RecordError<A>> for VaultError<A, B> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: RecordError<A>) -> Self { VaultError::Record(e) }
}
// `?` converts with that `From`
pub broadcast axiom fn vx_question_vault_error<A, B>(v: RecordError<A>, r: VaultError<A, B>)
    requires #[trigger] vstd::std_specs::control_flow::spec_from::<VaultError<A, B>, RecordError<A>>(v, r),
    ensures r == VaultError::<A, B>::Record(v);
//@item struct DbView
//@item struct Vault
//@item struct Record
impl Clone for SealedBlob { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl Clone for SealedTransaction { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }
impl Clone for Record { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() } }

/// what a record holds, as seen with the key `k`
pub struct Val3 { pub data: Seq<u8>, pub hint: RecordHint, pub blob: BlobId }
pub open spec fn header<P>(k: Seq<u8>, r: Record) -> Option<DataTransaction> {
    match unsealed::<P>(k, r.id.bytes(), r.data.0@) {
        None => None,
        Some(t) => if t.len() == TRANSACTION_MAX_BYTES { parse_data(t) } else { None },
    }
}
pub open spec fn contents<P>(k: Seq<u8>, r: Record) -> Option<Val3> {
    if r.revoke is Some { None } else {
        match header::<P>(k, r) {
            None => None,
            Some(h) => match unsealed::<P>(k, h.blob.bytes(), r.blob.0@) {
                None => None,
                Some(d) => if h.len == val_of(d.len() as u64) { Some(Val3 { data: d, hint: h.record_hint, blob: h.blob }) } else { None },
            },
        }
    }
}
pub open spec fn rec_wf<P>(k: Seq<u8>, id: ChainId, r: Record) -> bool {
    r.id == id && (r.revoke is None ==> contents::<P>(k, r) is Some && header::<P>(k, r).unwrap().id == id)
}

impl Record {
//@fn Record::new
@ret r
@start
proof { axiom_slice_len(data); }
@sig
    ensures match r {
        Ok(x) => x.revoke is None && rec_wf::<P>(key@, id, x) && contents::<P>(key@, x) == Some(Val3 { data: data@, hint, blob }),
        Err(_) => faulty::<P>(key@),
    },
//@end

//@fn Record::get_transaction
@ret r
@sig
    ensures match r {
        Ok(t) => self.revoke is None && t.0@.len() == TRANSACTION_MAX_BYTES && unsealed::<P>(key@, self.id.bytes(), self.data.0@) == Some(t.0@),
        Err(e) => self.revoke is Some || header::<P>(key@, *self) is None,
    },
//@end

//@fn Record::get_hint_and_id
@ret r
@sig
    ensures match r {
        Ok(x) => self.revoke is None && x.0.0 == self.id && (header::<P>(key@, *self) matches Some(h) && x.1 == h.record_hint),
        Err(e) => self.revoke is Some || header::<P>(key@, *self) is None,
    },
//@end

//@fn Record::check_id
@ret r
@sig
    ensures r == (self.revoke is None && rid.0 == self.id),
//@end

//@fn Record::get_blob
@ret r
@rx "SealedBlob::from\(" => "SealedBlob::vx_from_slice("
@sig
    ensures
        r matches Ok(b) ==> self.id == id && (contents::<P>(key@, *self) matches Some(c) && b@ == c.data),
        r is Err ==> self.id != id || contents::<P>(key@, *self) is None,
//@end

//@fn Record::get_blob_id
@ret r
@sig
    ensures match r {
        Ok(b) => self.id == id && self.revoke is None && (header::<P>(key@, *self) matches Some(h) && h.blob == b),
        Err(e) => self.id != id || self.revoke is Some || header::<P>(key@, *self) is None,
    },
//@end

//@fn Record::update_data
@ret r
@start
proof { axiom_slice_len(new_data); }
@sig
    ensures match r {
        Ok(_) => old(self).id == id && final(self).id == id && old(self).revoke is None && final(self).revoke is None
            && (header::<P>(key@, *old(self)) matches Some(h) && (h.id == id ==> rec_wf::<P>(key@, id, *final(self)) && (contents::<P>(key@, *final(self)) matches Some(c) && c.data == new_data@ && c.hint == h.record_hint))),
        Err(_) => *final(self) == *old(self) && (faulty::<P>(key@) || old(self).id != id || old(self).revoke is Some || header::<P>(key@, *old(self)) is None),
    },
    // what a synchronisation compares: other data is under another blob identifier
    /*#C21*/ r is Ok && (header::<P>(key@, *old(self)) matches Some(h) && h.id == id) ==> (contents::<P>(key@, *final(self)) matches Some(c) && c.blob == new_blob),
//@end

//@fn Record::update_meta
@ret r
@rx "SealedBlob::from\(" => "SealedBlob::vx_from_slice("
@closure 1
-> (vx_r: RecordError<P::Error>) requires !(e is Invalid)
@sig
    ensures match r {
        Ok(_) => old(self).id == old_id && final(self).id == new_id && old(self).revoke is None && final(self).revoke is None
            && header::<P>(old_key@, *old(self)) is Some && (contents::<P>(old_key@, *old(self)) is Some ==> contents::<P>(new_key@, *final(self)) == contents::<P>(old_key@, *old(self)) && rec_wf::<P>(new_key@, new_id, *final(self))),
        Err(_) => *final(self) == *old(self) && (faulty::<P>(new_key@) || old(self).id != old_id || contents::<P>(old_key@, *old(self)) is None),
    },
//@end

//@fn Record::revoke
@ret r
@sig
    ensures match r {
        Ok(_) => old(self).id == id && final(self).revoke is Some && final(self).id == old(self).id && final(self).data == old(self).data && final(self).blob == old(self).blob,
        Err(_) => *final(self) == *old(self) && (faulty::<P>(key@) || old(self).id != id),
    },
//@end
}

impl<P: BoxProvider> Vault<P> {
    pub open spec fn wf(&self) -> bool {
        forall|id: ChainId| self.entries@.contains_key(id) ==> rec_wf::<P>(self.key@, id, #[trigger] self.entries@[id])
    }
    /// `k` opens none of the records (what the cipher gives for any key but the vault's)
    pub open spec fn foreign(&self, k: Seq<u8>) -> bool {
        forall|id: ChainId| self.entries@.contains_key(id) ==> header::<P>(k, #[trigger] self.entries@[id]) is None
    }
    /// the data that is readable at `id`
    pub open spec fn at(&self, id: ChainId) -> Option<Val3> {
        if self.entries@.contains_key(id) { contents::<P>(self.key@, self.entries@[id]) } else { None }
    }

//@fn Vault::init_vault
@ret r
@sig
    ensures r.wf(), r.key@ == key@, r.entries@ == Map::<ChainId, Record>::empty(),
//@end

//@fn Vault::add_or_update_record
@ret r
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).key == old(self).key,
        /*#C10*/ key@ != old(self).key@ ==> (r matches Err(RecordError::InvalidKey)),
        match r {
            Ok(_) => {
                &&& final(self).entries@ == old(self).entries@.insert(id, final(self).entries@[id])
                &&& old(self).entries@.contains_key(id) ==> old(self).entries@[id].revoke is None
                &&& final(self).at(id) matches Some(c) && c.data == data@ && c.hint == (if old(self).entries@.contains_key(id) { old(self).at(id).unwrap().hint } else { record_hint })
            },
            Err(_) => final(self).entries@ == old(self).entries@
                && (faulty::<P>(key@) || key@ != old(self).key@ || (old(self).entries@.contains_key(id) && old(self).entries@[id].revoke is Some)),
        },
        /*#C21*/ r is Ok ==> (final(self).at(id) matches Some(c) && drawn(c.blob.0@)),
//@end

//@fn Vault::extend
@ret r
@rx "(?s)pub fn extend<I>\(&mut self, key: &Key<P>, entries: I\)(.*?)\s*where\s*I: IntoIterator<Item = \(ChainId, Record\)>," => "pub fn extend(&mut self, key: &Key<P>, entries: Vec<(ChainId, Record)>)$1"
@sig
    ensures
        final(self).key == old(self).key,
        /*#C10*/ key@ != old(self).key@ ==> (r matches Err(RecordError::InvalidKey)),
        key@ == old(self).key@ ==> r is Ok,
        match r {
            Ok(_) => final(self).entries@ == vx_extend(old(self).entries@, entries@),
            Err(_) => final(self).entries@ == old(self).entries@,
        },
//@end

//@fn Vault::export_record
@ret r
@sig
    ensures r == (if self.entries@.contains_key(rid.0) { Some(self.entries@[rid.0]) } else { None }),
//@end

//@fn Vault::list_hints_and_ids
@ret r
@closure 0
-> (vx_r: Option<(RecordId, RecordHint)>) ensures match vx_r {
        Some(x) => entry.revoke is None && x.0.0 == entry.id && (header::<P>(key@, *entry) matches Some(h) && x.1 == h.record_hint),
        None => entry.revoke is Some || header::<P>(key@, *entry) is None,
    }
@sig
    requires self.wf(),
    ensures
        /*#C10*/ key@ != self.key@ ==> r@.len() == 0,
        key@ == self.key@ ==> (forall|i: int| 0 <= i < r@.len() ==> (self.at((#[trigger] r@[i]).0.0) matches Some(c) && c.hint == r@[i].1)),
        key@ == self.key@ ==> (forall|id: ChainId| (#[trigger] self.at(id)) is Some ==> r@.contains((RecordId(id), self.at(id).unwrap().hint))),
//@end

//@fn Vault::list_entries
@ret r
@rx "let mut buf = Vec::new\(\);" => "let mut buf: Vec<(RecordId, BlobId)> = Vec::new();"
@sig
    requires self.wf(),
    ensures
        key@ == self.key@ ==> r is Ok,
        /*#C10*/ self.foreign(key@) ==> (r matches Ok(l) ==> l@.len() == 0),
        r matches Ok(l) ==> key@ == self.key@ ==> (forall|i: int| 0 <= i < l@.len() ==> (self.at((#[trigger] l@[i]).0.0) matches Some(c) && c.blob == l@[i].1)),
        r matches Ok(l) ==> key@ == self.key@ ==> (forall|id: ChainId| (#[trigger] self.at(id)) is Some ==> l@.contains((RecordId(id), self.at(id).unwrap().blob))),
@loopiter 0 vx_it
@start
broadcast use vx_push_contains;
@loop 0 for
    invariant
        self.wf(), vx_lists(self.entries@, vx_it.seq()),
        self.foreign(key@) ==> buf@.len() == 0,
        key@ == self.key@ ==> (forall|i: int| 0 <= i < buf@.len() ==> (self.at((#[trigger] buf@[i]).0.0) matches Some(c) && c.blob == buf@[i].1)),
        key@ == self.key@ ==> (forall|j: int| 0 <= j < vx_it.index@ ==> (self.at(*(#[trigger] vx_it.seq()[j]).0) is Some ==> buf@.contains((RecordId(*vx_it.seq()[j].0), self.at(*vx_it.seq()[j].0).unwrap().blob)))),
@loopstart 0
let ghost vx_b = buf@;
@loopend 0
proof {
    let j = vx_it.index@ as int;
    assert(*vx_it.seq()[j].0 == id);
    assert(rec_wf::<P>(self.key@, id, self.entries@[id]));
    if key@ == self.key@ && record.revoke is None {
        assert(buf@[buf@.len() - 1] == (RecordId(id), self.at(id).unwrap().blob));
        assert(buf@.contains((RecordId(id), self.at(id).unwrap().blob)));
        assert forall|j2: int| 0 <= j2 < vx_it.index@ implies (self.at(*(#[trigger] vx_it.seq()[j2]).0) is Some ==> buf@.contains((RecordId(*vx_it.seq()[j2].0), self.at(*vx_it.seq()[j2].0).unwrap().blob))) by { let y = (RecordId(*vx_it.seq()[j2].0), self.at(*vx_it.seq()[j2].0).unwrap().blob); 
if self.at(*vx_it.seq()[j2].0) is Some {
assert(vx_b.contains(y)); assert(buf@ == vx_b.push(buf@[buf@.len()-1])); vx_push_contains(vx_b, buf@[buf@.len()-1], y); } }
    }
}
//@end

//@fn Vault::contains_record
@ret r
@closure 0
-> (b: bool) ensures b == (entry.revoke is None && rid.0 == entry.id)
@sig
    requires self.wf(),
    ensures r == (self.at(rid.0) is Some),
//@end

//@fn Vault::revoke
@ret r
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).key == old(self).key,
        /*#C10*/ key@ != old(self).key@ ==> (r matches Err(RecordError::InvalidKey)),
        match r {
            Ok(_) => if old(self).entries@.contains_key(id) {
                    final(self).entries@ == old(self).entries@.insert(id, final(self).entries@[id]) && final(self).entries@[id].revoke is Some
                } else { final(self).entries@ == old(self).entries@ },
            Err(_) => final(self).entries@ == old(self).entries@ && (faulty::<P>(key@) || key@ != old(self).key@),
        },
//@end

//@fn Vault::get_guard
@ret r
@sig
    requires self.wf(),
    ensures
        /*#C10*/ key@ != self.key@ ==> (r matches Err(RecordError::InvalidKey)),
        key@ == self.key@ ==> (r is Ok <==> self.at(id) is Some),
        r matches Ok(b) ==> self.at(id) matches Some(c) && b@ == c.data,
//@end

//@fn Vault::get_blob_id
@ret r
@closure 0
-> (vx_r: Result<BlobId, RecordError<P::Error>>) ensures match vx_r {
        Ok(b) => r.id == id && r.revoke is None && (header::<P>(key@, *r) matches Some(h) && h.blob == b),
        Err(e) => r.id != id || r.revoke is Some || header::<P>(key@, *r) is None,
    }
@sig
    requires self.wf(),
    ensures
        /*#C10*/ key@ != self.key@ ==> (r matches Err(RecordError::InvalidKey)),
        key@ == self.key@ ==> (r is Ok <==> self.at(id) is Some),
        r matches Ok(b) ==> self.at(id) matches Some(c) && b == c.blob,
//@end

//@fn Vault::garbage_collect
@loopiter 0 vx_it
@loop 0 for
    invariant
        self.key == old(self).key, vx_gc(old(self).entries@, garbage@, vx_it.index@ as int, self.entries@),
@loopend 0
proof { vx_take_contains(garbage@, vx_it.index@ as int); }
@after 0
proof {
    assert(garbage@.take(garbage@.len() as int) =~= garbage@);
    assert forall|id: ChainId| #![auto] old(self).entries@.contains_key(id) && !(old(self).entries@[id].revoke is None) implies garbage@.contains(id) by { }
    assert forall|id: ChainId| #![auto] garbage@.contains(id) implies old(self).entries@.contains_key(id) && !(old(self).entries@[id].revoke is None) by { }
}
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).key == old(self).key,
        forall|id: ChainId| #[trigger] final(self).entries@.contains_key(id) <==> (old(self).entries@.contains_key(id) && old(self).entries@[id].revoke is None),
        forall|id: ChainId| #[trigger] final(self).entries@.contains_key(id) ==> final(self).entries@[id] == old(self).entries@[id],
//@end

//@fn Vault::check_key
@ret r
@sig
    ensures match r { Ok(_) => key@ == self.key@, Err(e) => key@ != self.key@ && e is InvalidKey },
//@end
}

impl<P: BoxProvider> DbView<P> {
    pub open spec fn wf(&self) -> bool {
        forall|v: VaultId| self.vaults@.contains_key(v) ==> (#[trigger] self.vaults@[v]).wf()
    }
    /// what a reader that holds the vault's own key finds at a location
    pub open spec fn at(&self, v: VaultId, rid: RecordId) -> Option<Val3> {
        if self.vaults@.contains_key(v) { self.vaults@[v].at(rid.0) } else { None }
    }
    /// `key` opens vault `v`
    pub open spec fn opens(&self, v: VaultId, key: Seq<u8>) -> bool {
        self.vaults@.contains_key(v) && self.vaults@[v].key@ == key
    }
    /// the record was revoked and is not collected yet
    pub open spec fn revoked(&self, v: VaultId, rid: RecordId) -> bool {
        self.vaults@.contains_key(v) && self.vaults@[v].entries@.contains_key(rid.0) && self.vaults@[v].entries@[rid.0].revoke is Some
    }
    /// nothing outside vault `v` differs from `o`
    pub open spec fn same_but(&self, o: &Self, v: VaultId) -> bool {
        forall|w: VaultId| w != v ==> (#[trigger] self.vaults@.contains_key(w) <==> o.vaults@.contains_key(w)) && self.vaults@[w] == o.vaults@[w]
    }

//@fn DbView::new
@ret r
@sig
    ensures r.wf(), r.vaults@ == Map::<VaultId, Vault<P>>::empty(),
//@end

//@fn DbView::init_vault
@closure 0
-> (vx_r: Vault<P>) ensures vx_r.wf(), vx_r.key@ == key@, vx_r.entries@ == Map::<ChainId, Record>::empty()
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_but(old(self), vid),
        old(self).vaults@.contains_key(vid) ==> final(self).vaults@ =~= old(self).vaults@,
        !old(self).vaults@.contains_key(vid) ==> final(self).vaults@ == old(self).vaults@.insert(vid, final(self).vaults@[vid])
            && final(self).vaults@[vid].key@ == key@ && final(self).vaults@[vid].entries@ == Map::<ChainId, Record>::empty(),
//@end

//@fn DbView::write
@ret r
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_but(old(self), vid), final(self).vaults@.contains_key(vid),
        old(self).vaults@.contains_key(vid) ==> final(self).vaults@[vid].key == old(self).vaults@[vid].key,
        // without the vault's key nothing happens
        /*#C10*/ old(self).vaults@.contains_key(vid) && !old(self).opens(vid, key@) ==> (r matches Err(RecordError::InvalidKey)),
        match r {
            Ok(_) => {
                &&& final(self).opens(vid, key@)
                &&& final(self).at(vid, rid) matches Some(c) && c.data == data@ && c.hint == (if old(self).at(vid, rid) is Some { old(self).at(vid, rid).unwrap().hint } else { record_hint })
                &&& forall|x: RecordId| x != rid ==> #[trigger] final(self).at(vid, x) == old(self).at(vid, x)
            },
            Err(_) => {
                &&& forall|x: RecordId| #[trigger] final(self).at(vid, x) == old(self).at(vid, x)
                &&& faulty::<P>(key@) || (old(self).vaults@.contains_key(vid) && !old(self).opens(vid, key@)) || old(self).revoked(vid, rid)
                &&& !old(self).vaults@.contains_key(vid) ==> final(self).opens(vid, key@)
            },
        },
        /*#C21*/ r is Ok ==> (final(self).at(vid, rid) matches Some(c) && drawn(c.blob.0@)),
//@end

//@fn DbView::list_hints_and_ids
@ret r
@rx "vec!\[\]" => "Vec::new()"
@sig
    requires self.wf(),
    ensures
        /*#C10*/ !self.opens(vid, key@) ==> r@.len() == 0,
        self.opens(vid, key@) ==> (forall|i: int| 0 <= i < r@.len() ==> (self.at(vid, (#[trigger] r@[i]).0) matches Some(c) && c.hint == r@[i].1)),
        self.opens(vid, key@) ==> (forall|x: RecordId| (#[trigger] self.at(vid, x)) is Some ==> r@.contains((x, self.at(vid, x).unwrap().hint))),
//@end

//@fn DbView::contains_vault
@ret r
@sig
    ensures r == self.vaults@.contains_key(*vid),
//@end

//@fn DbView::contains_record
@ret r
@sig
    requires self.wf(),
    ensures r == (self.at(vid, rid) is Some),
//@end

//@fn DbView::get_blob_id
@ret r
@start
broadcast use vx_question_vault_error;
@sig
    requires self.wf(),
    ensures
        r is Ok <==> (self.opens(vid, key@) && self.at(vid, rid) is Some),
        r matches Ok(b) ==> b == self.at(vid, rid).unwrap().blob,
        /*#C10*/ self.vaults@.contains_key(vid) && !self.opens(vid, key@) ==> (r matches Err(VaultError::Record(RecordError::InvalidKey))),
//@end

//@fn DbView::get_buffers
@ret r
@rx "vx_same\(vx_r, VaultError::(Record|Procedure)" => "vx_same(vx_r, VaultError::<P::Error, E>::$1"
@rx "<\[_; N\]>::try_from\(buffers\)\.(vx_)?expect\([^)]*\)" => "vx_array(buffers)"
@rx "for (\(.*\)) in vx_it: ids" => "for $1 in vx_it: vx_vec(ids)"
@rx "where\s*E: Debug," => ""
@loopiter 0 vx_it
@loop 0 for
    invariant
        self.wf(),
        vx_it.seq() == ids@,
        buffers@.len() == vx_it.index@,
        forall|i: int| 0 <= i < buffers@.len() ==> self.opens((#[trigger] ids@[i]).1, ids@[i].0@) && (self.at(ids@[i].1, ids@[i].2) matches Some(c) && c.data == (buffers@[i])@),
@sig
    requires self.wf(),
    ensures
        r is Ok <==> self.readable(ids@),
        r matches Ok(b) ==> self.all_of(ids@, b@),
        r matches Err(e) ==> !(e is Procedure),
//@end
    /// there is data at all of `ids`, and every key is the right one
    pub open spec fn readable(&self, ids: Seq<(Key<P>, VaultId, RecordId)>) -> bool {
        forall|i: int| 0 <= i < ids.len() ==> self.opens((#[trigger] ids[i]).1, ids[i].0@) && self.at(ids[i].1, ids[i].2) is Some
    }
    /// `b` holds, in order, what is stored at `ids`, and every key was the right one
    pub open spec fn all_of(&self, ids: Seq<(Key<P>, VaultId, RecordId)>, b: Seq<Buffer<u8>>) -> bool {
        b.len() == ids.len() && forall|i: int| 0 <= i < b.len() ==> self.opens((#[trigger] ids[i]).1, ids[i].0@) && (self.at(ids[i].1, ids[i].2) matches Some(c) && c.data == (b[i])@)
    }

//@fn DbView::get_guard
@ret r
@rx "vx_same\(vx_r, VaultError::(Record|Procedure)" => "vx_same(vx_r, VaultError::<P::Error, E>::$1"
@rx "E: Debug," => ""
@sig
    requires self.wf(), forall|b: Buffer<u8>| f.requires((b,)),
    ensures match r {
        Ok(_) => exists|b: Buffer<u8>, x: Result<(), E>| self.opens(vid, key@) && (self.at(vid, rid) matches Some(c) && c.data == b@) && #[trigger] f.ensures((b,), x) && x is Ok,
        Err(VaultError::Procedure(e)) => exists|b: Buffer<u8>, x: Result<(), E>| self.opens(vid, key@) && (self.at(vid, rid) matches Some(c) && c.data == b@) && #[trigger] f.ensures((b,), x) && x == Err::<(), E>(e),
        Err(_) => !(self.opens(vid, key@) && self.at(vid, rid) is Some),
    },
//@end

//@fn DbView::get_guards
@ret r
@rx "vx_same\(vx_r, VaultError::(Record|Procedure)" => "vx_same(vx_r, VaultError::<P::Error, E>::$1"
@rx "E: Debug," => ""
@sig
    requires self.wf(), forall|b: [Buffer<u8>; N]| f.requires((b,)),
    ensures match r {
        Ok(_) => exists|b: [Buffer<u8>; N], x: Result<(), E>| self.all_of(ids@, b@) && #[trigger] f.ensures((b,), x) && x is Ok,
        Err(VaultError::Procedure(e)) => exists|b: [Buffer<u8>; N], x: Result<(), E>| self.all_of(ids@, b@) && #[trigger] f.ensures((b,), x) && x == Err::<(), E>(e),
        Err(_) => !self.readable(ids@),
    },
//@end

//@fn DbView::exec_procedure
@ret r
@rx "vx_same\(vx_r, VaultError::(Record|Procedure)" => "vx_same(vx_r, VaultError::<P::Error, E>::$1"
@rx "E: Debug," => ""
@sig
    requires old(self).wf(), forall|b: [Buffer<u8>; N]| f.requires((b,)),
    ensures
        final(self).wf(), final(self).same_but(old(self), target_vid),
        old(self).vaults@.contains_key(target_vid) ==> final(self).vaults@.contains_key(target_vid) && final(self).vaults@[target_vid].key == old(self).vaults@[target_vid].key,
        !old(self).vaults@.contains_key(target_vid) && final(self).vaults@.contains_key(target_vid) ==> final(self).opens(target_vid, target_key@),
        forall|x: RecordId| x != target_rid ==> #[trigger] final(self).at(target_vid, x) == old(self).at(target_vid, x),
        match r {
            Ok(_) => exists|b: [Buffer<u8>; N], x: Result<Vec<u8>, E>| old(self).all_of(sources@, b@) && #[trigger] f.ensures((b,), x) && (x matches Ok(d)
                && (final(self).at(target_vid, target_rid) matches Some(c) && c.data == d@ && c.hint == (if old(self).at(target_vid, target_rid) is Some { old(self).at(target_vid, target_rid).unwrap().hint } else { hint }))),
            Err(VaultError::Procedure(e)) => *final(self) == *old(self) && exists|b: [Buffer<u8>; N], x: Result<Vec<u8>, E>| old(self).all_of(sources@, b@) && #[trigger] f.ensures((b,), x) && x == Err::<Vec<u8>, E>(e),
            Err(_) => final(self).at(target_vid, target_rid) == old(self).at(target_vid, target_rid)
                && (faulty::<P>(target_key@) || !old(self).readable(sources@) || (old(self).vaults@.contains_key(target_vid) && !old(self).opens(target_vid, target_key@)) || old(self).revoked(target_vid, target_rid)),
        },
        /*#C21*/ r is Ok ==> (final(self).at(target_vid, target_rid) matches Some(c) && drawn(c.blob.0@)),
//@end

//@fn DbView::revoke_record
@ret r
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_but(old(self), vid),
        /*#C10*/ old(self).vaults@.contains_key(vid) && !old(self).opens(vid, key@) ==> (r matches Err(RecordError::InvalidKey)),
        r is Ok ==> final(self).at(vid, rid) is None,
        r is Err ==> final(self).at(vid, rid) == old(self).at(vid, rid),
        r is Err ==> faulty::<P>(key@) || (old(self).vaults@.contains_key(vid) && !old(self).opens(vid, key@)),
        old(self).vaults@.contains_key(vid) ==> final(self).vaults@[vid].key == old(self).vaults@[vid].key,
        forall|x: RecordId| x != rid ==> #[trigger] final(self).at(vid, x) == old(self).at(vid, x),
        final(self).vaults@.contains_key(vid) == old(self).vaults@.contains_key(vid),
//@end

//@fn DbView::garbage_collect_vault
@sig
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_but(old(self), vid),
        final(self).vaults@.contains_key(vid) == old(self).vaults@.contains_key(vid),
        old(self).vaults@.contains_key(vid) ==> final(self).vaults@[vid].key == old(self).vaults@[vid].key,
        forall|x: RecordId| #[trigger] final(self).at(vid, x) == old(self).at(vid, x),
        /*#C10*/ !old(self).opens(vid, key@) ==> final(self).vaults@ =~= old(self).vaults@,
        // and only what is revoked goes
        old(self).opens(vid, key@) ==> (forall|id: ChainId| #[trigger] final(self).vaults@[vid].entries@.contains_key(id) <==> (old(self).vaults@[vid].entries@.contains_key(id) && old(self).vaults@[vid].entries@[id].revoke is None)),
        old(self).opens(vid, key@) ==> (forall|id: ChainId| #[trigger] final(self).vaults@[vid].entries@.contains_key(id) ==> final(self).vaults@[vid].entries@[id] == old(self).vaults@[vid].entries@[id]),
//@end

//@fn DbView::list_vaults
@ret r
@sig
    ensures forall|v: VaultId| #[trigger] self.vaults@.contains_key(v) <==> r@.contains(v),
//@end

//@fn DbView::list_records
@ret r
@closure 0
-> (vx_r: Vec<RecordId>) ensures forall|x: RecordId| #[trigger] vx_r@.contains(x) <==> v.entries@.contains_key(x.0)
@closure 1
-> (vx_r: RecordId) ensures vx_r.0 == *vx_p0
@sig
    ensures
        !self.vaults@.contains_key(*vid) ==> r@.len() == 0,
        self.vaults@.contains_key(*vid) ==> forall|x: RecordId| #[trigger] r@.contains(x) <==> self.vaults@[*vid].entries@.contains_key(x.0),
//@end

//@fn DbView::list_records_with_blob_id
@ret r
@closure 0
-> (vx_r: Result<Vec<(RecordId, BlobId)>, VaultError<P::Error>>)
    requires v.wf()
    ensures
        key@ == v.key@ ==> vx_r is Ok,
        v.foreign(key@) ==> (vx_r matches Ok(l) ==> l@.len() == 0),
        vx_r matches Ok(l) ==> key@ == v.key@ ==> (forall|i: int| 0 <= i < l@.len() ==> (v.at((#[trigger] l@[i]).0.0) matches Some(c) && c.blob == l@[i].1)),
        vx_r matches Ok(l) ==> key@ == v.key@ ==> (forall|id: ChainId| (#[trigger] v.at(id)) is Some ==> l@.contains((RecordId(id), v.at(id).unwrap().blob)))
@closure 1
-> (vx_r: VaultError<P::Error>) ensures true
@sig
    requires self.wf(),
    ensures
        self.opens(vid, key@) ==> r is Ok,
        /*#C10*/ !self.vaults@.contains_key(vid) ==> r is Err,
        /*#C10*/ self.vaults@.contains_key(vid) && self.vaults@[vid].foreign(key@) ==> (r matches Ok(l) ==> l@.len() == 0),
        r matches Ok(l) ==> self.opens(vid, key@) ==> (forall|i: int| 0 <= i < l@.len() ==> (self.at(vid, (#[trigger] l@[i]).0) matches Some(c) && c.blob == l@[i].1)),
        r matches Ok(l) ==> self.opens(vid, key@) ==> (forall|x: RecordId| (#[trigger] self.at(vid, x)) is Some ==> l@.contains((x, self.at(vid, x).unwrap().blob))),
//@end

//@fn DbView::export_all
@ret r
@closure 0
-> (vx_r: (VaultId, Vec<(RecordId, Record)>)) ensures vx_r.0 == *vx_p0.0,
        forall|id: ChainId| #[trigger] vx_p0.1.entries@.contains_key(id) ==> vx_r.1@.contains((RecordId(id), vx_p0.1.entries@[id])),
        forall|x: (RecordId, Record)| #[trigger] vx_r.1@.contains(x) ==> vx_p0.1.entries@.contains_key(x.0.0) && vx_p0.1.entries@[x.0.0] == x.1
@closure 1
-> (vx_r: (RecordId, Record)) ensures vx_r.0.0 == *vx_p0.0, vx_r.1 == *vx_p0.1
@sig
    ensures
        forall|v: VaultId| #[trigger] r@.contains_key(v) <==> self.vaults@.contains_key(v),
        forall|v: VaultId, id: ChainId| self.vaults@.contains_key(v) ==> (#[trigger] self.vaults@[v].entries@.contains_key(id) ==> r@[v]@.contains((RecordId(id), self.vaults@[v].entries@[id]))),
        forall|v: VaultId, x: (RecordId, Record)| r@.contains_key(v) ==> (#[trigger] r@[v]@.contains(x) ==> self.vaults@[v].entries@.contains_key(x.0.0) && self.vaults@[v].entries@[x.0.0] == x.1),
//@end

//@fn DbView::export_records
@ret r
@closure 0
-> (vx_r: Option<(RecordId, Record)>) ensures vx_r == (if vault.entries@.contains_key(rid.0) { Some((rid, vault.entries@[rid.0])) } else { None })
@closure 1
-> (vx_r: (RecordId, Record)) ensures vx_r == (rid, r)
@rx "<I>\(&self" => "(&self"
@rx "records: I" => "records: Vec<RecordId>"
@rx "where\s*I: IntoIterator<Item = RecordId>,?" => ""
@sig
    ensures
        r is Ok <==> self.vaults@.contains_key(vid),
        r matches Ok(l) ==> (forall|i: int| 0 <= i < l@.len() ==> records@.contains((#[trigger] l@[i]).0) && self.vaults@[vid].entries@.contains_key(l@[i].0.0) && self.vaults@[vid].entries@[l@[i].0.0] == l@[i].1),
        r matches Ok(l) ==> (forall|x: RecordId| #[trigger] records@.contains(x) && self.vaults@[vid].entries@.contains_key(x.0) ==> l@.contains((x, self.vaults@[vid].entries@[x.0]))),
//@end

    /// a record that decrypts under `k` at all decrypts to what was sealed (what every record that
    /// this code produces satisfies: `rec_wf`)
    pub open spec fn honest(k: Seq<u8>, s: Seq<(RecordId, Record)>) -> bool {
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.revoke is Some || header::<P>(k, s[i].1) is None || contents::<P>(k, s[i].1) is Some
    }
    /// every record belongs to its id and can be read with `k`
    pub open spec fn whole(k: Seq<u8>, s: Seq<(RecordId, Record)>) -> bool {
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.id == s[i].0.0 && contents::<P>(k, s[i].1) is Some
    }
//@fn DbView::import_records
@ret r
@attr #[verifier::loop_isolation(false)]
@nloops 1
@rx "for \(rid, record\) in &mut records \{" => "let ghost vx_r0 = records@; let vx_n = records.len(); for vx_i in 0..vx_n invariant vx_n == records@.len(), *self == *old(self), old(self).wf(), vx_r0 == records0, records@.len() == vx_r0.len(), Self::honest(old_key@, vx_r0), forall|j: int| 0 <= j < records@.len() ==> (#[trigger] records@[j]).0 == vx_r0[j].0, forall|j: int| vx_i <= j < records@.len() ==> #[trigger] records@[j] == vx_r0[j], forall|j: int| 0 <= j < vx_i ==> rec_wf::<P>(new_key@, records@[j].0.0, (#[trigger] records@[j]).1) && contents::<P>(new_key@, records@[j].1) is Some && contents::<P>(new_key@, records@[j].1) == contents::<P>(old_key@, vx_r0[j].1), { assert(records0[vx_i as int] == records@[vx_i as int]); let (rid, record) = vx_nth_mut2(&mut records, vx_i);"
@rx "let vault = self\.vaults\.get_mut" => "let ghost vx_r1 = records@; let ghost vx_v1 = self.vaults@[vid]; let vault = self.vaults.get_mut"
@rx "let vx_r = vault\.extend\(new_key, ([\s\S]*?)\);\n" => "let vx_e = $1; proof { assert(vx_e@ =~= vx_r1.map_values(|x: (RecordId, Record)| (x.0.0, x.1))); } let vx_r = vault.extend(new_key, vx_e); "
@tail
proof {
    let s = vx_r1.map_values(|x: (RecordId, Record)| (x.0.0, x.1));
    lemma_extend(vx_v1.entries@, s);
    assert forall|x: RecordId| vx_has_key(records0, x) == #[trigger] vx_has_key(s, x.0) by {
        if vx_has_key(records0, x) { let i = choose|i: int| 0 <= i < records0.len() && (#[trigger] records0[i]).0 == x; assert(vx_r1[i].0 == x); assert(s[i].0 == x.0); }
        if vx_has_key(s, x.0) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x.0; assert(vx_r1[i].0 == x); assert(records0[i].0 == x); }
    }
    if vx_r is Ok {
        let e = self.vaults@[vid].entries@;
        assert(e == vx_extend(vx_v1.entries@, s));
        assert forall|id: ChainId| e.contains_key(id) implies rec_wf::<P>(new_key@, id, #[trigger] e[id]) by {
            if vx_has_key(s, id) {
                let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == id && e[id] == s[i].1;
                assert(vx_r1[i].1 == s[i].1);
            } else { assert(e[id] == vx_v1.entries@[id]); }
        }
        assert forall|x: RecordId| vx_has_key(records0, x) implies exists|i: int| 0 <= i < records0.len() && (#[trigger] records0[i]).0 == x && (#[trigger] self.at(vid, x)) is Some && self.at(vid, x) == contents::<P>(old_key@, records0[i].1) by {
            assert(vx_has_key(s, x.0));
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x.0 && e[x.0] == s[i].1;
            assert(vx_r1[i].1 == s[i].1 && vx_r1[i].0 == x);
            assert(records0[i].0 == x);
        }
        assert forall|x: RecordId| !vx_has_key(records0, x) implies #[trigger] self.at(vid, x) == old(self).at(vid, x) by { assert(!vx_has_key(s, x.0)); }
    }
}
@start
let ghost records0 = records@;
@closure 0
-> (vx_r: (ChainId, Record)) ensures vx_r.0 == vx_p0.0.0, vx_r.1 == vx_p0.1
@sig
    requires old(self).wf(), Self::honest(old_key@, records@),
    ensures
        final(self).wf(), final(self).same_but(old(self), vid),
        old(self).vaults@.contains_key(vid) && !old(self).opens(vid, new_key@) ==> r is Err,
        match r {
            Ok(_) => {
                &&& final(self).opens(vid, new_key@)
                &&& forall|x: RecordId| !vx_has_key(records@, x) ==> #[trigger] final(self).at(vid, x) == old(self).at(vid, x)
                &&& forall|x: RecordId| vx_has_key(records@, x) ==> exists|i: int| 0 <= i < records@.len() && (#[trigger] records@[i]).0 == x && (#[trigger] final(self).at(vid, x)) is Some && final(self).at(vid, x) == contents::<P>(old_key@, records@[i].1)
            },
            Err(_) => (forall|x: RecordId| #[trigger] final(self).at(vid, x) == old(self).at(vid, x))
                && (faulty::<P>(new_key@) || (old(self).vaults@.contains_key(vid) && !old(self).opens(vid, new_key@)) || !Self::whole(old_key@, records@)),
        },
        old(self).vaults@.contains_key(vid) ==> final(self).vaults@.contains_key(vid) && final(self).vaults@[vid].key == old(self).vaults@[vid].key,
        !old(self).vaults@.contains_key(vid) && final(self).vaults@.contains_key(vid) ==> final(self).opens(vid, new_key@),
//@end

//@fn DbView::clear
@sig
    ensures final(self).wf(), final(self).vaults@ == Map::<VaultId, Vault<P>>::empty(),
//@end
}
pub open spec fn vx_gc(m0: Map<ChainId, Record>, garbage: Seq<ChainId>, n: int, m: Map<ChainId, Record>) -> bool {
    &&& forall|id: ChainId| #[trigger] m.contains_key(id) <==> (m0.contains_key(id) && !garbage.take(n).contains(id))
    &&& forall|id: ChainId| #[trigger] m.contains_key(id) ==> m[id] == m0[id]
}
