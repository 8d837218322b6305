// ================================================================ client/src/types/store.rs
//@file client/src/types/store.rs
//@item struct Store
impl VxLawfulClone for Vec<u8> {}
broadcast axiom fn vx_vec_ext(a: Vec<u8>, b: Vec<u8>)
    ensures #![trigger a@, b@] a@ =~= b@ ==> a == b;
impl Store {
    pub closed spec fn map(&self) -> Cache<Vec<u8>, Vec<u8>> { self.cache@ }
//@fn Store::insert
@ret r
@sig
    ensures
        r matches Ok(o) ==> {
            &&& forall|k: Vec<u8>| k@ =~= key@ ==> #[trigger] final(self).map().set(k, value, lifetime)
            &&& exists|t: int| #[trigger] is_now(t) && o == old(self).map().live(key, t)
                && forall|k: Vec<u8>, u: int| !(k@ =~= key@) && u >= t ==> #[trigger] final(self).map().live(k, u) == old(self).map().live(k, u)
        },
        r is Err ==> *final(self) == *old(self),
@start
broadcast use vx_vec_ext;
//@end
//@fn Store::get
@ret r
@sig
    ensures
        *final(self) == *old(self),
        r matches Ok(o) ==> exists|t: int| #[trigger] is_now(t) && forall|k: Vec<u8>| k@ =~= key@ ==> o == #[trigger] old(self).map().live(k, t),
@start
broadcast use vx_vec_ext;
//@end
//@fn Store::delete
@ret r
@sig
    ensures
        r matches Ok(o) ==> {
            &&& forall|k: Vec<u8>, t: int| k@ =~= key@ ==> #[trigger] final(self).map().live(k, t) is None
            &&& exists|t: int| #[trigger] is_now(t)
                && (forall|k: Vec<u8>| k@ =~= key@ ==> o == #[trigger] old(self).map().live(k, t))
                && forall|k: Vec<u8>, u: int| !(k@ =~= key@) && u >= t ==> #[trigger] final(self).map().live(k, u) == old(self).map().live(k, u)
        },
        r is Err ==> *final(self) == *old(self),
@start
broadcast use vx_vec_ext;
//@end
//@fn Store::contains_key
@ret r
@sig
    ensures
        *final(self) == *old(self),
        r matches Ok(o) ==> exists|t: int| #[trigger] is_now(t) && forall|k: Vec<u8>| k@ =~= key@ ==> o == (#[trigger] old(self).map().live(k, t) is Some),
@start
broadcast use vx_vec_ext;
//@end
//@fn Store::reload
@ret r
@sig
    ensures
        r is Ok ==> final(self).map() == cache,
        r is Err ==> *final(self) == *old(self),
//@end
//@fn Store::keys
@ret r
@sig
    ensures
        *final(self) == *old(self),
        r matches Ok(l) ==> forall|k: Vec<u8>| #[trigger] l@.contains(k) <==> old(self).map().has(k),
//@end
//@fn Store::clear
@ret r
@sig
    ensures
        r is Ok ==> forall|k: Vec<u8>, t: int| #[trigger] final(self).map().live(k, t) is None,
        r is Err ==> *final(self) == *old(self),
//@end
}
