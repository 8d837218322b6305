// ================================================================ storage.rs
//@closures on
//@purefn has_expired
//@rewrite "    K: Hash \+ Eq \+ Clone,\n    V: Clone \+ Debug,\n" => ""
//@rewrite "\nwhere\n\{" => " {"
//@rewrite "\.expect\(\"[^\"]*\"\)" => ".vx_or_panic()"
//@file engine/src/store/storage.rs
//@item struct Value
impl<T> Value<T> {
    pub closed spec fn gone(&self, t: int) -> bool { self.expiration matches Some(e) && t >= e@ }
    pub closed spec fn vx_gone(&self, time_now: SystemTime) -> bool { self.gone(time_now@) }
    /// expires a lifetime `l` after a reading of the clock
    pub closed spec fn lives(&self, l: Option<Duration>) -> bool {
        match l {
            None => self.expiration is None,
            Some(d) => match self.expiration { Some(e) => is_now(e@ - d@) && e@ <= time_max(), None => exists|t: int| #[trigger] is_now(t) && t + d@ > time_max() },
        }
    }
//@fn Value::new
@ret r
@closure 0
-> (vx_r: Option<SystemTime>) ensures match vx_r { Some(e) => is_now(e@ - d@) && e@ <= time_max(), None => exists|t: int| #[trigger] is_now(t) && t + d@ > time_max() }
@sig
    ensures r.val == val, r.lives(duration),
//@end
//@fn Value::has_expired
@ret r
@attr #[verifier::when_used_as_spec(vx_gone)]
@sig
    ensures r == self.gone(time_now@),
//@end
}

// ================================================================ cache.rs
//@file engine/src/store/storage/cache.rs
#[verifier::reject_recursive_types(K)]
//@item struct Cache
impl<K, V> Cache<K, V> {
    /// what a lookup of `k` at clock reading `t` yields
    pub closed spec fn live(&self, k: K, t: int) -> Option<V> {
        if self.table@.contains_key(k) && !self.table@[k].gone(t) { Some(self.table@[k].val) } else { None }
    }
    /// `k` was set to `v` with lifetime `l` at some clock reading
    pub closed spec fn set(&self, k: K, v: V, l: Option<Duration>) -> bool {
        self.table@.contains_key(k) && self.table@[k].val == v && self.table@[k].lives(l)
    }
    pub closed spec fn has(&self, k: K) -> bool { self.table@.contains_key(k) }

//@fn Cache::new
@ret r
@sig
    ensures forall|k: K, t: int| #[trigger] r.live(k, t) is None,
//@end
//@fn Default for Cache::default
@rx "^fn default" => "pub fn default"
@ret r
@sig
    ensures forall|k: K, t: int| #[trigger] r.live(k, t) is None,
//@end
//@fn Cache::create_with_scanner
@ret r
@sig
    ensures forall|k: K, t: int| #[trigger] r.live(k, t) is None,
//@end
//@fn Cache::get
@ret r
@sig
    ensures exists|t: int| #[trigger] is_now(t) && match r { Some(v) => self.live(*key, t) == Some(*v), None => self.live(*key, t) is None },
//@end
//@fn Cache::get_or_insert
@ret r
@sig
    requires func.requires(()),
    ensures
        exists|t: int| #[trigger] is_now(t) && {
            &&& forall|k: K, u: int| k != key && u >= t ==> #[trigger] final(self).live(k, u) == old(self).live(k, u)
            &&& match old(self).live(key, t) {
                Some(v) => *r == v && forall|u: int| u >= t ==> #[trigger] final(self).live(key, u) == old(self).live(key, u),
                None => func.ensures((), *r) && final(self).set(key, *r, lifetime),
            }
        },
//@end
//@fn Cache::insert
@ret r
@sig
    ensures
        final(self).set(key, value, lifetime),
        exists|t: int| #[trigger] is_now(t) && r == old(self).live(key, t)
            && forall|k: K, u: int| k != key && u >= t ==> #[trigger] final(self).live(k, u) == old(self).live(k, u),
//@end
//@fn Cache::remove
@ret r
@sig
    ensures
        forall|u: int| #[trigger] final(self).live(*key, u) is None,
        exists|t: int| #[trigger] is_now(t) && r == old(self).live(*key, t)
            && forall|k: K, u: int| k != *key && u >= t ==> #[trigger] final(self).live(k, u) == old(self).live(k, u),
//@end
//@fn Cache::contains_key
@ret r
@sig
    ensures exists|t: int| #[trigger] is_now(t) && r == (self.live(*key, t) is Some),
//@end
//@fn Cache::clear
@sig
    ensures forall|k: K, t: int| #[trigger] final(self).live(k, t) is None,
//@end
//@fn Cache::try_remove_expired_items
@sig
    ensures
        forall|k: K, u: int| #![trigger final(self).live(k, u)] #![trigger old(self).live(k, u)] u >= now@ ==> final(self).live(k, u) == old(self).live(k, u),
        // only expired entries are removed
        forall|k: K| #[trigger] old(self).has(k) ==> final(self).has(k) || old(self).live(k, now@) is None,
//@end
}
impl<K: VxLawfulClone, V> Cache<K, V> {
//@fn Cache::keys
@ret r
@sig
    ensures forall|k: K| #[trigger] r@.contains(k) <==> self.has(k),
//@end
}
/// what `set` and `live` mean together: an entry without a lifetime never expires, one with a lifetime is
/// there until that has passed
proof fn lemma_set<K, V>(c: Cache<K, V>, k: K, v: V, l: Option<Duration>)
    requires c.set(k, v, l),
    ensures
        l is None ==> forall|t: int| #[trigger] c.live(k, t) == Some(v),
        l matches Some(d) ==> exists|t: int| #[trigger] is_now(t) && forall|u: int| #[trigger] c.live(k, u) == (if u < t + d@ || t + d@ > time_max() { Some(v) } else { None }),
        forall|t: int| #[trigger] c.live(k, t) is Some ==> c.has(k),
{ }

