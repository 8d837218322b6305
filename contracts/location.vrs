// Contracts for client/src/types/location.rs and client/src/utils/ids.rs
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
//@include std.inc
//@include rewrites.inc
//@rewrite "\.expect\(" => ".vx_expect("
//@rewrite "\.try_into\(\)" => ".vx_try_into()"
//@rewrite "format!\(\"\{:\?\}\{\}\", (\w+), (\"[^\"]*\")\)" => "vx_fmt_str($1, $2)"
//@rewrite "format!\(\"\{:\?\}\{\}\", (\w+), (\w+)\)" => "vx_fmt_num($1, $2)"
//@rewrite "Into<Vec<u8>>" => "VxInto<Vec<u8>>"
//@rewrite "Into<usize>" => "VxInto<usize>"

// ================================================================ dependencies: assumed contracts
/// HMAC-SHA512 of data under a key
pub uninterp spec fn hmac512(data: Seq<u8>, key: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn HMAC_SHA512(data: &[u8], key: &[u8], mac: &mut [u8; 64]) ensures final(mac)@ == hmac512(data@, key@), { unimplemented!() }
/// decimal digits
pub open spec fn dec(n: nat) -> Seq<u8>
    decreases n,
{
    if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) }
}
/// what stands between the brackets when a byte slice is printed with `{:?}`
pub open spec fn dbg_body(v: Seq<u8>) -> Seq<u8>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() }
    else if v.len() == 1 { dec(v[0] as nat) }
    else { dbg_body(v.drop_last()) + seq![44u8, 32u8] + dec(v.last() as nat) }
}
pub open spec fn dbg(v: Seq<u8>) -> Seq<u8> { seq![91u8] + dbg_body(v) + seq![93u8] }
pub struct VxText { pub b: Vec<u8> }
impl VxText {
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.b@, { self.b.as_slice() }
    pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self.b@, { self.b }
}
pub uninterp spec fn ascii(s: &str) -> Seq<u8>;
#[verifier::external_body]
pub fn vx_fmt_str(v: &[u8], s: &str) -> (r: VxText) ensures r.b@ == dbg(v@) + ascii(s), { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt_num(v: &[u8], n: usize) -> (r: VxText) ensures r.b@ == dbg(v@) + dec(n as nat), { unimplemented!() }
pub axiom fn first_record_text() ensures ascii("first_record").len() == 12, ascii("first_record")[0] == 102;
pub trait VxInto<T>: Sized { spec fn vx_v(&self) -> T; fn into(self) -> (r: T) ensures r == self.vx_v(); }

pub trait VxAsRef {
    spec fn bytes(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes();
}
impl VxAsRef for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> (r: &[u8]) { self.as_slice() } }
impl<T: VxAsRef> VxAsRef for &T { open spec fn bytes(&self) -> Seq<u8> { (**self).bytes() } fn as_ref(&self) -> (r: &[u8]) { (**self).as_ref() } }
impl<'a> VxAsRef for &'a [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> (r: &[u8]) { *self } }

// identifiers, as C06 decides them
//@file engine/src/vault/types/utils.rs
//@item struct Id #[derive(Clone, Copy)]
//@item struct ChainId #[derive(Clone, Copy)]
//@item struct RecordId #[derive(Clone, Copy)]
//@item struct VaultId #[derive(Clone, Copy)]
//@item struct ClientId #[derive(Clone, Copy)]
pub trait VxLoad: Sized { spec fn raw(&self) -> Seq<u8>; fn vx_load(b: &[u8]) -> (r: Result<Self, ()>) ensures match r { Ok(x) => x.raw() == b@ && b@.len() == 24, Err(_) => b@.len() != 24 }; }
impl VxLoad for Id {
    open spec fn raw(&self) -> Seq<u8> { self.0@ }
    #[verifier::external_body]
    fn vx_load(b: &[u8]) -> Result<Self, ()> { unimplemented!() }
}
impl VxLoad for RecordId {
    open spec fn raw(&self) -> Seq<u8> { self.0.0@ }
    #[verifier::external_body]
    fn vx_load(b: &[u8]) -> Result<Self, ()> { unimplemented!() }
}
pub trait VxTryInto<T> { spec fn ok(&self, t: T) -> bool; spec fn fits(&self) -> bool; fn vx_try_into(self) -> (r: Result<T, ()>) where Self: Sized ensures match r { Ok(t) => self.ok(t), Err(_) => !self.fits() }; }
impl<T: VxLoad> VxTryInto<T> for &[u8] {
    open spec fn ok(&self, t: T) -> bool { t.raw() == self@ }
    open spec fn fits(&self) -> bool { self@.len() == 24 }
    fn vx_try_into(self) -> (r: Result<T, ()>) { T::vx_load(self) }
}
impl VxAsRef for VaultId {
    open spec fn bytes(&self) -> Seq<u8> { self.0.0@ }
//@fn AsRef<[u8]> for VaultId::as_ref
@rx "self\.0\.as_ref\(\)" => "self.0.0.as_slice()"
//@end
}

// ================================================================ utils/ids.rs
//@file client/src/utils/ids.rs
/// the identifier made from data and a path
pub open spec fn id_of(data: Seq<u8>, path: Seq<u8>) -> Seq<u8> { hmac512(data, path).take(24) }
pub trait LoadFromPath: Sized {
    spec fn idb(&self) -> Seq<u8>;
    fn load_from_path(data: &[u8], path: &[u8]) -> (r: Self) ensures r.idb() =~= id_of(data@, path@);
}
impl LoadFromPath for Id {
    open spec fn idb(&self) -> Seq<u8> { self.0@ }
//@fn LoadFromPath for Id::load_from_path
//@end
}
impl LoadFromPath for RecordId {
    open spec fn idb(&self) -> Seq<u8> { self.0.0@ }
//@fn LoadFromPath for RecordId::load_from_path
//@end
}
impl LoadFromPath for VaultId {
    open spec fn idb(&self) -> Seq<u8> { self.0.0@ }
//@fn LoadFromPath for VaultId::load_from_path
//@end
}
impl LoadFromPath for ClientId {
    open spec fn idb(&self) -> Seq<u8> { self.0.0@ }
//@fn LoadFromPath for ClientId::load_from_path
//@end
}

// ================================================================ location.rs
//@file client/src/types/location.rs
//@item enum Location
pub open spec fn vault_of(v: Seq<u8>) -> Seq<u8> { id_of(v, v) }
pub open spec fn record_of(v: Seq<u8>, r: Seq<u8>) -> Seq<u8> { id_of(vault_of(v), r) }
/// the text a counter location is made from
pub open spec fn text_of(v: Seq<u8>, c: int) -> Seq<u8> { dbg(v) + (if c == 0 { ascii("first_record") } else { dec(c as nat) }) }
pub open spec fn counter_of(v: Seq<u8>, c: int) -> Seq<u8> { id_of(text_of(v, c), text_of(v, c)) }

//@fn derive_vault_id
@ret r
@sig
    ensures r.idb() =~= vault_of(path.bytes()),
//@end
//@fn derive_record_id
@ret r
@sig
    ensures r.idb() =~= record_of(vault_path.bytes(), record_path.bytes()),
//@end
//@fn derive_record_id_from_counter
@ret r
@sig
    ensures r.idb() =~= counter_of(vault_path.bytes(), counter as int),
//@end
impl Location {
    pub open spec fn vault(&self) -> Seq<u8> { match self { Location::Generic { vault_path, .. } => vault_path@, Location::Counter { vault_path, .. } => vault_path@ } }
    /// the identifier of its record
    pub open spec fn record(&self) -> Seq<u8> {
        match self {
            Location::Generic { vault_path, record_path } => record_of(vault_path@, record_path@),
            Location::Counter { vault_path, counter } => counter_of(vault_path@, *counter as int),
        }
    }
//@fn Location::vault_path
@ret r
@sig
    ensures r@ == self.vault(),
//@end
//@fn Location::record_path
@ret r
@sig
    ensures self matches Location::Generic { record_path, .. } ==> r@ == record_path@,
//@end
//@fn Location::generic
@ret r
@sig
    ensures r == (Location::Generic { vault_path: vault_path.vx_v(), record_path: record_path.vx_v() }),
//@end
//@fn Location::counter
@ret r
@sig
    ensures r == (Location::Counter { vault_path: vault_path.vx_v(), counter: counter.vx_v() }),
//@end
//@fn Location::const_generic
@ret r
@sig
    ensures r == (Location::Generic { vault_path, record_path }),
//@end
//@fn Location::const_counter
@ret r
@sig
    ensures r == (Location::Counter { vault_path, counter }),
//@end
//@fn Location::resolve
@ret r
@sig
    ensures r.0.idb() =~= vault_of(self.vault()), r.1.idb() =~= self.record(),
//@end
}

// ================================================================ different locations, different records
pub open spec fn digits(s: Seq<u8>) -> bool { s.len() >= 1 && forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] <= 57 }
proof fn lemma_dec(n: nat)
    ensures digits(dec(n)),
    decreases n,
{
    if n >= 10 { lemma_dec(n / 10); }
}
proof fn lemma_dec_injective(n: nat, m: nat)
    requires dec(n) == dec(m),
    ensures n == m,
    decreases n,
{
    lemma_dec(n / 10);
    lemma_dec(m / 10);
    if n < 10 && m < 10 { assert(dec(n)[0] == (48 + n) as u8); assert(dec(m)[0] == (48 + m) as u8); }
    else if n < 10 { assert(dec(m).len() == dec(m / 10).len() + 1); assert(dec(n).len() == 1); }
    else if m < 10 { assert(dec(n).len() == dec(n / 10).len() + 1); assert(dec(m).len() == 1); }
    else {
        assert(dec(n).drop_last() =~= dec(n / 10));
        assert(dec(m).drop_last() =~= dec(m / 10));
        assert(dec(n).last() == dec(m).last());
        lemma_dec_injective(n / 10, m / 10);
        assert(dec(n).last() == (48 + n % 10) as u8);
        assert(dec(m).last() == (48 + m % 10) as u8);
        assert(n % 10 == m % 10);
        assert(n == 10 * (n / 10) + n % 10);
    }
}
proof fn lemma_body(v: Seq<u8>)
    ensures !dbg_body(v).contains(93u8), v.len() >= 1 ==> dbg_body(v).len() >= 1, v.len() == 1 ==> !dbg_body(v).contains(32u8),
    decreases v.len(),
{
    if v.len() == 1 { lemma_dec(v[0] as nat); }
    else if v.len() > 1 {
        lemma_body(v.drop_last());
        lemma_dec(v.last() as nat);
        let (a, m, d) = (dbg_body(v.drop_last()), seq![44u8, 32u8], dec(v.last() as nat));
        assert forall|i: int| 0 <= i < (a + m + d).len() implies #[trigger] (a + m + d)[i] != 93u8 by {
            if i < a.len() { assert(a.contains(a[i])); }
        }
    }
}
proof fn lemma_body_injective(v: Seq<u8>, w: Seq<u8>)
    requires dbg_body(v) == dbg_body(w),
    ensures v == w,
    decreases v.len(),
{
    lemma_body(v);
    lemma_body(w);
    if v.len() == 0 || w.len() == 0 { assert(v =~= w); }
    else if v.len() == 1 && w.len() == 1 { lemma_dec_injective(v[0] as nat, w[0] as nat); assert(v =~= w); }
    else {
        if v.len() > 1 { lemma_has_space(v); }
        if w.len() > 1 { lemma_has_space(w); }
        assert(v.len() > 1 && w.len() > 1);
        let (a, d) = (dbg_body(v.drop_last()), dec(v.last() as nat));
        let (b, e) = (dbg_body(w.drop_last()), dec(w.last() as nat));
        lemma_dec(v.last() as nat);
        lemma_dec(w.last() as nat);
        let t = dbg_body(v);
        let n = t.len() as int;
        assert(t[n - d.len() - 1] == 32u8);
        assert(t[n - e.len() - 1] == 32u8);
        if d.len() < e.len() { assert(t[n - d.len() - 1] == e[e.len() - d.len() - 1]); assert(false); }
        if e.len() < d.len() { assert(t[n - e.len() - 1] == d[d.len() - e.len() - 1]); assert(false); }
        assert(t.skip(n - d.len()) =~= d);
        assert(t.skip(n - d.len()) =~= e);
        lemma_dec_injective(v.last() as nat, w.last() as nat);
        assert(t.take(n - d.len() - 2) =~= a);
        assert(t.take(n - d.len() - 2) =~= b);
        lemma_body_injective(v.drop_last(), w.drop_last());
        assert(v =~= v.drop_last().push(v.last()));
        assert(w =~= w.drop_last().push(w.last()));
    }
}
proof fn lemma_has_space(v: Seq<u8>)
    requires v.len() > 1,
    ensures dbg_body(v).contains(32u8),
{
    let a = dbg_body(v.drop_last());
    assert(dbg_body(v)[a.len() as int + 1] == 32u8);
}
/// a counter location's text determines the vault path and the counter
proof fn lemma_text_injective(v: Seq<u8>, c: int, w: Seq<u8>, d: int)
    requires text_of(v, c) == text_of(w, d), c >= 0, d >= 0,
    ensures v == w, c == d,
{
    lemma_body(v);
    lemma_body(w);
    first_record_text();
    lemma_dec(c as nat);
    lemma_dec(d as nat);
    let t = text_of(v, c);
    let (x, y) = (dbg_body(v), dbg_body(w));
    let (p, q) = (x.len() as int + 1, y.len() as int + 1);
    assert(t[p] == 93u8 && t[q] == 93u8);
    if p < q { assert(t[p] == y[p - 1]); assert(y.contains(y[p - 1])); }
    if q < p { assert(t[q] == x[q - 1]); assert(x.contains(x[q - 1])); }
    assert(t.subrange(1, p) =~= x);
    assert(t.subrange(1, p) =~= y);
    lemma_body_injective(v, w);
    let rest = t.skip(p + 1);
    assert(rest =~= if c == 0 { ascii("first_record") } else { dec(c as nat) });
    assert(rest =~= if d == 0 { ascii("first_record") } else { dec(d as nat) });
    if c != 0 && d != 0 { lemma_dec_injective(c as nat, d as nat); }
    else if c != d { assert(rest[0] == 102u8); assert(false); }
}

pub uninterp spec fn sha512(s: Seq<u8>) -> Seq<u8>;
/// HMAC sees its key after this step: keys that are equal here are the same key
pub open spec fn padded(k: Seq<u8>) -> Seq<u8> {
    let h = if k.len() <= 128 { k } else { sha512(k) };
    h + Seq::new((128 - h.len()) as nat, |i: int| 0u8)
}
/// Truncated HMAC-SHA512 has no collisions, and no identifier is the text of a counter location.
pub open spec fn ideal_hash() -> bool {
    &&& forall|d: Seq<u8>, k: Seq<u8>, e: Seq<u8>, l: Seq<u8>| #[trigger] id_of(d, k) == #[trigger] id_of(e, l) ==> d == e && padded(k) == padded(l)
    &&& forall|v: Seq<u8>, w: Seq<u8>, c: int| #[trigger] vault_of(v) != #[trigger] text_of(w, c)
}
/// record paths that HMAC takes for the same key: the recorded finding of C15
pub open spec fn same_key(r: Seq<u8>, s: Seq<u8>) -> bool { padded(r) == padded(s) }
pub proof fn different_locations_different_records(a: Location, b: Location)
    requires ideal_hash(), a.record() == b.record(),
    ensures
        a.vault() == b.vault(),
        match (a, b) {
            (Location::Generic { record_path: r, .. }, Location::Generic { record_path: s, .. }) => same_key(r@, s@),
            (Location::Counter { counter: c, .. }, Location::Counter { counter: d, .. }) => c == d,
            _ => false,
        },
{
    match (a, b) {
        (Location::Generic { vault_path: v, record_path: r }, Location::Generic { vault_path: w, record_path: s }) => {
            assert(vault_of(v@) == vault_of(w@));
        },
        (Location::Counter { vault_path: v, counter: c }, Location::Counter { vault_path: w, counter: d }) => {
            assert(text_of(v@, c as int) == text_of(w@, d as int));
            lemma_text_injective(v@, c as int, w@, d as int);
        },
        (Location::Generic { vault_path: v, .. }, Location::Counter { vault_path: w, counter: c }) => {
            assert(vault_of(v@) == text_of(w@, c as int));
        },
        (Location::Counter { vault_path: w, counter: c }, Location::Generic { vault_path: v, .. }) => {
            assert(vault_of(v@) == text_of(w@, c as int));
        },
    }
}
/// different record paths of one vault are different records, unless HMAC takes them for the same key
pub proof fn different_paths(v: Seq<u8>, r: Seq<u8>, s: Seq<u8>)
    requires ideal_hash(), r.len() == s.len(), r.len() <= 128, r != s,
    ensures record_of(v, r) != record_of(v, s),
{
    if record_of(v, r) == record_of(v, s) {
        assert(padded(r).take(r.len() as int) =~= r);
        assert(padded(s).take(r.len() as int) =~= s);
    }
}
} // verus!
fn main() {}
