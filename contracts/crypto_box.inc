// ================================================================ crypto_box.rs
//@file engine/src/vault/crypto_box.rs
/// what a box contains, or None if it does not open: the ideal reading of an authenticated cipher.
/// (That only boxes which were sealed under this key and associated data open is the
/// unforgeability of the cipher, an assumption; C16 relates it to the real provider.)
pub uninterp spec fn unsealed<P>(k: Seq<u8>, ad: Seq<u8>, c: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn key_len<P>() -> usize;
pub uninterp spec fn overhead<P>() -> usize;

/// the cipher provider, the random generator or a lock fails at some time for a reason other than its
/// input: nothing is claimed about success in such a run
pub uninterp spec fn fault() -> bool;
/// or the key has a length that the cipher does not take
pub open spec fn faulty<P>(k: Seq<u8>) -> bool { fault() || k.len() != key_len::<P>() }
/// these bytes came out of the random generator in one draw
pub uninterp spec fn drawn(s: Seq<u8>) -> bool;
pub trait BoxProvider: Sized {
    type Error;
    fn box_key_len() -> (r: usize) ensures r == key_len::<Self>();
    fn box_overhead() -> (r: usize) ensures r == overhead::<Self>();
    fn box_seal(key: &Key<Self>, ad: &[u8], data: &[u8]) -> (r: Result<Vec<u8>, Self::Error>)
        ensures match r { Ok(c) => unsealed::<Self>(key.key@, ad@, c@) == Some(data@), Err(_) => faulty::<Self>(key.key@) };
    fn box_open(key: &Key<Self>, ad: &[u8], data: &[u8]) -> (r: Result<Vec<u8>, Self::Error>)
        ensures match r {
            Ok(p) => unsealed::<Self>(key.key@, ad@, data@) == Some(p@),
            Err(_) => unsealed::<Self>(key.key@, ad@, data@) is None,
        };
    fn random_buf(buf: &mut [u8]) -> (r: Result<(), Self::Error>)
        ensures final(buf)@.len() == old(buf)@.len(), r is Err ==> fault(), r is Ok ==> drawn(final(buf)@);
//@fn trait BoxProvider::random_vec
@ret r
@sig
    ensures match r { Ok(v) => v@.len() == len && drawn(v@), Err(_) => fault() },
//@end
}

//@item struct Key

impl<T: BoxProvider> Key<T> {
    pub open spec fn view(&self) -> Seq<u8> { self.key@ }
//@fn Key::random
@ret r
@rx "\.(vx_)?expect\(\"failed[^)]*\)" => ".vx_or_panic()"
@sig
    ensures r@.len() == key_len::<T>(), drawn(r@),
//@end
//@fn Key::load
@ret r
@sig
    ensures match r {
        Some(k) => k@ == key@ && key@.len() == key_len::<T>(),
        None => key@.len() != key_len::<T>(),
    },
//@end
}
impl<T: BoxProvider> Clone for Key<T> {
//@fn Clone for Key::clone
@ret r
@sig
    ensures r@ == self@,
//@end
}
impl<T: BoxProvider> vstd::std_specs::cmp::PartialEqSpecImpl for Key<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ }
}
impl<T: BoxProvider> PartialEq for Key<T> {
//@fn PartialEq for Key::eq
@rx "&& self\._box_provider == other\._box_provider" => ""
//@end
}

pub trait VxFromVec: Sized {
    spec fn raw(&self) -> Seq<u8>;
    fn from(vec: Vec<u8>) -> (r: Self) ensures r.raw() == vec@;
}
pub trait VxTryFromVec: Sized {
    spec fn plain(&self) -> Seq<u8>;
    spec fn fits(s: Seq<u8>) -> bool;
    fn try_from(vec: Vec<u8>) -> (r: Result<Self, ()>)
        ensures match r { Ok(t) => t.plain() == vec@ && Self::fits(vec@), Err(_) => !Self::fits(vec@) };
}
//@rewrite "From<Vec<u8>>" => "VxFromVec"
//@rewrite "TryVxFromVec" => "VxTryFromVec"

pub trait Encrypt<T: VxFromVec>: VxAsRef {
//@fn trait Encrypt::encrypt
@ret r
@sig
    ensures match r { Ok(t) => unsealed::<P>(key@, ad.bytes(), t.raw()) == Some(self.bytes()), Err(_) => faulty::<P>(key@) },
//@end
}
//@item enum DecryptError
pub trait Decrypt<T: VxTryFromVec>: VxAsRef {
//@fn trait Decrypt::decrypt
@ret r
@closure 0
-> (vx_r: DecryptError<P::Error>) ensures vx_r is Invalid
@sig
    ensures match r {
        Ok(t) => unsealed::<P>(key@, ad.bytes(), self.bytes()) == Some(t.plain()) && T::fits(t.plain()),
        Err(DecryptError::Invalid) => unsealed::<P>(key@, ad.bytes(), self.bytes()) matches Some(p) && !T::fits(p),
        Err(DecryptError::Provider(_)) => unsealed::<P>(key@, ad.bytes(), self.bytes()) is None,
    },
//@end
}

