//! C07: contracts of the header views (engine/src/vault/types/transactions.rs, types.rs)
use crate::src::*;
use engine::vault::verif_hooks::*;
use engine::vault::*;

fn chain(b: &[u8; 24]) -> ChainId {
    ChainId::load(b).unwrap()
}

/// DataTransaction::new: the header gives back every field after a trip through its byte form
#[cfg_attr(kani, kani::proof)]
pub fn data_header_keeps_fields() {
    let (i, b, h): ([u8; 24], [u8; 24], [u8; 24]) = (any(), any(), any());
    let len: u64 = any();
    let blob = BlobId::try_from(&b[..]).unwrap();
    let t = DataTransaction::new(chain(&i), len, blob, RecordHint::from(h));
    let bytes: Vec<u8> = t.as_ref().to_vec();
    check!(bytes.len() == 112, "a header has the fixed length");
    let t2 = Transaction::try_from(bytes).unwrap();
    match t2.typed::<DataTransaction>() {
        Some(d) => {
            let (i2, l2, b2, h2) = (d.id, d.len, d.blob, d.record_hint);
            check!(i2 == chain(&i), "the identifier is kept");
            check!(l2.u64() == len, "the length is kept");
            check!(b2 == blob, "the blob identifier is kept");
            check!(h2.as_ref() == &h[..], "the hint is kept");
        }
        None => check!(false, "a data header is readable as a data header (must not be reached)"),
    }
    check!(t2.typed::<RevocationTransaction>().is_none(), "a data header is not readable as a revocation");
}

/// RevocationTransaction::new
#[cfg_attr(kani, kani::proof)]
pub fn revocation_header_keeps_id() {
    let i: [u8; 24] = any();
    let t = RevocationTransaction::new(chain(&i));
    let bytes: Vec<u8> = t.as_ref().to_vec();
    check!(bytes.len() == 112, "a header has the fixed length");
    let t2 = Transaction::try_from(bytes).unwrap();
    match t2.typed::<RevocationTransaction>() {
        Some(d) => {
            let i2 = d.id;
            check!(i2 == chain(&i), "the identifier is kept");
        }
        None => check!(false, "a revocation header is readable as a revocation header (must not be reached)"),
    }
    check!(t2.typed::<DataTransaction>().is_none(), "a revocation header is not readable as data");
}

/// Transaction::typed on any byte string of header length: readable exactly as the kind its type field names
#[cfg_attr(kani, kani::proof)]
pub fn header_kind_of_any_bytes() {
    let b: [u8; 112] = any();
    let t = Transaction::try_from(b.to_vec()).unwrap();
    let mut k = [0u8; 8];
    k.copy_from_slice(&b[..8]);
    let kind = u64::from_be_bytes(k);
    check!(t.typed::<DataTransaction>().is_some() == (kind == 1), "readable as data exactly when it is data");
    check!(t.typed::<RevocationTransaction>().is_some() == (kind == 2), "readable as a revocation exactly when it is one");
}
