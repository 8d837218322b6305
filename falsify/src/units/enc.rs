use crate::{ensure, Ctx, R};
use engine::vault::{
    verif_hooks::{AsView, DataTransaction, RevocationTransaction, Transaction, Val},
    Base64Decodable, Base64Encodable, BlobId, ChainId, ClientId, Id, RecordHint, RecordId, VaultId,
};
use std::panic::{catch_unwind, AssertUnwindSafe};

const ALPH: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

fn ref_encode(d: &[u8]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < d.len() {
        let n = (d.len() - i).min(3);
        let mut v = 0u32;
        for k in 0..3 {
            v = v << 8 | if k < n { d[i + k] as u32 } else { 0 };
        }
        for k in 0..4 {
            if k <= n {
                s.push(ALPH[(v >> (18 - 6 * k) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
        i += 3;
    }
    s
}

pub fn b64_roundtrip(c: &mut Ctx) -> R {
    let d = match c.r.below(3) {
        0 => {
            let n = c.r.below(5);
            c.r.bytes(n)
        }
        1 => vec![[0xff, 0xfb, 0xef, 0xbe, 0x3e, 0x00][c.r.below(6)]; c.r.below(8)],
        _ => c.r.data(c.size * 5),
    };
    let e = d.base64();
    c.note(format!("encode {:?} -> {}", &d[..d.len().min(12)], &e[..e.len().min(20)]));
    ensure!(e == ref_encode(&d), "{:?} encodes to {:?}, standard text is {:?}", d, e, ref_encode(&d));
    let b = Vec::<u8>::from_base64(&e).map_err(|_| format!("own encoding {:?} refused", e))?;
    ensure!(b == d, "decode(encode(d)) = {:?}, d = {:?}", b, d);
    Ok(())
}

pub fn b64_decode(c: &mut Ctx) -> R {
    let n = match c.r.below(3) {
        0 => c.r.below(13),
        1 => 4 * c.r.below(6),
        _ => c.r.below(c.size * 3 + 1),
    };
    let mut t: Vec<u8> = (0..n).map(|_| ALPH[c.r.below(64)]).collect();
    // faults
    match c.r.below(6) {
        0 => {
            for b in t.iter_mut() {
                if c.r.one_in(6) {
                    *b = c.r.byte();
                }
            }
        }
        1 => {
            let p = c.r.below(6);
            for k in 0..p.min(n) {
                t[n - 1 - k] = b'=';
            }
        }
        2 if n > 0 => {
            let i = c.r.below(n);
            t[i] = *c.r.pick(b"=+/ \n\0\x80\xff@[`{:,.~");
        }
        3 => {
            let d = c.r.bytes(n);
            t = ref_encode(&d).into_bytes();
            if !t.is_empty() && c.r.bool() {
                let i = c.r.below(t.len());
                match c.r.below(3) {
                    0 => {
                        t.remove(i);
                    }
                    1 => t.insert(i, *c.r.pick(b"=A-_+/")),
                    _ => t[i] = *c.r.pick(b"=A-_+/\xc3"),
                }
            }
        }
        _ => {}
    }
    c.note(format!("decode {:?}", String::from_utf8_lossy(&t)));
    let r = Vec::<u8>::from_base64(&t);
    let pad = t.iter().rev().take_while(|b| **b == b'=').count();
    let body_ok = t[..t.len() - pad].iter().all(|b| ALPH.contains(b));
    let must_fail = t.len() % 4 != 0 || pad > 2 || !body_ok;
    match r {
        Ok(v) => {
            ensure!(!must_fail, "malformed text {:?} decoded to {:?}", String::from_utf8_lossy(&t), v);
            ensure!(v.len() == t.len() / 4 * 3 - pad, "{:?} decoded to {} bytes", String::from_utf8_lossy(&t), v.len());
            // the encoding of the result agrees with the text up to the discarded low bits
            let e = ref_encode(&v).into_bytes();
            let k = (v.len() * 8) / 6;
            ensure!(e[..k] == t[..k], "{:?} decoded to {:?}", String::from_utf8_lossy(&t), v);
        }
        Err(_) => {
            if !must_fail {
                // only canonical text is promised to decode
                let mut canon = false;
                let mut bits = 0u32;
                if pad > 0 {
                    let l = t[t.len() - pad - 1];
                    bits = ALPH.iter().position(|x| *x == l).unwrap() as u32 & if pad == 1 { 3 } else { 15 };
                } else {
                    canon = true;
                }
                ensure!(!(canon || bits == 0), "valid text {:?} refused", String::from_utf8_lossy(&t));
            }
        }
    }
    Ok(())
}

pub fn ids(c: &mut Ctx) -> R {
    let n = match c.r.below(3) {
        0 => 24,
        1 => c.r.range(22, 26),
        _ => c.r.below(c.size + 30),
    };
    let d = c.r.data(n + 1);
    let d: Vec<u8> = if d.len() < n { let mut d = d; let k = n - d.len(); d.extend(c.r.bytes(k)); d } else { d[..n].to_vec() };
    c.note(format!("ids from {} bytes {:?}", n, &d[..n.min(4)]));
    let ok = n == 24;
    macro_rules! chk { ($name:expr, $e:expr, $back:expr) => {{
        match $e {
            Ok(i) => { ensure!(ok, "{} accepts {} bytes", $name, n); let b: Vec<u8> = $back(i); ensure!(b == d, "{} gives back {:?} for {:?}", $name, b, d); }
            Err(_) => ensure!(!ok, "{} refuses 24 bytes {:?}", $name, d),
        }
    }}; }
    chk!("ChainId::load", ChainId::load(&d), |i: ChainId| i.as_ref().to_vec());
    chk!("ChainId::try_from(Vec)", ChainId::try_from(d.clone()), |i: ChainId| i.as_ref().to_vec());
    chk!("ChainId::try_from(&[u8])", ChainId::try_from(&d[..]), |i: ChainId| i.as_ref().to_vec());
    chk!("Id::load", Id::load(&d), |i: Id| i.as_ref().to_vec());
    chk!("Id::try_from(Vec)", Id::try_from(d.clone()), |i: Id| i.as_ref().to_vec());
    chk!("BlobId::try_from", BlobId::try_from(&d[..]), |i: BlobId| { let v: Vec<u8> = (&i).into(); assert!(v == i.as_ref()); let w: Vec<u8> = i.into(); assert!(v == w); v });
    chk!("RecordId::load", RecordId::load(&d), |i: RecordId| { let x: ChainId = i.into(); let r: RecordId = x.into(); assert!(r == i); x.as_ref().to_vec() });
    chk!("RecordId::try_from(Vec)", RecordId::try_from(d.clone()), |i: RecordId| ChainId::from(i).as_ref().to_vec());
    chk!("RecordId::try_from(&[u8])", RecordId::try_from(&d[..]), |i: RecordId| ChainId::from(i).as_ref().to_vec());
    chk!("VaultId::load", VaultId::load(&d), |i: VaultId| { let v: Vec<u8> = i.into(); assert!(v == i.as_ref()); v });
    chk!("VaultId::try_from(Vec)", VaultId::try_from(d.clone()), |i: VaultId| i.into());
    chk!("VaultId::try_from(&[u8])", VaultId::try_from(&d[..]), |i: VaultId| i.into());
    chk!("ClientId::load", ClientId::load(&d), |i: ClientId| { let v: Vec<u8> = i.into(); assert!(v == i.as_ref()); v });
    chk!("ClientId::try_from(Vec)", ClientId::try_from(d.clone()), |i: ClientId| i.into());
    chk!("ClientId::try_from(&[u8])", ClientId::try_from(&d[..]), |i: ClientId| i.into());
    if ok {
        let v = VaultId::load(&d).unwrap();
        let s: String = v.into();
        ensure!(s == ref_encode(&d), "VaultId text {:?}", s);
        let s: String = ClientId::load(&d).unwrap().into();
        ensure!(s == ref_encode(&d), "ClientId text {:?}", s);
        let e = c.r.bytes(24);
        ensure!((ChainId::load(&d).unwrap() == ChainId::load(&e).unwrap()) == (d == e), "ChainId equality");
        ensure!(ChainId::load(&d).unwrap().cmp(&ChainId::load(&e).unwrap()) == d.cmp(&e), "ChainId order");
    }
    match RecordHint::new(&d) {
        Some(h) => {
            ensure!(n <= 24, "hint accepts {} bytes", n);
            let mut x = d.clone();
            x.resize(24, 0);
            ensure!(h.as_ref() == &x[..], "hint of {:?} is {:?}", d, h.as_ref());
        }
        None => ensure!(n > 24, "hint refuses {} bytes", n),
    }
    let a: [u8; 24] = c.r.arr();
    ensure!(RecordHint::from(a).as_ref() == &a[..], "hint from array");
    Ok(())
}

pub fn val(c: &mut Ctx) -> R {
    let mut g = || -> u64 {
        match c.r.below(6) {
            0 => c.r.u64(),
            1 => u64::MAX - c.r.below(4) as u64,
            2 => c.r.below(600) as u64,
            3 => 1u64 << c.r.below(64),
            4 => (1u64 << c.r.below(64)).wrapping_sub(1),
            _ => c.r.u64() >> c.r.below(64),
        }
    };
    let (a, b) = (g(), g());
    c.note(format!("val {} {}", a, b));
    ensure!(Val::from(a).u64() == a, "u64 -> Val -> u64: {} gives {}", a, Val::from(a).u64());
    ensure!(Val::from(a).cmp(&Val::from(b)) == a.cmp(&b), "order of {} and {}", a, b);
    ensure!(Val::from(a).partial_cmp(&Val::from(b)) == a.partial_cmp(&b), "partial order of {} and {}", a, b);
    ensure!((Val::from(a) == Val::from(b)) == (a == b), "equality of {} and {}", a, b);
    let r = catch_unwind(AssertUnwindSafe(|| (Val::from(a) + b).u64())).ok();
    ensure!(r == a.checked_add(b), "{} + {} = {:?}", a, b, r);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut x = Val::from(a);
        x += b;
        x.u64()
    }))
    .ok();
    ensure!(r == a.checked_add(b), "{} += {} gives {:?}", a, b, r);
    Ok(())
}

pub fn headers(c: &mut Ctx) -> R {
    let id = ChainId::load(&c.r.bytes(24)).unwrap();
    let blob = BlobId::try_from(&c.r.bytes(24)[..]).unwrap();
    let hb: [u8; 24] = c.r.arr();
    let hint = RecordHint::from(hb);
    let len = match c.r.below(3) {
        0 => c.r.u64(),
        1 => 1u64 << c.r.below(64),
        _ => c.r.below(1000) as u64,
    };
    c.note(format!("header len {} id {:?}", len, id));
    let check_data = |t: &Transaction| -> R {
        let v = t.typed::<DataTransaction>().ok_or("data header not readable as data")?;
        let (i, l, b, h) = (v.id, v.len, v.blob, v.record_hint);
        ensure!(i == id && l.u64() == len && b == blob && h == hint, "data header fields: id {:?}/{:?} len {}/{} blob {:?}/{:?} hint {:?}/{:?}", i, id, l.u64(), len, b, blob, h, hint);
        ensure!(t.typed::<RevocationTransaction>().is_none(), "data header readable as revocation");
        let u = t.untyped();
        let (i, ty) = (u.type_id, u.id);
        let _ = (i, ty);
        Ok(())
    };
    let t = DataTransaction::new(id, len, blob, hint);
    check_data(&t)?;
    let bytes = t.as_ref().to_vec();
    let t2 = Transaction::try_from(bytes.clone()).map_err(|_| "own bytes refused")?;
    check_data(&t2)?;
    let r = RevocationTransaction::new(id);
    for r in [r.clone(), Transaction::try_from(r.as_ref().to_vec()).map_err(|_| "own bytes refused")?] {
        let v = r.typed::<RevocationTransaction>().ok_or("revocation header not readable as revocation")?;
        let i = v.id;
        ensure!(i == id, "revocation header id {:?} should be {:?}", i, id);
        ensure!(r.typed::<DataTransaction>().is_none(), "revocation header readable as data");
    }
    // length check
    let full = bytes.len();
    let n = match c.r.below(3) {
        0 => full + c.r.below(5) - 2,
        1 => c.r.below(full * 2),
        _ => full,
    };
    let raw = c.r.bytes(n);
    let ok = Transaction::try_from(raw.clone());
    ensure!(ok.is_ok() == (n == full), "byte string of length {} accepted as header: {} (header length {})", n, ok.is_ok(), full);
    if let Ok(t) = ok {
        ensure!(t.as_ref() == &raw[..], "header bytes changed");
        // any kind field other than the two kinds is readable as neither
        let mut raw = raw;
        let k = c.r.u64() | 4;
        for kind in [k, 0, 1, 2, 3, 1 << 56, 2 << 56] {
            raw[..8].copy_from_slice(&kind.to_be_bytes());
            let t = Transaction::try_from(raw.clone()).unwrap();
            ensure!(t.typed::<DataTransaction>().is_some() == (kind == 1), "kind {} readable as data: {}", kind, kind != 1);
            ensure!(t.typed::<RevocationTransaction>().is_some() == (kind == 2), "kind {} readable as revocation: {}", kind, kind != 2);
        }
        let _ : &DataTransaction = t.view();
    }
    Ok(())
}
