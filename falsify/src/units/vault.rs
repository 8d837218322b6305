use crate::{ensure, Ctx, R};
use engine::{
    runtime::memories::buffer::Buffer,
    vault::{view::Record, BlobId, BoxProvider, DbView, Key, NCKey, RecordHint, RecordId, VaultId},
};
use iota_stronghold::{
    procedures::{FatalProcedureError, UseSecret},
    Client, KeyStore, Location, Provider,
};
use serde::{Deserialize, Serialize};
use std::{
    collections::{BTreeMap, HashMap},
    convert::Infallible,
};

type K = Key<Provider>;

/// Reads the secret at a location through the public procedure machinery.
pub struct Read(pub Location);
impl UseSecret<1> for Read {
    type Output = Vec<u8>;
    fn use_secret(self, g: [Buffer<u8>; 1]) -> Result<Vec<u8>, FatalProcedureError> {
        let v = g[0].borrow().to_vec();
        Ok(v)
    }
    fn source(&self) -> [Location; 1] {
        [self.0.clone()]
    }
}
pub fn read(c: &Client, l: &Location) -> Option<Vec<u8>> {
    Read(l.clone()).exec(c).ok()
}

#[derive(Clone)]
struct Rec {
    data: Vec<u8>,
    hint: [u8; 24],
    revoked: bool,
    blob: Option<BlobId>,
}
#[derive(Clone)]
struct VM {
    key: usize,
    recs: BTreeMap<RecordId, Rec>,
}
struct W {
    keys: Vec<K>,
    vids: Vec<VaultId>,
    rids: Vec<RecordId>,
}
fn world(c: &mut Ctx) -> W {
    let (nk, nv, nr) = (3, 3, 4);
    W {
        keys: (0..nk).map(|_| K::load(c.r.bytes(32)).unwrap()).collect(),
        vids: (0..nv)
            .map(|i| {
                let mut b = c.r.bytes(24);
                if i > 0 {
                    b[..23].fill(0);
                    b[23] = i as u8;
                }
                VaultId::load(&b).unwrap()
            })
            .collect(),
        rids: (0..nr)
            .map(|i| {
                let mut b = c.r.bytes(24);
                if i > 0 {
                    b[1..].fill(7);
                    b[0] = i as u8;
                }
                RecordId::load(&b).unwrap()
            })
            .collect(),
    }
}
fn get(db: &DbView<Provider>, k: &K, v: VaultId, r: RecordId) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    db.get_guard::<Infallible, _>(k, v, r, |b| {
        out = b.borrow().to_vec();
        Ok(())
    })
    .map_err(|e| format!("{:?}", e))?;
    Ok(out)
}
fn check(db: &DbView<Provider>, m: &mut BTreeMap<VaultId, VM>, w: &W) -> R {
    let mut vs = db.list_vaults();
    vs.sort();
    ensure!(vs == m.keys().cloned().collect::<Vec<_>>(), "vaults {:?}, expected {:?}", vs, m.keys());
    for v in &w.vids {
        ensure!(db.contains_vault(v) == m.contains_key(v), "contains_vault({:?}) = {}", v, db.contains_vault(v));
        for r in &w.rids {
            let e = m.get(v).and_then(|x| x.recs.get(r)).filter(|x| !x.revoked);
            ensure!(db.contains_record(*v, *r) == e.is_some(), "contains_record({:?},{:?}) = {}", v, r, db.contains_record(*v, *r));
            let k = &w.keys[m.get(v).map_or(0, |x| x.key)];
            match (get(db, k, *v, *r), e) {
                (Ok(d), Some(x)) => ensure!(d == x.data, "record {:?} reads {:?}, last written {:?}", r, d, x.data),
                (Err(_), None) => {}
                (Ok(d), None) => return Err(format!("record {:?} reads {:?} but was never written, revoked or collected", r, d)),
                (Err(x), Some(_)) => return Err(format!("record {:?} cannot be read: {}", r, x)),
            }
        }
    }
    for (v, x) in m.iter_mut() {
        let k = &w.keys[x.key];
        let mut l = db.list_hints_and_ids(k, *v);
        l.sort();
        let e: Vec<_> = x.recs.iter().filter(|(_, r)| !r.revoked).map(|(i, r)| (*i, RecordHint::from(r.hint))).collect();
        ensure!(l == e, "hints {:?}, expected {:?}", l, e);
        for (i, r) in x.recs.iter_mut().filter(|(_, r)| !r.revoked) {
            let b = db.get_blob_id(k, *v, *i).map_err(|e| format!("get_blob_id: {:?}", e))?;
            match r.blob {
                None => r.blob = Some(b),
                Some(o) => ensure!(o == b, "blob id of an unchanged record changed"),
            }
        }
    }
    Ok(())
}
fn hint(c: &mut Ctx) -> [u8; 24] {
    let mut h = [0; 24];
    let n = c.r.below(25);
    let b = c.r.bytes(n);
    h[..n].copy_from_slice(&b);
    h
}

/// One random operation with the right key (wrong = false) or with some other key.
fn op(c: &mut Ctx, db: &mut DbView<Provider>, m: &mut BTreeMap<VaultId, VM>, w: &W, wrong: bool) -> R {
    let v = *c.r.pick(&w.vids);
    let r = *c.r.pick(&w.rids);
    let own = m.get(&v).map(|x| x.key);
    let ki = match own {
        Some(k) if wrong => (k + 1 + c.r.below(w.keys.len() - 1)) % w.keys.len(),
        Some(k) => k,
        None => c.r.below(w.keys.len()),
    };
    let bad = wrong && own.is_some();
    let key = &w.keys[ki];
    let live = m.get(&v).and_then(|x| x.recs.get(&r)).map(|x| !x.revoked);
    match c.r.below(if wrong { 12 } else { 14 }) {
        0..=3 => {
            let d = if c.r.one_in(6) { vec![] } else { let n = c.size * 40; c.r.data(n) };
            let h = hint(c);
            c.note(format!("write {:?}/{:?} {} bytes{}", v, r, d.len(), if bad { " wrong key" } else { "" }));
            let res = db.write(key, v, r, &d, RecordHint::from(h));
            if bad {
                ensure!(res.is_err(), "write with another key succeeded");
                return Ok(());
            }
            let x = m.entry(v).or_insert(VM { key: ki, recs: BTreeMap::new() });
            match live {
                Some(false) => ensure!(res.is_err(), "a revoked record was written"),
                Some(true) => {
                    res.map_err(|e| format!("write: {:?}", e))?;
                    let e = x.recs.get_mut(&r).unwrap();
                    e.data = d;
                    let b = db.get_blob_id(key, v, r).map_err(|e| format!("{:?}", e))?;
                    ensure!(Some(b) != e.blob, "the blob id did not change with the data");
                    e.blob = Some(b);
                }
                None => {
                    res.map_err(|e| format!("write: {:?}", e))?;
                    x.recs.insert(r, Rec { data: d, hint: h, revoked: false, blob: None });
                }
            }
        }
        4 | 5 => {
            c.note(format!("revoke {:?}/{:?}{}", v, r, if bad { " wrong key" } else { "" }));
            let res = db.revoke_record(key, v, r);
            if bad {
                ensure!(res.is_err(), "revoke with another key succeeded");
                return Ok(());
            }
            res.map_err(|e| format!("revoke: {:?}", e))?;
            if let Some(e) = m.get_mut(&v).and_then(|x| x.recs.get_mut(&r)) {
                e.revoked = true;
            }
        }
        6 | 7 => {
            c.note(format!("gc {:?}{}", v, if bad { " wrong key" } else { "" }));
            db.garbage_collect_vault(key, v);
            if !bad {
                if let Some(x) = m.get_mut(&v) {
                    x.recs.retain(|_, r| !r.revoked);
                }
                let l = db.list_records(&v);
                ensure!(l.len() == m.get(&v).map_or(0, |x| x.recs.len()), "after collection {} records are listed", l.len());
            }
        }
        8 => {
            c.note(format!("init {:?}", v));
            db.init_vault(key, v);
            if own.is_none() {
                m.insert(v, VM { key: ki, recs: BTreeMap::new() });
            }
        }
        9 => {
            // procedure: sources -> target
            let (sv, sr) = (*c.r.pick(&w.vids), *c.r.pick(&w.rids));
            let (sv2, sr2) = (*c.r.pick(&w.vids), *c.r.pick(&w.rids));
            let kof = |v: &VaultId| w.keys[m.get(v).map_or(0, |x| x.key)].clone();
            let s = |v: &VaultId, r: &RecordId| m.get(v).and_then(|x| x.recs.get(r)).filter(|x| !x.revoked).map(|x| x.data.clone());
            let (mut k1, k2) = (kof(&sv), kof(&sv2));
            let mut srcbad = false;
            if wrong {
                srcbad = c.r.bool() && m.contains_key(&sv);
                if srcbad {
                    k1 = w.keys[(m[&sv].key + 1) % w.keys.len()].clone();
                }
            }
            let h = hint(c);
            let fails = c.r.one_in(4);
            c.note(format!("procedure {:?}/{:?} + {:?}/{:?} -> {:?}/{:?} fails={} badsrc={} badtarget={}", sv, sr, sv2, sr2, v, r, fails, srcbad, bad));
            let (d1, d2) = (s(&sv, &sr), s(&sv2, &sr2));
            let mut seen = None;
            let res = db.exec_procedure::<String, _, 2>([(k1, sv, sr), (k2, sv2, sr2)], key, v, r, RecordHint::from(h), |g| {
                let mut o = g[0].borrow().to_vec();
                let b = g[1].borrow().to_vec();
                seen = Some((o.clone(), b.clone()));
                o.extend(b);
                if fails { Err("no".into()) } else { Ok(o) }
            });
            if let Some((a, b)) = &seen {
                ensure!(!srcbad, "a procedure read with another key");
                ensure!(Some(a) == d1.as_ref() && Some(b) == d2.as_ref(), "procedure was given {:?},{:?}, records hold {:?},{:?}", a, b, d1, d2);
            }
            let ok = d1.is_some() && d2.is_some() && !srcbad && !fails && !bad && live != Some(false);
            ensure!(res.is_ok() == ok, "procedure result {:?}, expected success={}", res, ok);
            if ok {
                let mut d = d1.unwrap();
                d.extend(d2.unwrap());
                let x = m.entry(v).or_insert(VM { key: ki, recs: BTreeMap::new() });
                match x.recs.get_mut(&r) {
                    Some(e) => {
                        e.data = d;
                        e.blob = None;
                    }
                    None => {
                        x.recs.insert(r, Rec { data: d, hint: h, revoked: false, blob: None });
                    }
                }
            } else if seen.is_some() && !fails && own.is_none() {
                // the target vault was created by the failing write
                return Err(format!("write to a fresh vault failed: {:?}", res));
            }
        }
        10 | 11 => {
            // pure reads
            if bad {
                c.note("reads, wrong key");
                ensure!(get(db, key, v, r).is_err(), "a record was read with another key");
                ensure!(db.get_blob_id(key, v, r).is_err(), "a blob id was read with another key");
                let l = db.list_hints_and_ids(key, v);
                ensure!(l.is_empty(), "records were listed with another key: {:?}", l);
                if let Ok(l) = db.list_records_with_blob_id(key, v) {
                    ensure!(l.is_empty(), "records were listed with another key: {:?}", l);
                }
                let res = db.get_guards::<Infallible, _, 1>([(key.clone(), v, r)], |_| Ok(()));
                ensure!(res.is_err(), "a record was read with another key");
                // import into it under a key that is not its own
                if let Some(x) = m.get(&v) {
                    let recs = db.export_records(v, x.recs.iter().filter(|(_, r)| !r.revoked).map(|(i, _)| *i)).map_err(|e| format!("{:?}", e))?;
                    if !recs.is_empty() {
                        let res = db.import_records(&w.keys[x.key], key, v, recs);
                        ensure!(res.is_err(), "records were imported into a vault with another key");
                    }
                }
            } else if let Some(x) = m.get(&v) {
                if x.recs.values().all(|r| !r.revoked) {
                    let mut l = db.list_records_with_blob_id(key, v).map_err(|e| format!("{:?}", e))?;
                    l.sort();
                    let ids: Vec<_> = x.recs.keys().cloned().collect();
                    ensure!(l.iter().map(|(r, _)| *r).collect::<Vec<_>>() == ids, "listed {:?}, expected {:?}", l, ids);
                }
            }
        }
        12 if c.r.one_in(3) => {
            c.note("serde");
            *db = bincode::deserialize(&bincode::serialize(db).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        }
        13 if c.r.one_in(8) => {
            c.note("clear");
            db.clear();
            m.clear();
        }
        _ => {}
    }
    Ok(())
}

pub fn dbview_ops(c: &mut Ctx) -> R {
    let w = world(c);
    let mut db = DbView::<Provider>::new();
    let mut m = BTreeMap::new();
    for _ in 0..c.size {
        op(c, &mut db, &mut m, &w, false)?;
        check(&db, &mut m, &w)?;
    }
    Ok(())
}
pub fn wrong_key(c: &mut Ctx) -> R {
    let w = world(c);
    let mut db = DbView::<Provider>::new();
    let mut m = BTreeMap::new();
    for _ in 0..c.size {
        let wrong = c.r.bool();
        op(c, &mut db, &mut m, &w, wrong)?;
        if wrong {
            check(&db, &mut m, &w)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ client vault API

fn loc(v: usize, r: usize) -> Location {
    let vp = format!("vault{}", v);
    match r {
        0 => Location::counter(vp, 0usize),
        1 => Location::counter(vp, 1usize),
        _ => Location::generic(vp, format!("r{}", r)),
    }
}

pub fn client_vault_ops(c: &mut Ctx) -> R {
    let cl = Client::default();
    let mut m: BTreeMap<(usize, usize), (Vec<u8>, bool)> = BTreeMap::new();
    let mut vaults = std::collections::BTreeSet::new();
    for _ in 0..c.size {
        let (v, r) = (c.r.below(3), c.r.below(5));
        let l = loc(v, r);
        let vault = cl.vault(format!("vault{}", v));
        match c.r.below(10) {
            0..=4 => {
                let d = if c.r.one_in(6) { vec![] } else { let n = c.size * 30; c.r.data(n) };
                c.note(format!("write {}/{} {} bytes", v, r, d.len()));
                let res = vault.write_secret(l.clone(), d.clone());
                vaults.insert(v);
                match m.get_mut(&(v, r)) {
                    Some((_, true)) => ensure!(res.is_err(), "a revoked record was written"),
                    _ => {
                        res.map_err(|e| e.to_string())?;
                        m.insert((v, r), (d, false));
                    }
                }
            }
            5 | 6 if r >= 2 => {
                c.note(format!("revoke {}/{}", v, r));
                vault.revoke_secret(format!("r{}", r)).map_err(|e| e.to_string())?;
                if let Some(e) = m.get_mut(&(v, r)) {
                    e.1 = true;
                }
            }
            7 if r >= 2 => {
                c.note(format!("delete {}/{}", v, r));
                let res = vault.delete_secret(format!("r{}", r)).map_err(|e| e.to_string())?;
                ensure!(res == vaults.contains(&v), "delete_secret returned {}", res);
                m.remove(&(v, r));
                m.retain(|(w, _), e| *w != v || !e.1);
            }
            8 => {
                c.note(format!("cleanup {}", v));
                let res = vault.cleanup().map_err(|e| e.to_string())?;
                ensure!(res == vaults.contains(&v), "cleanup returned {}", res);
                m.retain(|(w, _), e| *w != v || !e.1);
            }
            _ => {}
        }
        for v in 0..3 {
            let ex = cl.vault_exists(format!("vault{}", v)).map_err(|e| e.to_string())?;
            ensure!(ex == vaults.contains(&v), "vault_exists(vault{}) = {}", v, ex);
            for r in 0..5 {
                let e = m.get(&(v, r)).filter(|e| !e.1).map(|e| e.0.clone());
                let g = read(&cl, &loc(v, r));
                ensure!(g == e, "record {}/{} reads {:?}, expected {:?}", v, r, g, e);
                let ex = cl.record_exists(&loc(v, r)).map_err(|e| e.to_string())?;
                ensure!(ex == e.is_some(), "record_exists {}/{} = {}", v, r, ex);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ tampering (C10)

#[derive(Serialize, Deserialize, Clone)]
struct RawRec {
    id: [u8; 24],
    data: Vec<u8>,
    revoke: Option<Vec<u8>>,
    blob: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone)]
struct RawVault {
    key: Vec<u8>,
    entries: HashMap<[u8; 24], RawRec>,
}
#[derive(Serialize, Deserialize, Clone)]
struct RawDb {
    vaults: HashMap<[u8; 24], RawVault>,
}

fn raw_id<T: Serialize>(t: &T) -> Result<[u8; 24], String> {
    bincode::serialize(t).map_err(|e| e.to_string())?[..].try_into().map_err(|_| "id length".to_string())
}

pub fn tampered(c: &mut Ctx) -> R {
    let w = world(c);
    let mut db = DbView::<Provider>::new();
    let mut m: BTreeMap<(VaultId, RecordId), Vec<u8>> = BTreeMap::new();
    for (i, v) in w.vids.iter().enumerate() {
        for (j, r) in w.rids.iter().enumerate() {
            // (identifiers of records under one key are distinct)
            if c.r.below(4) > 0 && (i == 2 || j % 2 == i) {
                let n = c.r.below(60);
                let d = c.r.bytes(n);
                // vaults 0 and 1 share a key: binding must not rest on the key alone
                db.write(&w.keys[i / 2], *v, *r, &d, RecordHint::from([1; 24])).map_err(|e| format!("{:?}", e))?;
                m.insert((*v, *r), d);
            }
        }
    }
    let bytes = bincode::serialize(&db).map_err(|e| e.to_string())?;
    let raw: RawDb = match bincode::deserialize(&bytes) {
        Ok(r) => r,
        Err(_) => return Ok(()), // other layout than this unit knows: nothing to tamper with
    };
    let vs: Vec<[u8; 24]> = {
        let mut v: Vec<_> = raw.vaults.keys().cloned().collect();
        v.sort();
        v
    };
    if vs.is_empty() {
        return Ok(());
    }
    let mut raw = raw;
    let mut touched: Vec<([u8; 24], [u8; 24])> = vec![];
    for _ in 0..c.r.range(1, 2) {
        let v = *c.r.pick(&vs);
        let mut rs: Vec<[u8; 24]> = raw.vaults[&v].entries.keys().cloned().collect();
        rs.sort();
        if rs.is_empty() {
            continue;
        }
        let r = *c.r.pick(&rs);
        let v2 = *c.r.pick(&vs);
        let mut rs2: Vec<[u8; 24]> = raw.vaults[&v2].entries.keys().cloned().collect();
        rs2.sort();
        if rs2.is_empty() {
            continue;
        }
        let r2 = *c.r.pick(&rs2);
        let o = raw.vaults[&v2].entries[&r2].clone();
        let e = raw.vaults.get_mut(&v).unwrap().entries.get_mut(&r).unwrap();
        let k = c.r.below(8);
        c.note(format!("tamper kind {} {:?} <- {:?}", k, r[0], r2[0]));
        match k {
            0 if !e.blob.is_empty() => {
                let i = c.r.below(e.blob.len());
                e.blob[i] ^= 1 << c.r.below(8);
            }
            1 if !e.data.is_empty() => {
                let i = c.r.below(e.data.len());
                e.data[i] ^= 1 << c.r.below(8);
            }
            2 => e.blob = o.blob,
            3 => e.data = o.data,
            4 => {
                e.data = o.data;
                e.blob = o.blob;
            }
            5 => *e = o,
            6 => {
                let n = c.r.below(e.blob.len() + 1);
                e.blob.truncate(n);
            }
            _ => {
                let n = c.r.below(e.data.len() + 1);
                e.data.truncate(n);
            }
        }
        touched.push((v, r));
    }
    let db2: DbView<Provider> = bincode::deserialize(&bincode::serialize(&raw).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    for ((v, r), d) in &m {
        let i = w.vids.iter().position(|x| x == v).unwrap();
        let t = touched.contains(&(raw_id(v)?, raw_id(r)?));
        match get(&db2, &w.keys[i / 2], *v, *r) {
            Ok(g) => ensure!(g == *d, "record {:?} (tampered={}) reads {:?}, written {:?}", r, t, g, d),
            Err(e) => ensure!(t, "untouched record {:?} fails: {}", r, e),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ export / import (C11)

pub fn export_import(c: &mut Ctx) -> R {
    let w = world(c);
    let (mut a, mut b) = (DbView::<Provider>::new(), DbView::<Provider>::new());
    let (mut ma, mut mb) = (BTreeMap::new(), BTreeMap::new());
    for _ in 0..c.size + 3 {
        op(c, &mut a, &mut ma, &w, false)?;
        op(c, &mut b, &mut mb, &w, false)?;
    }
    check(&a, &mut ma, &w)?;
    check(&b, &mut mb, &w)?;
    for _ in 0..c.r.range(1, 4) {
        let (sv, tv) = (*c.r.pick(&w.vids), *c.r.pick(&w.vids));
        let Some(src) = ma.get(&sv).cloned() else {
            ensure!(a.export_records(sv, vec![w.rids[0]]).is_err(), "export from a vault that does not exist succeeded");
            continue;
        };
        let want: Vec<RecordId> = w
            .rids
            .iter()
            .filter(|r| src.recs.get(r).map_or(true, |x| !x.revoked) && c.r.below(3) > 0)
            .cloned()
            .collect();
        let mut recs = if c.r.one_in(4) {
            let mut all = a.export_all();
            let mut l = all.remove(&sv).ok_or("export_all misses a vault")?;
            l.retain(|(r, _)| want.contains(r));
            l
        } else {
            a.export_records(sv, want.clone()).map_err(|e| format!("{:?}", e))?
        };
        c.r.shuffle(&mut recs);
        let ids: Vec<RecordId> = recs.iter().map(|(r, _)| *r).collect();
        let e: Vec<RecordId> = want.iter().filter(|r| src.recs.contains_key(r)).cloned().collect();
        let (mut s1, mut s2) = (ids.clone(), e);
        s1.sort();
        s2.sort();
        ensure!(s1 == s2, "exported {:?}, selected and present {:?}", s1, s2);
        if c.r.one_in(3) {
            let x = bincode::serialize(&recs).map_err(|e| e.to_string())?;
            recs = bincode::deserialize::<Vec<(RecordId, Record)>>(&x).map_err(|e| e.to_string())?;
        }
        let tk = mb.get(&tv).map(|x| x.key).unwrap_or_else(|| c.r.below(3));
        c.note(format!("import {} records {:?} -> {:?}", recs.len(), sv, tv));
        b.import_records(&w.keys[src.key], &w.keys[tk], tv, recs).map_err(|e| format!("import: {:?}", e))?;
        let t = mb.entry(tv).or_insert(VM { key: tk, recs: BTreeMap::new() });
        for r in ids {
            // data, hint and blob id as at the source
            t.recs.insert(r, src.recs[&r].clone());
        }
        check(&a, &mut ma, &w).map_err(|e| format!("source after export: {}", e))?;
        check(&b, &mut mb, &w).map_err(|e| format!("target after import: {}", e))?;
        // a wrong source key imports nothing
        let recs = a.export_records(sv, src.recs.iter().filter(|(_, r)| !r.revoked).map(|(i, _)| *i)).map_err(|e| format!("{:?}", e))?;
        if !recs.is_empty() {
            let wk = &w.keys[(src.key + 1) % 3];
            ensure!(b.import_records(wk, &w.keys[tk], tv, recs).is_err(), "records were imported with the wrong source key");
            check(&b, &mut mb, &w).map_err(|e| format!("target after refused import: {}", e))?;
        }
    }
    for _ in 0..3 {
        op(c, &mut b, &mut mb, &w, false)?;
        check(&b, &mut mb, &w)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ key store (C12)

pub fn keystore_ops(c: &mut Ctx) -> R {
    let vids: Vec<VaultId> = (0..4)
        .map(|i| {
            let mut b = [0u8; 24];
            b[23] = i;
            VaultId::load(&b).unwrap()
        })
        .collect();
    let mut ks = KeyStore::<Provider>::default();
    let mut m: BTreeMap<VaultId, K> = BTreeMap::new();
    let rk = |c: &mut Ctx| K::load(c.r.bytes(32)).unwrap();
    for _ in 0..c.size {
        let v = *c.r.pick(&vids);
        match c.r.below(12) {
            0 | 1 => {
                c.note("insert");
                let k = rk(c);
                ks.insert_key(v, k.clone()).map_err(|e| e.to_string())?;
                m.insert(v, k);
            }
            2 | 3 => {
                c.note("get_or_insert");
                let k = rk(c);
                let g = ks.get_or_insert_key(v, k.clone()).map_err(|e| e.to_string())?;
                let e = m.entry(v).or_insert(k).clone();
                ensure!(g == e, "get_or_insert_key returned another key than the stored one");
            }
            4 | 5 => {
                c.note("create");
                let g = ks.create_key(v).map_err(|e| e.to_string())?;
                let had = m.contains_key(&v);
                ensure!(had || !m.values().any(|k| *k == g), "a created key is not fresh");
                let e = m.entry(v).or_insert(g.clone()).clone();
                ensure!(g == e, "create_key returned another key than the stored one");
            }
            6 | 7 => {
                c.note("take");
                let g = ks.take_key(v);
                let e = m.remove(&v);
                ensure!(g == e, "take_key returned {} key", if g.is_some() { "another" } else { "no" });
            }
            8 => {
                c.note("dump and rebuild");
                let d = ks.get_data();
                ensure!(d.len() == m.len() && m.iter().all(|(v, k)| d.get(v) == Some(k)), "get_data does not hold exactly the stored keys");
                let mut n = if c.r.bool() { KeyStore::<Provider>::default() } else {
                    let mut n = KeyStore::default();
                    let _ = n.insert_key(vids[0], rk(c));
                    let _ = n.insert_key(vids[3], rk(c));
                    n
                };
                let d: HashMap<VaultId, K> = bincode::deserialize(&bincode::serialize(&d).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                n.rebuild_keystore(d).map_err(|e| e.to_string())?;
                ks = n;
            }
            9 if c.r.one_in(3) => {
                c.note("clear");
                ks.clear_keys();
                m.clear();
            }
            10 if c.r.one_in(3) => {
                c.note("rebuild empty");
                ks.rebuild_keystore(HashMap::new()).map_err(|e| e.to_string())?;
                m.clear();
            }
            _ => {}
        }
        for v in &vids {
            ensure!(ks.get_key(*v) == m.get(v).cloned(), "get_key({:?}) differs from the stored key (stored: {})", v, m.contains_key(v));
            ensure!(ks.vault_exists(*v) == m.contains_key(v), "vault_exists({:?}) = {}", v, ks.vault_exists(*v));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ sealed boxes (C16)

pub fn seal_open(c: &mut Ctx) -> R {
    let k = K::load(c.r.bytes(32)).unwrap();
    let n = c.size * 30;
    let (d, n) = (c.r.data(n), c.r.below(40));
    let ad = c.r.bytes(n);
    c.note(format!("seal {} bytes, ad {}", d.len(), ad.len()));
    let s = Provider::box_seal(&k, &ad, &d).map_err(|e| format!("seal: {:?}", e))?;
    ensure!(s.len() == d.len() + Provider::box_overhead(), "box of {} bytes for {} bytes of data", s.len(), d.len());
    let o = Provider::box_open(&k, &ad, &s).map_err(|e| format!("open: {:?}", e))?;
    ensure!(o == d, "opened {:?}, sealed {:?}", o, d);
    let s2 = Provider::box_seal(&k, &ad, &d).map_err(|e| format!("seal: {:?}", e))?;
    ensure!(Provider::box_open(&k, &ad, &s2).ok() == Some(d.clone()), "second box does not open");
    // everything else is refused
    let mut kb: Vec<u8> = k.key.borrow().to_vec();
    kb[c.r.below(32)] ^= 1 << c.r.below(8);
    let k2 = K::load(kb).unwrap();
    ensure!(Provider::box_open(&k2, &ad, &s).is_err(), "opens with another key");
    let mut ad2 = ad.clone();
    match c.r.below(3) {
        0 => ad2.push(c.r.byte()),
        1 if !ad2.is_empty() => {
            ad2.pop();
        }
        _ if !ad2.is_empty() => {
            let i = c.r.below(ad2.len());
            ad2[i] ^= 1 << c.r.below(8);
        }
        _ => ad2.push(0),
    }
    ensure!(Provider::box_open(&k, &ad2, &s).is_err(), "opens with other associated data");
    for _ in 0..4 {
        let mut t = s.clone();
        let i = c.r.below(t.len());
        t[i] ^= 1 << c.r.below(8);
        ensure!(Provider::box_open(&k, &ad, &t).is_err(), "opens with bit {} changed", i);
    }
    for n in [0, 1, 15, 16, 17, 23, 24, 25, 39, 40, c.r.below(s.len()), s.len() - 1] {
        if n < s.len() {
            ensure!(Provider::box_open(&k, &ad, &s[..n]).is_err(), "opens when cut to {} bytes", n);
        }
    }
    let mut t = s.clone();
    let x = c.r.range(1, 40);
    t.extend(c.r.bytes(x));
    ensure!(Provider::box_open(&k, &ad, &t).is_err(), "opens when extended by {}", x);
    let x = c.r.below(100);
    let j = c.r.bytes(x);
    ensure!(Provider::box_open(&k, &ad, &j).is_err(), "{} random bytes open", x);
    // the same through the split-memory key
    let nk = NCKey::<Provider>::load(c.r.bytes(32)).unwrap();
    let e = nk.encrypt_key(&k, &ad).map_err(|e| format!("{:?}", e))?;
    ensure!(nk.decrypt_key(e.clone(), &ad).ok() == Some(k), "a key does not decrypt to itself");
    ensure!(nk.decrypt_key(e.clone(), &ad2).is_err(), "a key decrypts under other associated data");
    let n = c.r.below(e.len());
    ensure!(nk.decrypt_key(e[..n].to_vec(), &ad).is_err(), "a cut key box decrypts");
    ensure!(K::load(c.r.bytes(31)).is_none() && K::load(c.r.bytes(33)).is_none() && K::load(vec![]).is_none(), "a key of wrong length was loaded");
    Ok(())
}
