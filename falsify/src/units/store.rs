use crate::{clock::Frozen, ensure, Ctx, R};
use engine::store::Cache;
use iota_stronghold::Store;
use std::{
    collections::BTreeMap,
    time::Duration,
};

type K = Vec<u8>;
/// value, expiry (ns since the epoch)
type Model = BTreeMap<K, (Vec<u8>, Option<u128>)>;

fn live(m: &Model, k: &K, now: u128) -> Option<Vec<u8>> {
    m.get(k).filter(|(_, e)| e.map_or(true, |e| now < e)).map(|(v, _)| v.clone())
}

const T0: i64 = 1_600_000_000_000_000_000;

fn lifetime(c: &mut Ctx) -> Option<Duration> {
    match c.r.below(11) {
        0..=3 => None,
        9 => Some(Duration::from_secs((1u64 << *c.r.pick(&[8, 16, 31, 32])) - 2 + c.r.below(5) as u64)),
        4 => Some(Duration::from_nanos(0)),
        5 => Some(Duration::from_nanos(1)),
        6 => Some(Duration::from_secs(c.r.range(1, 5) as u64)),
        7 => Some(Duration::from_millis(c.r.range(1, 3000) as u64)),
        8 => Some(Duration::from_secs(3600 * 24 * 365 * c.r.range(1, 200) as u64)),
        _ => Some(*c.r.pick(&[
            Duration::MAX,
            Duration::from_secs(i64::MAX as u64),
            Duration::from_secs(u32::MAX as u64),
            Duration::from_nanos(u64::MAX),
        ])),
    }
}
fn expiry(now: i64, l: Option<Duration>) -> Option<u128> {
    l.map(|l| now as u128 + l.as_nanos())
}
fn key(c: &mut Ctx) -> K {
    match c.r.below(8) {
        0 => vec![],
        1 => vec![0],
        2 => vec![0, 0],
        _ => vec![b'k', c.r.below(4) as u8],
    }
}
fn step(c: &mut Ctx, f: &Frozen) {
    let d = match c.r.below(24) {
        20 | 21 => 1_000_000_000 * ((1i64 << *c.r.pick(&[8, 16, 31, 32])) - 3 + c.r.below(7) as i64),
        x if x >= 18 => 0,
        x => match x % 6 {
        0 | 1 => 0,
        2 => 1,
        3 => 1_000_000_000 * c.r.range(1, 4) as i64,
        4 => 1_000_000 * c.r.range(1, 2500) as i64,
        _ => 1_000_000_000 * c.r.range(1, 40_000_000) as i64,
        },
    };
    // the year 2262 ends the clock
    let d = if f.now().checked_add(d).is_none() { 0 } else { d };
    f.advance(d);
    if d > 0 {
        c.note(format!("+{}ns", d));
    }
}

pub fn cache_ops(c: &mut Ctx) -> R {
    let f = Frozen::at(T0);
    let mut m = Model::new();
    let freq = match c.r.below(4) {
        0 => None,
        1 => Some(Duration::from_secs(0)),
        2 => Some(Duration::from_secs(c.r.range(1, 4) as u64)),
        _ => Some(Duration::from_nanos(1)),
    };
    c.note(format!("scan {:?}", freq));
    let mut t: Cache<K, Vec<u8>> = match freq {
        None => Cache::new(),
        Some(d) => Cache::create_with_scanner(d),
    };
    for i in 0..c.size {
        step(c, &f);
        let now = f.now() as u128;
        let k = key(c);
        match c.r.below(14) {
            0..=4 => {
                let l = lifetime(c);
                let v = vec![i as u8, c.r.byte()];
                c.note(format!("insert {:?} {:?} {:?}", k, v, l));
                let exp = live(&m, &k, now);
                let got = t.insert(k.clone(), v.clone(), l);
                m.insert(k, (v, expiry(f.now(), l)));
                ensure!(got == exp, "insert returned {:?}, previous unexpired value is {:?}", got, exp);
            }
            5 | 6 => {
                c.note(format!("remove {:?}", k));
                let exp = live(&m, &k, now);
                m.remove(&k);
                let got = t.remove(&k);
                ensure!(got == exp, "remove returned {:?}, previous unexpired value is {:?}", got, exp);
            }
            7 | 8 => {
                let l = lifetime(c);
                let v = vec![i as u8, c.r.byte(), 1];
                c.note(format!("get_or_insert {:?} {:?} {:?}", k, v, l));
                let exp = live(&m, &k, now).unwrap_or_else(|| {
                    m.insert(k.clone(), (v.clone(), expiry(f.now(), l)));
                    v.clone()
                });
                let got = t.get_or_insert(k.clone(), || v.clone(), l).clone();
                ensure!(got == exp, "get_or_insert gave {:?}, expected {:?}", got, exp);
            }
            9 if c.r.one_in(4) => {
                c.note("clear");
                t.clear();
                m.clear();
            }
            10 => {
                c.note("serde");
                t = bincode::deserialize(&bincode::serialize(&t).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            }
            11 => {
                c.note("clone");
                t = t.clone();
            }
            _ => {}
        }
        let now = f.now() as u128;
        let probe: Vec<K> = vec![vec![], vec![0], vec![0, 0], vec![b'k', 0], vec![b'k', 1], vec![b'k', 2], vec![b'k', 3], vec![1]];
        for k in &probe {
            let e = live(&m, k, now);
            ensure!(t.get(k).cloned() == e, "get {:?} gives {:?}, expected {:?}", k, t.get(k), e);
            ensure!(t.contains_key(k) == e.is_some(), "contains_key {:?} gives {}", k, t.contains_key(k));
        }
        let ks = t.keys();
        for k in &probe {
            if live(&m, k, now).is_some() {
                ensure!(ks.iter().filter(|x| *x == k).count() == 1, "keys() misses or repeats {:?}", k);
            }
            if !m.contains_key(k) {
                ensure!(!ks.contains(k), "keys() lists {:?}, which is not stored", k);
            }
        }
    }
    Ok(())
}

pub fn store_ops(c: &mut Ctx) -> R {
    let f = Frozen::at(T0 + 7);
    let mut m = Model::new();
    let mut s = Store::default();
    for i in 0..c.size {
        step(c, &f);
        let now = f.now() as u128;
        let k = key(c);
        match c.r.below(12) {
            0..=4 => {
                let l = lifetime(c);
                let v = if c.r.one_in(5) { vec![] } else { vec![i as u8, c.r.byte()] };
                c.note(format!("insert {:?} {:?} {:?}", k, v, l));
                let exp = live(&m, &k, now);
                let got = s.insert(k.clone(), v.clone(), l).map_err(|e| e.to_string())?;
                m.insert(k, (v, expiry(f.now(), l)));
                ensure!(got == exp, "insert returned {:?}, previous unexpired value is {:?}", got, exp);
            }
            5 | 6 => {
                c.note(format!("delete {:?}", k));
                let exp = live(&m, &k, now);
                m.remove(&k);
                let got = s.delete(&k).map_err(|e| e.to_string())?;
                ensure!(got == exp, "delete returned {:?}, previous unexpired value is {:?}", got, exp);
            }
            7 if c.r.one_in(4) => {
                c.note("clear");
                s.clear().map_err(|e| e.to_string())?;
                m.clear();
            }
            8 => {
                c.note("clone handle");
                s = s.clone();
            }
            9 if c.r.one_in(4) => {
                c.note("reload");
                let mut t = Cache::new();
                m.clear();
                for _ in 0..c.r.below(4) {
                    let (k, v, l) = (key(c), vec![c.r.byte()], lifetime(c));
                    t.insert(k.clone(), v.clone(), l);
                    m.insert(k, (v, expiry(f.now(), l)));
                }
                s.reload(t).map_err(|e| e.to_string())?;
            }
            10 => {
                c.note("serde");
                s = bincode::deserialize(&bincode::serialize(&s).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            }
            _ => {}
        }
        let now = f.now() as u128;
        for k in [vec![], vec![0], vec![0, 0], vec![b'k', 0], vec![b'k', 1], vec![b'k', 2], vec![b'k', 3], vec![1]] {
            let e = live(&m, &k, now);
            let g = s.get(&k).map_err(|e| e.to_string())?;
            ensure!(g == e, "get {:?} gives {:?}, expected {:?}", k, g, e);
            let h = s.contains_key(&k).map_err(|e| e.to_string())?;
            ensure!(h == e.is_some(), "contains_key {:?} gives {}", k, h);
            let ks = s.keys().map_err(|e| e.to_string())?;
            ensure!(e.is_none() || ks.contains(&k), "keys() misses {:?}", k);
            ensure!(m.contains_key(&k) || !ks.contains(&k), "keys() lists {:?}, which is not stored", k);
        }
    }
    Ok(())
}
