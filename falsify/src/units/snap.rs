use crate::{ensure, Ctx, R};
use engine::snapshot::{read, read_from, write, write_to};
use std::io::{Read, Write};

fn key(c: &mut Ctx) -> [u8; 32] {
    c.r.arr()
}
fn payload(c: &mut Ctx) -> Vec<u8> {
    let m = match c.r.below(10) {
        0 => 9000,
        1 => 70_000,
        _ => c.size * 30,
    };
    c.r.data(m)
}
fn clamp(mut k: [u8; 32]) -> [u8; 32] {
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    k
}
fn ls(d: &std::path::Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
    v.sort();
    v
}

pub fn stream(c: &mut Ctx) -> R {
    let (p, k) = (payload(c), key(c));
    let ad = c.r.data(40);
    c.note(format!("stream payload {} ad {}", p.len(), ad.len()));
    let mut b = vec![];
    write(&p, &mut b, &k, &ad).map_err(|e| format!("write failed: {}", e))?;
    let r = read(&mut b.as_slice(), &k, &ad).map_err(|e| format!("reading back failed: {} (payload {} bytes)", e, p.len()))?;
    ensure!(r == p, "payload of {} bytes read back as {} bytes that differ", p.len(), r.len());
    // keys that denote the same scalar
    let mut k2 = k;
    k2[0] ^= (c.r.below(8)) as u8;
    k2[31] ^= [0u8, 0x80][c.r.below(2)];
    let r = read(&mut b.as_slice(), &k2, &ad).map_err(|e| format!("equivalent key refused: {}", e))?;
    ensure!(clamp(k) != clamp(k2) || r == p, "equivalent key reads other data");
    Ok(())
}

/// readers and writers that transfer a few bytes at a time
struct Slow<'a>(&'a [u8], u64);
impl<'a> Read for Slow<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.1 = self.1.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        if self.1 >> 62 == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again"));
        }
        let n = (1 + (self.1 >> 33) as usize % 7).min(b.len()).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
struct SlowW(Vec<u8>, u64);
impl Write for SlowW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 = self.1.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let n = (1 + (self.1 >> 33) as usize % 7).min(b.len());
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct FailW(usize);
impl Write for FailW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn pathological_stream(c: &mut Ctx) -> R {
    let n = c.r.below(400);
    let (p, k) = (c.r.bytes(n), key(c));
    let ad = c.r.data(10);
    c.note(format!("slow stream payload {}", p.len()));
    let mut w = SlowW(vec![], c.r.u64());
    write(&p, &mut w, &k, &ad).map_err(|e| format!("write to a slow writer failed: {}", e))?;
    let r = read(&mut Slow(&w.0, c.r.u64()), &k, &ad).map_err(|e| format!("reading back through a slow reader failed: {}", e))?;
    ensure!(r == p, "slow stream: payload differs");
    // a writer that fills up: either an error, or complete data
    let total = w.0.len();
    let cap = c.r.below(total);
    ensure!(write(&p, &mut FailW(cap), &k, &ad).is_err(), "write reports success although the writer took only {} of {} bytes", cap, total);
    Ok(())
}

pub fn file(c: &mut Ctx) -> R {
    let d = c.fresh_dir();
    let res = file_in(c, &d);
    let _ = std::fs::remove_dir_all(&d);
    res
}
fn file_in(c: &mut Ctx, d: &std::path::Path) -> R {
    let name = *c.r.pick(&["s", "a.stronghold", "snap shot", "x.y.z", "ünï"]);
    let path = d.join(name);
    let rounds = c.r.range(1, 4);
    // unrelated files that must survive
    std::fs::write(d.join("other"), b"o").unwrap();
    std::fs::write(d.join(format!("{}.bak", name)), b"bak").unwrap();
    if c.r.one_in(3) {
        let n = c.r.below(3000);
        std::fs::write(&path, c.r.bytes(n)).unwrap();
    }
    let want = {
        let mut v = vec!["other".to_string(), format!("{}.bak", name), name.to_string()];
        v.sort();
        v
    };
    for i in 0..rounds {
        let (p, k) = (payload(c), key(c));
        let ad = c.r.data(40);
        c.note(format!("file round {} payload {} ad {}", i, p.len(), ad.len()));
        write_to(&p, &path, &k, &ad).map_err(|e| format!("write_to failed: {}", e))?;
        let raw = std::fs::read(&path).map_err(|e| format!("snapshot file not there: {}", e))?;
        ensure!(raw.len() >= 7 && &raw[..5] == b"PARTI" && raw[5..7] == [2, 0], "file starts with {:?}", &raw[..raw.len().min(8)]);
        ensure!(ls(d) == want, "directory holds {:?}, expected {:?}", ls(d), want);
        ensure!(std::fs::read(d.join("other")).unwrap() == b"o" && std::fs::read(d.join(format!("{}.bak", name))).unwrap() == b"bak", "unrelated file changed");
        for _ in 0..2 {
            let r = read_from(&path, &k, &ad).map_err(|e| format!("reading back failed: {} (payload {} bytes)", e, p.len()))?;
            ensure!(r == p, "payload of {} bytes read back as {} bytes that differ", p.len(), r.len());
        }
        ensure!(std::fs::read(&path).unwrap() == raw, "reading changed the file");
    }
    Ok(())
}

fn damage(c: &mut Ctx, b: &[u8]) -> Vec<u8> {
    let mut x = b.to_vec();
    match c.r.below(9) {
        0 => {
            let i = c.r.below(x.len());
            x.truncate(i)
        }
        1 => {
            let n = c.r.range(1, 3);
            let e = c.r.bytes(n);
            x.extend(e)
        }
        2 => {
            let i = c.r.below(x.len());
            x.remove(i);
        }
        3 => {
            let i = c.r.below(x.len() + 1);
            x.insert(i, c.r.byte());
        }
        4 if x.len() > 8 => {
            let i = c.r.below(8);
            x[i] ^= 1 << c.r.below(8)
        }
        5 => {
            let n = x.len();
            let i = n - 1 - c.r.below(n.min(20));
            x[i] ^= 1 << c.r.below(8)
        }
        _ => {
            let i = c.r.below(x.len());
            x[i] ^= (1 + c.r.below(255)) as u8
        }
    }
    x
}

/// The top bit of the ephemeral public key is ignored by X25519 itself, but the nonce is computed from all bytes
/// the reader keeps, so it is covered by the authentication as well; nothing is excluded here.
pub fn reject_stream(c: &mut Ctx) -> R {
    let n = c.r.below(c.size * 8);
    let (p, k) = (c.r.bytes(n), key(c));
    let ad = c.r.data(20);
    let mut b = vec![];
    write(&p, &mut b, &k, &ad).map_err(|e| format!("write failed: {}", e))?;
    for _ in 0..4 {
        let x = damage(c, &b);
        c.note(format!("payload {} damaged len {} -> {}", n, b.len(), x.len()));
        if x == b {
            continue;
        }
        if let Ok(r) = read(&mut x.as_slice(), &k, &ad) {
            return Err(format!("altered stream (first difference at {:?}, {} -> {} bytes) read as {} bytes (equal to the original: {})",
                x.iter().zip(&b).position(|(a, b)| a != b), b.len(), x.len(), r.len(), r == p));
        }
    }
    let mut ad2 = ad.clone();
    match c.r.below(4) {
        0 => ad2.push(0),
        1 => {
            ad2.pop();
        }
        2 => ad2.clear(),
        _ => ad2.insert(0, 7),
    }
    if ad2 != ad {
        ensure!(read(&mut b.as_slice(), &k, &ad2).is_err(), "other associated data accepted: {:?} instead of {:?}", ad2, ad);
    }
    Ok(())
}

pub fn reject_key(c: &mut Ctx) -> R {
    let n = c.r.below(60);
    let (p, k) = (c.r.bytes(n), key(c));
    let mut b = vec![];
    write(&p, &mut b, &k, &[]).map_err(|e| format!("write failed: {}", e))?;
    for _ in 0..4 {
        let mut k2 = k;
        match c.r.below(3) {
            0 => k2 = key(c),
            1 => k2[c.r.below(32)] ^= 1 << c.r.below(8),
            _ => k2[31] ^= 1 << c.r.below(7),
        }
        let same = clamp(k) == clamp(k2);
        c.note(format!("key variant same={}", same));
        match read(&mut b.as_slice(), &k2, &[]) {
            Ok(r) => ensure!(same && r == p, "another key reads the snapshot"),
            Err(e) => ensure!(!same, "equivalent key refused: {}", e),
        }
    }
    Ok(())
}

pub fn reject_file(c: &mut Ctx) -> R {
    let d = c.fresh_dir();
    let res = reject_file_in(c, &d);
    let _ = std::fs::remove_dir_all(&d);
    res
}
fn reject_file_in(c: &mut Ctx, d: &std::path::Path) -> R {
    let path = d.join("s");
    let n = c.r.below(c.size * 8);
    let (p, k) = (c.r.bytes(n), key(c));
    let ad = c.r.data(20);
    write_to(&p, &path, &k, &ad).map_err(|e| format!("write_to failed: {}", e))?;
    let b = std::fs::read(&path).unwrap();
    for i in 0..6 {
        let x = match i {
            0 => {
                let n = c.r.below(60);
                b[..n.min(b.len() - 1)].to_vec()
            }
            1 => {
                let n = c.r.below(120);
                c.r.bytes(n)
            }
            2 => {
                // header right, body arbitrary
                let mut v = b[..7].to_vec();
                let n = c.r.below(100);
                let e = c.r.bytes(n);
                v.extend(e);
                v
            }
            3 => {
                let mut v = b.clone();
                let i = c.r.below(7);
                v[i] = v[i].wrapping_add(1 + c.r.below(255) as u8);
                v
            }
            _ => damage(c, &b),
        };
        c.note(format!("file variant {} len {} -> {}", i, b.len(), x.len()));
        if x == b {
            continue;
        }
        std::fs::write(&path, &x).unwrap();
        if let Ok(r) = read_from(&path, &k, &ad) {
            return Err(format!("altered file (first difference at {:?}, {} -> {} bytes) read as {} bytes", x.iter().zip(&b).position(|(a, b)| a != b), b.len(), x.len(), r.len()));
        }
        ensure!(std::fs::read(&path).unwrap() == x, "a refused read changed the file");
    }
    // missing file
    ensure!(read_from(&d.join("nope"), &k, &ad).is_err(), "missing file read");
    std::fs::write(&path, &b).unwrap();
    ensure!(read_from(&path, &k, &ad).map_err(|e| e.to_string())? == p, "restored file unreadable");
    let k2 = key(c);
    ensure!(read_from(&path, &k2, &ad).is_err(), "other key accepted");
    let mut ad2 = ad.clone();
    ad2.push(1);
    ensure!(read_from(&path, &k, &ad2).is_err(), "other associated data accepted");
    Ok(())
}

/// a write over an existing snapshot that stops at any point: the process, or the whole machine
pub fn crash(c: &mut Ctx) -> R {
    let d = c.fresh_dir();
    let res = crash_in(c, &d);
    let _ = std::fs::remove_dir_all(&d);
    res
}
fn crash_in(c: &mut Ctx, d: &std::path::Path) -> R {
    let path = d.join(*c.r.pick(&["s", "a.stronghold", "snap shot"]));
    let (mut p, mut k, mut ad) = (payload(c), key(c), c.r.data(20));
    let mut first = c.r.one_in(8);
    if !first {
        write_to(&p, &path, &k, &ad).map_err(|e| format!("write_to failed: {}", e))?;
    }
    for _ in 0..c.r.range(1, 4) {
        let (p2, k2, ad2) = (payload(c), key(c), c.r.data(20));
        let (at, machine) = (c.r.below(14) as i64, c.r.one_in(2));
        let cut = crate::crash::child(at, machine, || {
            let _ = write_to(&p2, &path, &k2, &ad2);
        });
        c.note(format!("write of {} bytes over {} bytes, {} stops at file operation {}{}", p2.len(), p.len(), if machine { "machine" } else { "process" }, at, if cut { "" } else { " (finished before)" }));
        let there = path.exists();
        if there && read_from(&path, &k2, &ad2).map_or(false, |r| r == p2) {
            (p, k, ad) = (p2, k2, ad2);
            first = false;
            continue;
        }
        ensure!(cut, "a write that was not stopped left something else");
        if first && !there {
            continue;
        }
        ensure!(there, "no snapshot is left");
        ensure!(!first, "a part of a snapshot is left");
        let r = read_from(&path, &k, &ad).map_err(|e| format!("neither the old nor the new snapshot is left: {}", e))?;
        ensure!(r == p, "the old snapshot reads as other data");
    }
    Ok(())
}
