use crate::{ensure, Ctx, R};
use engine::snapshot::{compress, decompress};

fn hx(v: &[u8]) -> String {
    v.iter().map(|b| format!("{:02x}", b)).collect()
}

fn check_rt(d: &[u8]) -> R {
    let c = compress(d);
    match decompress(&c) {
        Ok(o) => ensure!(o == d, "decompress(compress(d)) differs from d: len {} vs {}; first difference at {:?}; d(hex,first 600)={}",
            o.len(), d.len(), o.iter().zip(d).position(|(a, b)| a != b), hx(&d[..d.len().min(600)])),
        Err(e) => return Err(format!("decompress(compress(d)) failed: {}; d.len={} d(hex, first 600)={}", e, d.len(), hx(&d[..d.len().min(600)]))),
    }
    Ok(())
}

pub fn roundtrip(c: &mut Ctx) -> R {
    let max = match c.r.below(12) {
        0 => 6000,
        1 => 700,
        _ => 8 + c.size * 6,
    };
    let mut d = c.r.data(max);
    // literal/match run lengths around the 15 and 255 steps
    if c.r.one_in(3) {
        let a = [0usize, 1, 13, 14, 15, 16, 17, 254, 255, 256, 269, 270, 271, 272, 524, 525, 526][c.r.below(17)];
        let b = [4usize, 5, 17, 18, 19, 20, 21, 272, 273, 274, 275, 276, 527, 528, 529, 530][c.r.below(16)];
        let t = [0usize, 1, 4, 5, 11, 12, 13, 15][c.r.below(8)];
        let s = c.r.bytes(a);
        d.extend(&s);
        let pat = c.r.bytes(4);
        d.extend(&pat);
        d.extend((0..b).map(|i| pat[i % 4]));
        let e = c.r.bytes(t);
        d.extend(&e);
    }
    c.note(format!("len {} sum {}", d.len(), d.iter().map(|x| *x as u64).sum::<u64>()));
    check_rt(&d)
}

/// repeats whose distance is around and beyond the 16-bit offset limit
pub fn far(c: &mut Ctx) -> R {
    let dist = match c.r.below(4) {
        0 => 65535 + c.r.below(5) - 2,
        1 => 65536 + c.r.below(100000),
        2 => c.r.range(65000, 66000),
        _ => c.r.range(131000, 132000),
    };
    let patlen = c.r.range(4, 40);
    let pat = c.r.bytes(patlen);
    let mut d = pat.clone();
    // filler without internal repeats of the pattern; sometimes constant
    if c.r.bool() {
        let f = c.r.bytes(dist.saturating_sub(pat.len()));
        d.extend(&f);
    } else {
        let b = c.r.byte();
        d.extend(std::iter::repeat(b).take(dist.saturating_sub(pat.len())));
    }
    let reps = c.r.range(1, 3);
    for _ in 0..reps {
        d.extend(&pat);
        let n = c.r.below(30);
        let f = c.r.bytes(n);
        d.extend(&f);
    }
    c.note(format!("pattern {} at distance {} total {}", patlen, dist, d.len()));
    check_rt(&d)
}

/// Reference decoder for the LZ4 block format as documented; None = malformed.
/// A zero offset is malformed as well (the reference makes no claim on what the real decoder says there
/// beyond "error or bytes", so it is reported as `Unclaimed`).
#[derive(Debug, PartialEq)]
enum Ref {
    Ok(Vec<u8>),
    Err(&'static str),
}
fn reference_decode(s: &[u8], cap: usize) -> Option<Ref> {
    let mut out = vec![];
    let mut p = 0;
    macro_rules! next { ($w:expr) => { if p < s.len() { p += 1; s[p - 1] as usize } else { return Some(Ref::Err($w)); } }; }
    if s.is_empty() {
        return Some(Ref::Ok(out));
    }
    loop {
        if p >= s.len() {
            return Some(Ref::Err("missing token"));
        }
        let t = next!("token");
        let mut l = t >> 4;
        if l == 15 {
            loop {
                let b = next!("literal length");
                l += b;
                if b != 255 {
                    break;
                }
            }
        }
        if p + l > s.len() {
            return Some(Ref::Err("literals cut"));
        }
        out.extend_from_slice(&s[p..p + l]);
        p += l;
        if p == s.len() {
            return Some(Ref::Ok(out));
        }
        let o = next!("offset");
        let o = o | next!("offset") << 8;
        if o == 0 || o > out.len() {
            return Some(Ref::Err("offset before start"));
        }
        let mut m = t & 15;
        if m == 15 {
            loop {
                let b = next!("match length");
                m += b;
                if b != 255 {
                    break;
                }
            }
        }
        m += 4;
        if out.len() + m > cap {
            return None;
        }
        for _ in 0..m {
            let b = out[out.len() - o];
            out.push(b);
        }
        if p == s.len() {
            return Some(Ref::Ok(out));
        }
    }
}

fn check_dec(s: &[u8]) -> R {
    let r = decompress(s); // a panic is caught by the driver
    if let Some(e) = reference_decode(s, 1 << 22) {
        match (&r, &e) {
            (Ok(_), Ref::Err("offset before start")) => {
                return Err(format!("back-reference before the start accepted: {}", hx(&s[..s.len().min(400)])))
            }
            (Ok(o), Ref::Err(w)) => return Err(format!("input that ends early ({}) accepted with {} bytes: {}", w, o.len(), hx(&s[..s.len().min(400)]))),
            (Ok(o), Ref::Ok(x)) => ensure!(o == x, "decoded {} bytes, the format says {}: {}", o.len(), x.len(), hx(&s[..s.len().min(400)])),
            _ => {}
        }
    }
    Ok(())
}

pub fn arbitrary(c: &mut Ctx) -> R {
    let n = c.r.len(8 + c.size * 4);
    let mut s = c.r.bytes(n);
    // bias tokens and lengths towards the interesting values
    for b in s.iter_mut() {
        match c.r.below(8) {
            0 => *b = 0xff,
            1 => *b = 0,
            2 => *b = 0xf0,
            3 => *b = [0x0f, 0x10, 0x1f, 0x11, 0x20][c.r.below(5)],
            4 => *b &= 7,
            _ => {}
        }
    }
    c.note(format!("arbitrary {}", hx(&s[..s.len().min(40)])));
    check_dec(&s)
}

pub fn mutated(c: &mut Ctx) -> R {
    let d = c.r.data(8 + c.size * 6);
    let mut s = compress(&d);
    let k = c.r.range(1, 3);
    for _ in 0..k {
        if s.is_empty() {
            break;
        }
        let i = c.r.below(s.len());
        match c.r.below(5) {
            0 => s.truncate(i),
            1 => s[i] ^= 1 << c.r.below(8),
            2 => s[i] = c.r.byte(),
            3 => s.insert(i, c.r.byte()),
            _ => {
                s.remove(i);
            }
        }
    }
    c.note(format!("mutated {}", hx(&s[..s.len().min(40)])));
    check_dec(&s)
}

/// well-formed sequences built from the format description: must decode to what the format says
pub fn reference(c: &mut Ctx) -> R {
    let mut s = vec![];
    let mut n = 0usize;
    let blocks = c.r.range(1, 1 + c.size / 6);
    fn ext(s: &mut Vec<u8>, mut v: usize) {
        while v >= 255 {
            s.push(255);
            v -= 255;
        }
        s.push(v as u8);
    }
    for b in 0..blocks {
        let last = b + 1 == blocks;
        let l = [0usize, 1, 3, 14, 15, 16, 30, 269, 270, 271, 525][c.r.below(11)];
        let l = if n + l == 0 { 1 } else { l };
        let m = [0usize, 1, 14, 15, 16, 17, 200, 269, 270, 271, 525][c.r.below(11)];
        s.push(((l.min(15) << 4) | if last { 0 } else { m.min(15) }) as u8);
        if l >= 15 {
            ext(&mut s, l - 15);
        }
        let lit = c.r.bytes(l);
        s.extend(&lit);
        n += l;
        if last {
            break;
        }
        let o = match c.r.below(4) {
            0 => 1,
            1 => n,
            _ => c.r.range(1, n),
        }
        .min(65535);
        s.extend((o as u16).to_le_bytes());
        if m >= 15 {
            ext(&mut s, m - 15);
        }
        n += m + 4;
    }
    c.note(format!("well-formed {} blocks {} out", blocks, n));
    match decompress(&s) {
        Ok(o) => {
            ensure!(Some(Ref::Ok(o)) == reference_decode(&s, 1 << 24), "well-formed stream decoded to something else: {}", hx(&s[..s.len().min(400)]));
            Ok(())
        }
        Err(e) => Err(format!("well-formed stream refused ({}): {}", e, hx(&s[..s.len().min(400)]))),
    }
}
