use crate::{ensure, Ctx, R};
use runtime::{
    locked_memory::LockedMemory,
    memories::{
        buffer::{Buffer, Ref},
        file_memory::FileMemory,
        frag::FragStrategy,
        noncontiguous_memory::{NCConfig, NonContiguousMemory},
        ram_memory::RamMemory,
    },
    MemoryError,
};
use std::panic::{catch_unwind, AssertUnwindSafe};
use zeroize::Zeroize;

fn e(x: MemoryError) -> String {
    format!("unexpected error {:?}", x)
}
fn same(b: &Buffer<u8>, d: &[u8], what: &str) -> R {
    let g = b.borrow();
    ensure!(&*g == d, "{}: holds {:?}, given {:?}", what, &g[..g.len().min(48)], &d[..d.len().min(48)]);
    drop(g);
    ensure!(b.len() == d.len(), "{}: len() = {}, given {}", what, b.len(), d.len());
    Ok(())
}

pub fn buffers(c: &mut Ctx) -> R {
    let max = c.size * 300;
    let mut d = c.r.data(max);
    c.note(format!("alloc {} bytes {:?}", d.len(), &d[..d.len().min(8)]));
    let mut b = match c.r.below(2) {
        0 => Buffer::alloc(&d, d.len()),
        _ => {
            let mut x = d.clone();
            let b = Buffer::from(&mut x[..]);
            ensure!(x.iter().all(|x| *x == 0), "the source of a moved buffer was not cleared: {:?}", &x[..x.len().min(16)]);
            b
        }
    };
    for _ in 0..c.r.range(1, 10) {
        match c.r.below(7) {
            0 => {
                c.note("clone, wipe the original");
                let k = b.clone();
                ensure!(k == b, "a clone is not equal to its original");
                b.zeroize();
                let g = b.borrow();
                ensure!(g.iter().all(|x| *x == 0), "wiped buffer still gives {:?}", &g[..g.len().min(16)]);
                drop(g);
                b = k;
            }
            1 => {
                c.note("clone, drop the original");
                let k = b.clone();
                b = k;
            }
            2 if !d.is_empty() => {
                let i = c.r.below(d.len());
                let v = c.r.byte();
                c.note(format!("write [{}]={}", i, v));
                d[i] = v;
                b.borrow_mut()[i] = v;
            }
            3 => {
                c.note("serde");
                b = super::through(c, &b)?;
            }
            4 => {
                let mut o = d.clone();
                let eq = if o.is_empty() || c.r.bool() {
                    true
                } else {
                    let i = c.r.below(o.len());
                    o[i] ^= 1 << c.r.below(8);
                    false
                };
                ensure!((Buffer::alloc(&o, o.len()) == b) == eq, "comparison of {:?} with {:?} says equal={}", d, o, !eq);
                if !d.is_empty() {
                    ensure!(Buffer::alloc(&d[1..], d.len() - 1) != b, "equal to a shorter buffer");
                }
            }
            5 => {
                c.note("clone is independent");
                let mut k = b.clone();
                if !d.is_empty() {
                    let i = c.r.below(d.len());
                    k.borrow_mut()[i] ^= 0xff;
                }
            }
            _ => {}
        }
        same(&b, &d, "buffer")?;
        let (g, h) = (b.borrow(), b.borrow());
        ensure!(&*g == &d[..] && &*h == &d[..] && &*g.clone() == &d[..], "overlapping reads differ");
    }
    Ok(())
}

fn locked_one<M>(c: &mut Ctx, alloc: fn(&[u8], usize) -> Result<M, MemoryError>, max: usize, what: &str) -> R
where
    M: LockedMemory + serde::Serialize + serde::de::DeserializeOwned,
{
    ensure!(alloc(&[], 0).is_err(), "{}: a zero-sized request was accepted", what);
    let mut d = c.r.data(max);
    if d.is_empty() {
        d.push(c.r.byte());
    }
    c.note(format!("{} alloc {} bytes", what, d.len()));
    let mut m = alloc(&d, d.len()).map_err(e)?;
    let mut kept: Vec<(M, Vec<u8>)> = vec![];
    for _ in 0..c.r.range(1, 6) {
        match c.r.below(7) {
            0 => {
                c.note("clone, wipe the original");
                let k = m.clone();
                m.zeroize();
                if let Ok(b) = m.unlock() {
                    let g = b.borrow();
                    ensure!(g.is_empty(), "{}: wiped memory unlocks to {:?}", what, &g[..g.len().min(32)]);
                }
                m = k;
            }
            1 => {
                c.note("clone, drop the original");
                m = m.clone();
            }
            2 => {
                c.note("keep a clone");
                kept.push((m.clone(), d.clone()));
            }
            3 => {
                c.note("serde");
                m = super::through(c, &m)?;
            }
            4 | 5 => {
                let mut n = c.r.data(max);
                if n.is_empty() {
                    n.push(7);
                }
                c.note(format!("update {} bytes", n.len()));
                m = m.update(Buffer::alloc(&n, n.len()), n.len()).map_err(e)?;
                d = n;
            }
            _ => {
                let k = m.clone();
                ensure!(k.update(Buffer::alloc(&[], 0), 0).is_err(), "{}: a zero-sized update was accepted", what);
            }
        }
        for _ in 0..c.r.range(1, 3) {
            same(&m.unlock().map_err(e)?, &d, what)?;
        }
        for (k, x) in &kept {
            same(&k.unlock().map_err(e)?, x, "earlier clone")?;
        }
    }
    m.zeroize();
    if let Ok(b) = m.unlock() {
        let g = b.borrow();
        ensure!(g.is_empty(), "{}: wiped memory unlocks to {:?}", what, &g[..g.len().min(32)]);
    }
    for (k, x) in &kept {
        same(&k.unlock().map_err(e)?, x, "clone after the original was wiped")?;
    }
    Ok(())
}

pub fn locked(c: &mut Ctx) -> R {
    let max = c.size * 100;
    if c.r.bool() {
        locked_one::<RamMemory>(c, RamMemory::alloc, max, "ram memory")
    } else {
        locked_one::<FileMemory>(c, FileMemory::alloc, max, "file memory")
    }
}

pub fn split(c: &mut Ctx) -> R {
    let cfg = match c.r.below(8) {
        0 | 1 => NCConfig::FullRam,
        2 => NCConfig::FullFile,
        3 => NCConfig::RamAndFile,
        4 | 5 => NCConfig::FragAllocation(FragStrategy::Map),
        6 => NCConfig::FragAllocation(FragStrategy::Direct),
        _ => NCConfig::FragAllocation(FragStrategy::Hybrid),
    };
    c.note(format!("{:?}", cfg));
    let n = *c.r.pick(&[0usize, 1, 16, 31, 33, 64, 1000]);
    let x = c.r.bytes(n);
    ensure!(NonContiguousMemory::alloc(&x, n, cfg.clone()).is_err(), "size {} was accepted", n);
    let mut d: [u8; 32] = c.r.arr();
    if c.r.one_in(3) {
        d = [0; 32];
    }
    let mut m = NonContiguousMemory::alloc(&d, 32, cfg.clone()).map_err(e)?;
    let mut kept: Vec<(NonContiguousMemory, [u8; 32])> = vec![];
    for _ in 0..c.r.range(1, 6) {
        match c.r.below(9) {
            0 => {
                c.note("clone, wipe the original");
                let k = m.clone();
                m.zeroize();
                if let Ok(b) = m.unlock() {
                    let g = b.borrow();
                    ensure!(g.is_empty(), "wiped memory unlocks to {:?}", &*g);
                }
                m = k;
            }
            1 => {
                c.note("clone, drop the original");
                m = m.clone();
            }
            2 => {
                c.note("keep a clone");
                kept.push((m.clone(), d));
            }
            3 => {
                c.note("serde");
                m = super::through(c, &m)?;
            }
            4 => {
                let n: [u8; 32] = c.r.arr();
                c.note("update");
                m = m.update(Buffer::alloc(&n, 32), 32).map_err(e)?;
                d = n;
            }
            5 => {
                let n = *c.r.pick(&[0usize, 31, 33]);
                let k = m.clone();
                ensure!(k.update(Buffer::alloc(&vec![1; n], n), n).is_err(), "update to size {} was accepted", n);
            }
            6 => {
                c.note("refresh the clone");
                let k = m.clone();
                k.refresh().map_err(e)?;
                kept.push((k, d));
            }
            _ => {
                c.note("refresh");
                m.refresh().map_err(e)?;
            }
        }
        for _ in 0..c.r.range(1, 3) {
            same(&m.unlock().map_err(e)?, &d, "split memory")?;
        }
        for (k, x) in &kept {
            same(&k.unlock().map_err(e)?, x, "earlier clone")?;
        }
    }
    m.zeroize();
    if let Ok(b) = m.unlock() {
        let g = b.borrow();
        ensure!(g.is_empty(), "wiped memory unlocks to {:?}", &*g);
    }
    for (k, x) in &kept {
        same(&k.unlock().map_err(e)?, x, "clone after the original was wiped")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- access protocol

struct Probe {
    fd: [libc::c_int; 2],
}
impl Probe {
    fn new() -> Probe {
        let mut fd = [0; 2];
        assert_eq!(unsafe { libc::pipe(fd.as_mut_ptr()) }, 0);
        Probe { fd }
    }
    /// the kernel can read a byte at p (write(2) gives EFAULT otherwise)
    fn readable(&self, p: *const u8) -> bool {
        let n = unsafe { libc::write(self.fd[1], p as *const _, 1) };
        if n == 1 {
            let mut b = 0u8;
            unsafe { libc::read(self.fd[0], &mut b as *mut u8 as *mut _, 1) };
            true
        } else {
            false
        }
    }
    /// the kernel can write a byte at p; the byte is only written when `v` is its present value
    fn writable(&self, p: *mut u8, v: u8) -> bool {
        unsafe {
            assert_eq!(libc::write(self.fd[1], &v as *const u8 as *const _, 1), 1);
            let n = libc::read(self.fd[0], p as *mut _, 1);
            if n != 1 {
                let mut b = 0u8;
                libc::fcntl(self.fd[0], libc::F_SETFL, libc::O_NONBLOCK);
                libc::read(self.fd[0], &mut b as *mut u8 as *mut _, 1);
                libc::fcntl(self.fd[0], libc::F_SETFL, 0);
            }
            n == 1
        }
    }
}
impl Drop for Probe {
    fn drop(&mut self) {
        unsafe {
            libc::close(self.fd[0]);
            libc::close(self.fd[1]);
        }
    }
}

pub fn borrow_protocol(c: &mut Ctx) -> R {
    let n = c.r.range(1, 40 * c.size);
    let mut d = c.r.bytes(n);
    let mut b = Buffer::alloc(&d, n);
    let pr = Probe::new();
    let (p0, pn) = {
        let g = b.borrow();
        (g.as_ptr() as *mut u8, unsafe { g.as_ptr().add(n - 1) } as *mut u8)
    };
    macro_rules! state {
        ($r:expr, $w:expr, $what:expr) => {
            for (p, v) in [(p0, d[0]), (pn, d[n - 1])] {
                let (r, w) = (pr.readable(p), pr.writable(p, v));
                ensure!(r == $r, "{}: memory readable = {}", $what, r);
                ensure!(w == $w, "{}: memory writable = {}", $what, w);
            }
        };
    }
    state!(false, false, "freshly created");
    for _ in 0..c.r.range(1, 8) {
        match c.r.below(11) {
            0 | 1 => {
                // a random nesting of reads
                let mut live: Vec<Ref<'_, u8>> = vec![];
                for _ in 0..c.r.range(1, 30) {
                    if live.is_empty() || c.r.below(5) < 3 {
                        let g = if live.is_empty() || c.r.bool() {
                            b.borrow()
                        } else {
                            let i = c.r.below(live.len());
                            live[i].clone()
                        };
                        ensure!(&*g == &d[..], "borrow shows {:?}", &g[..n.min(16)]);
                        live.push(g);
                    } else {
                        let i = c.r.below(live.len());
                        live.swap_remove(i);
                    }
                    state!(!live.is_empty(), false, format!("{} live reads", live.len()));
                    if let Some(g) = live.last() {
                        ensure!(&**g == &d[..], "live borrow shows {:?}", &g[..n.min(16)]);
                    }
                }
                c.note("reads");
                drop(live);
                state!(false, false, "after the last read");
            }
            2 | 3 => {
                c.note("write");
                let i = c.r.below(n);
                let v = c.r.byte();
                {
                    let mut g = b.borrow_mut();
                    ensure!(&*g == &d[..], "write borrow shows {:?}", &g[..n.min(16)]);
                    g[i] = v;
                    d[i] = v;
                    state!(true, true, "live write");
                }
                state!(false, false, "after the write");
            }
            4 => {
                c.note("clone while read");
                let g = b.borrow();
                let k = b.clone();
                state!(true, false, "read while cloned");
                ensure!(k == b, "clone differs");
                state!(true, false, "read while compared");
                drop(g);
                state!(false, false, "read dropped after clone");
                let kp = {
                    let g = k.borrow();
                    ensure!(&*g == &d[..], "clone holds {:?}", &g[..n.min(16)]);
                    g.as_ptr()
                };
                ensure!(kp != p0 as *const u8, "a clone shares its memory");
                ensure!(!pr.readable(kp), "a clone is readable with no borrow");
            }
            5 => {
                c.note("clone, compare while locked");
                let k = b.clone();
                state!(false, false, "after a clone");
                ensure!(k == b, "clone differs");
                state!(false, false, "after a comparison");
                #[allow(clippy::eq_op)]
                let me = b == b;
                ensure!(me, "a buffer differs from itself");
                state!(false, false, "after a comparison with itself");
                let o = Buffer::alloc(&vec![1; n + 1], n + 1);
                ensure!(o != b && b != o, "buffers of different length are equal");
                state!(false, false, "after a failed comparison");
            }
            6 => {
                c.note("serialize");
                let s = bincode::serialize(&b).map_err(|e| e.to_string())?;
                state!(false, false, "after serialization");
                let k: Buffer<u8> = bincode::deserialize(&s).map_err(|e| e.to_string())?;
                ensure!(k == b, "deserialized copy differs");
            }
            7 if c.r.one_in(3) => {
                // too many borrows: the one that does not fit is refused by a panic, none is lost
                c.note("too many");
                let mut live = vec![];
                let mut refused = false;
                for _ in 0..600 {
                    match catch_unwind(AssertUnwindSafe(|| b.borrow())) {
                        Ok(g) => live.push(g),
                        Err(_) => {
                            refused = true;
                            break;
                        }
                    }
                }
                state!(true, false, format!("{} live reads", live.len()));
                let m = live.len();
                if refused {
                    ensure!(catch_unwind(AssertUnwindSafe(|| b.borrow())).is_err(), "refused borrow {} is granted on retry", m);
                }
                while live.len() > 1 {
                    live.pop();
                    if c.r.one_in(40) {
                        state!(true, false, format!("{} live reads of {}", live.len(), m));
                    }
                }
                state!(true, false, "one live read left");
                ensure!(&*live[0] == &d[..], "remaining borrow shows other bytes");
                live.clear();
                state!(false, false, "after dropping every read");
            }
            8 => {
                // a borrow the compiler knows nothing of: the other kind of borrow has to be refused
                let mut x = b.clone();
                let px: *mut Buffer<u8> = &mut x;
                let w = c.r.bool();
                c.note(format!("hidden {}", if w { "write" } else { "read" }));
                let q = x.borrow().as_ptr() as *mut u8;
                if w {
                    let g = unsafe { &mut *px }.borrow_mut();
                    ensure!(catch_unwind(AssertUnwindSafe(|| std::mem::forget(unsafe { &*px }.borrow()))).is_err(), "read borrow granted during a write borrow");
                    ensure!(catch_unwind(AssertUnwindSafe(|| std::mem::forget(unsafe { &mut *px }.borrow_mut()))).is_err(), "second write borrow granted");
                    drop(g);
                } else {
                    let g = unsafe { &*px }.borrow();
                    ensure!(catch_unwind(AssertUnwindSafe(|| std::mem::forget(unsafe { &mut *px }.borrow_mut()))).is_err(), "write borrow granted during a read borrow");
                    ensure!(!pr.writable(q, d[0]), "memory writable during a read borrow");
                    ensure!(&*unsafe { &*px }.borrow() == &d[..], "borrow shows other bytes");
                    drop(g);
                }
                ensure!(!pr.readable(q), "memory still readable after a refused borrow");
            }
            _ => {
                // a body that unwinds while it holds borrows
                c.note("unwind");
                let w = c.r.bool();
                let mut x = b.clone();
                let q = x.borrow().as_ptr();
                let _ = catch_unwind(AssertUnwindSafe(|| {
                    if w {
                        let _g = x.borrow_mut();
                        panic!("body");
                    } else {
                        let _g = x.borrow();
                        let _h = x.borrow();
                        panic!("body");
                    }
                }));
                ensure!(!pr.readable(q), "memory still readable after the borrow was unwound");
                ensure!(&*x.borrow() == &d[..], "contents changed");
            }
        }
        state!(false, false, "between borrows");
    }
    Ok(())
}
