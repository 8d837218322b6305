use crate::{ensure, Ctx, R};
use std::cell::RefCell;
use stronghold_stm::stm::{
    error::TxError,
    shared_value::SharedValue,
    stm::Stm,
    transaction::Transaction,
    tvar::TVar,
};

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Load(usize),
    Store(usize, SharedValue),
    /// store what a load of the other variable gave
    Copy(usize, usize),
    /// fail in this attempt
    Fail(usize),
    /// another transaction commits here, in this attempt
    Interfere(usize, Vec<(usize, SharedValue)>),
}
fn value(c: &mut Ctx) -> SharedValue {
    match c.r.below(4) {
        0 => SharedValue::SharedString(format!("s{}", c.r.below(1000))),
        1 => {
            let n = c.r.below(4);
            SharedValue::SharedVectorOfUsize((0..n).map(|_| c.r.below(100)).collect())
        }
        _ => SharedValue::SharedUsize(c.r.below(1000)),
    }
}
fn get(v: &TVar) -> Result<SharedValue, String> {
    // the typed accessors only
    if let Ok(x) = v.try_get_data::<usize>() {
        return Ok(SharedValue::SharedUsize(x));
    }
    if let Ok(x) = v.try_get_data::<String>() {
        return Ok(SharedValue::SharedString(x));
    }
    v.try_get_data::<Vec<usize>>().map(SharedValue::SharedVectorOfUsize).map_err(|e| format!("variable cannot be read: {}", e))
}
/// Loads at the type that the value should have and, to see the refusal, at another one.
fn load(t: &mut Transaction, v: &TVar, want: &SharedValue) -> Result<SharedValue, TxError> {
    match want {
        SharedValue::SharedUsize(_) => t.load::<usize>(v).map(SharedValue::SharedUsize),
        SharedValue::SharedString(_) => t.load::<String>(v).map(SharedValue::SharedString),
        _ => t.load::<Vec<usize>>(v).map(SharedValue::SharedVectorOfUsize),
    }
}
fn check(vs: &[TVar], m: &[SharedValue], when: &str) -> R {
    for (i, (v, e)) in vs.iter().zip(m).enumerate() {
        let g = get(v).map_err(|e| format!("{}: {}", when, e))?;
        ensure!(g == *e, "{}: variable {} is {:?}, expected {:?}", when, i, g, e);
    }
    Ok(())
}

pub fn transactions(c: &mut Ctx) -> R {
    let stm = Stm::default();
    let n = c.r.range(1, 4);
    let mut m: Vec<SharedValue> = (0..n).map(|_| value(c)).collect();
    let vs: Vec<TVar> = m.iter().map(|v| stm.create(v.clone())).collect();
    check(&vs, &m, "after create")?;
    for round in 0..c.size {
        let ro = c.r.one_in(4);
        let k = c.r.below(8);
        let mut ops: Vec<Op> = vec![];
        for _ in 0..k {
            let i = c.r.below(n);
            ops.push(match c.r.below(6) {
                0 | 1 => Op::Load(i),
                2 | 3 if !ro => Op::Store(i, value(c)),
                4 if !ro => Op::Copy(i, c.r.below(n)),
                _ => Op::Load(i),
            });
        }
        let fails = if c.r.one_in(3) { c.r.range(1, 2) } else { 0 };
        for a in 0..fails {
            let at = c.r.below(ops.len() + 1);
            ops.insert(at, Op::Fail(a));
        }
        if c.r.one_in(3) {
            let nw = c.r.range(0, 2);
            let w: Vec<(usize, SharedValue)> = (0..nw).map(|_| (c.r.below(n), value(c))).collect();
            let at = c.r.below(ops.len() + 1);
            ops.insert(at, Op::Interfere(c.r.below(fails + 1), w));
        }
        c.note(format!("round {} {} {:?}", round, if ro { "read_only" } else { "read_write" }, ops));
        // (attempts, committed state that the interfering transaction leaves, complaint)
        let attempts = RefCell::new(0usize);
        let base = RefCell::new(m.clone());
        let bad: RefCell<Option<String>> = RefCell::new(None);
        let last: RefCell<Vec<SharedValue>> = RefCell::new(vec![]);
        let body = |t: &mut Transaction| -> Result<usize, TxError> {
            let a = *attempts.borrow();
            *attempts.borrow_mut() += 1;
            let complain = |s: String| {
                let mut b = bad.borrow_mut();
                if b.is_none() {
                    *b = Some(s);
                }
            };
            if a > 50 {
                // give up on a transaction that never succeeds; `bad` reports it
                complain("the transaction does not succeed although nothing interferes".into());
                return Ok(0);
            }
            // the state this attempt has to see: the committed one at its start, with its own writes
            let start = base.borrow().clone();
            let mut see = start.clone();
            let mut own = vec![false; n];
            let mut changed = vec![false; n];
            let mut doomed = false;
            let mut loads = 0;
            for op in &ops {
                match op {
                    Op::Load(i) | Op::Copy(_, i) => {
                        let r = load(t, &vs[*i], &see[*i]);
                        match r {
                            Ok(g) => {
                                if g != see[*i] {
                                    complain(format!("attempt {}: load of variable {} gave {:?}, expected {:?}", a, i, g, see[*i]));
                                }
                                loads += 1;
                                if let Op::Copy(d, _) = op {
                                    t.store(&vs[*d], g.clone())?;
                                    see[*d] = g;
                                    own[*d] = true;
                                }
                            }
                            Err(e) => {
                                // only when the variable was changed after this attempt began
                                if own[*i] || !changed[*i] {
                                    complain(format!("attempt {}: load of variable {} failed: {}", a, i, e));
                                }
                                return Err(e);
                            }
                        }
                    }
                    Op::Store(i, v) => {
                        t.store(&vs[*i], v.clone())?;
                        see[*i] = v.clone();
                        own[*i] = true;
                    }
                    Op::Fail(x) => {
                        if *x == a {
                            return Err(TxError::Failed);
                        }
                    }
                    Op::Interfere(x, w) => {
                        if *x == a {
                            let r = stm.read_write(|u| {
                                for (i, v) in w {
                                    u.store(&vs[*i], v.clone())?;
                                }
                                Ok(())
                            });
                            if r.is_err() {
                                complain("the interfering transaction failed".into());
                            }
                            for (i, v) in w {
                                base.borrow_mut()[*i] = v.clone();
                                changed[*i] = true;
                                doomed = true;
                            }
                        }
                    }
                }
                // nothing is visible outside before the end
                if let Err(e) = check(&vs, &base.borrow(), &format!("inside attempt {}", a)) {
                    complain(e);
                }
            }
            let _ = doomed;
            *last.borrow_mut() = see;
            Ok(loads)
        };
        let res = if ro { stm.read_only(&body) } else { stm.read_write(&body) };
        if let Some(b) = bad.into_inner() {
            return Err(b);
        }
        let res = res.map_err(|e| format!("the transaction failed: {}", e))?;
        let loads = ops.iter().filter(|o| matches!(o, Op::Load(_) | Op::Copy(..))).count();
        ensure!(res.res == loads, "the transaction returned {}, expected {}", res.res, loads);
        ensure!(*attempts.borrow() >= 1, "the body was not run");
        // the writes of the last attempt on top of what the others committed
        let mut e = base.into_inner();
        if !ro {
            for op in &ops {
                match op {
                    Op::Store(i, v) => e[*i] = v.clone(),
                    Op::Copy(d, s) => e[*d] = e[*s].clone(),
                    _ => {}
                }
            }
        }
        m = e;
        check(&vs, &m, "after the transaction")?;
        // a load at another type is refused, and leaves the rest alone
        let i = c.r.below(n);
        let mut t = Transaction::new(stm.get_clock(), 0);
        let refused = match &m[i] {
            SharedValue::SharedUsize(_) => t.load::<String>(&vs[i]).is_err() && vs[i].try_get_data::<Vec<usize>>().is_err(),
            _ => t.load::<usize>(&vs[i]).is_err() && vs[i].try_get_data::<Vec<String>>().is_err(),
        };
        ensure!(refused, "variable {} was loaded at a wrong type", i);
    }
    // taking a variable: only the last handle can, and it gives the value
    for (v, e) in vs.into_iter().zip(&m) {
        let two = v.clone();
        let v = match (v.take::<usize>(), e) {
            (Err(v), _) => v,
            (Ok(_), _) => return Err("a shared variable was taken".into()),
        };
        drop(two);
        match (v.take::<usize>(), e) {
            (Ok(x), SharedValue::SharedUsize(y)) => ensure!(x == *y, "took {}, expected {}", x, y),
            (Err(v), SharedValue::SharedUsize(_)) => return Err(format!("cannot take {:?}", get(&v))),
            (Ok(_), _) => return Err("took a variable of another type".into()),
            (Err(v), e) => ensure!(get(&v)? == *e, "a refused take changed the variable"),
        }
    }
    Ok(())
}
