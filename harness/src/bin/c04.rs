//! C04: index containers against Vec<usize>.
use mc::*;
use rust_3d::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

const V: [usize; 9] = [0, 255, 256, 65535, 65536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX, 7];

#[derive(Clone, Debug)]
enum Op {
    Push(usize),
    Set(usize, usize),
    SetPast(usize, usize),
    Reserve(usize),
    Ensure(usize),
    Upgrade,
    Reimport(u8),
}
fn compare<IC: IsIndexContainer>(ic: &IC, m: &[usize]) -> R {
    ensure!(ic.len() == m.len(), "len {} expected {}", ic.len(), m.len());
    for i in 0..m.len() {
        ensure!(ic.get(i) == m[i], "element {} is {} expected {}", i, ic.get(i), m[i]);
    }
    let it: Vec<usize> = ic.iter().collect();
    ensure!(it == m, "iter {:?} expected {:?}", it, m);
    let mut i = ic.iter();
    while i.next().is_some() {}
    ensure!(i.next().is_none(), "iterator restarts");
    Ok(())
}
fn past_end<IC: IsIndexContainer>(ic: &mut IC, i: usize, v: usize) -> R {
    // a position past the end must be refused; whatever form the refusal takes, nothing may change
    let r = catch_unwind(AssertUnwindSafe(|| ic.get(i)));
    ensure!(r.is_err(), "get past the end returned {:?}", r.ok());
    let r = catch_unwind(AssertUnwindSafe(|| ic.set(i, v)));
    ensure!(r.is_err(), "set past the end accepted");
    Ok(())
}
fn apply<IC: IsIndexContainer>(ic: &mut IC, op: &Op) -> R {
    match op {
        Op::Push(v) => ic.push(*v),
        Op::Set(i, v) => ic.set(*i, *v),
        Op::SetPast(i, v) => past_end(ic, *i, *v)?,
        Op::Reserve(n) => ic.reserve(*n),
        Op::Ensure(v) => ic.ensure_supported(*v),
        _ => (),
    }
    Ok(())
}
fn apply_model(m: &mut Vec<usize>, op: &Op) {
    match op {
        Op::Push(v) => m.push(*v),
        Op::Set(i, v) => m[*i] = *v,
        _ => (),
    }
}
fn width(d: &mut DynamicPrecisionIndexVec) -> Res<usize> {
    let w = (d.get_u8().is_some(), d.get_u16().is_some(), d.get_u32().is_some(), d.get_usize().is_some());
    match w {
        (true, false, false, false) => Ok(8),
        (false, true, false, false) => Ok(16),
        (false, false, true, false) => Ok(32),
        (false, false, false, true) => Ok(64),
        _ => Err(format!("not exactly one storage width: {:?}", w)),
    }
}
fn check_dyn(d: &DynamicPrecisionIndexVec, m: &[usize]) -> Res<usize> {
    compare(d, m)?;
    let mut d = d.clone();
    let w = width(&mut d)?;
    let raw: Vec<usize> = match w {
        8 => d.get_u8().unwrap().iter().map(|x| *x as usize).collect(),
        16 => d.get_u16().unwrap().iter().map(|x| *x as usize).collect(),
        32 => d.get_u32().unwrap().iter().map(|x| *x as usize).collect(),
        _ => d.get_usize().unwrap().clone(),
    };
    ensure!(raw == m, "raw storage {:?} expected {:?}", raw, m);
    let mu = (d.get_u8_mut().is_some(), d.get_u16_mut().is_some(), d.get_u32_mut().is_some(), d.get_usize_mut().is_some());
    ensure!(mu == (w == 8, w == 16, w == 32, w == 64), "mutable views disagree with width {}: {:?}", w, mu);
    Ok(w)
}
fn main() {
    let mut gs = vec![];
    gs.push(g("growing", |c| {
        let depth = c.q(4, 5);
        bfs(
            c,
            vec![
                ("new:".into(), (DynamicPrecisionIndexVec::new(), Vec::<usize>::new())),
                ("with_support_for(300):".into(), (DynamicPrecisionIndexVec::with_support_for(300), vec![])),
                ("with_capacity_and_support_for(3,70000):".into(), (DynamicPrecisionIndexVec::with_capacity_and_support_for(3, 70000), vec![])),
                ("with_capacity(2):".into(), (DynamicPrecisionIndexVec::with_capacity(2), vec![])),
                ("from u16:".into(), (DynamicPrecisionIndexVec::from(vec![1u16, 256]), vec![1, 256])),
            ],
            depth,
            |(_, m)| {
                let mut v: Vec<Op> = V.iter().map(|x| Op::Push(*x)).collect();
                for i in 0..m.len() {
                    v.extend([0, 255, 256, 65536, usize::MAX].iter().map(|x| Op::Set(i, *x)));
                }
                v.push(Op::SetPast(m.len(), 3));
                v.push(Op::SetPast(m.len() + 1, 70000));
                v.push(Op::SetPast(usize::MAX, 1));
                v.push(Op::SetPast(1 << 32, 1));
                v.push(Op::Reserve(5));
                v.push(Op::Ensure(256));
                v.push(Op::Ensure(u32::MAX as usize + 1));
                v.push(Op::Upgrade);
                for k in 0..2 {
                    v.push(Op::Reimport(k));
                }
                v
            },
            |(d, m), op| {
                apply(d, op)?;
                apply_model(m, op);
                match op {
                    Op::Upgrade => {
                        ensure!(d.clone().get_usize_upgraded_mut() == m, "mutable upgraded view differs");
                        ensure!(d.get_usize_upgraded() == m, "upgraded view differs")
                    }
                    Op::Reimport(0) => *d = DynamicPrecisionIndexVec::from(&*m),
                    Op::Reimport(1) => *d = DynamicPrecisionIndexVec::from(m.clone()),
                    _ => (),
                }
                check_dyn(d, m)?;
                Ok(())
            },
            |(d, m)| (width(&mut d.clone()).unwrap_or(0), m.clone()),
        );
    }));
    gs.push(g("vec", |c| {
        let depth = c.q(4, 5);
        bfs(
            c,
            vec![("new:".into(), (Vec::<usize>::default(), Vec::<usize>::new()))],
            depth,
            |(_, m)| {
                let mut v: Vec<Op> = V.iter().map(|x| Op::Push(*x)).collect();
                for i in 0..m.len() {
                    v.extend([0, 256, usize::MAX].iter().map(|x| Op::Set(i, *x)));
                }
                v.push(Op::SetPast(m.len(), 3));
                v.push(Op::Reserve(5));
                v.push(Op::Ensure(256));
                v
            },
            |(d, m), op| {
                // explicit trait calls, Vec has inherent methods of the same names
                apply::<Vec<usize>>(d, op)?;
                apply_model(m, op);
                compare::<Vec<usize>>(d, m)
            },
            |(_, m)| m.clone(),
        );
    }));
    gs.push(g("u32", |c| {
        let depth = c.q(4, 5);
        bfs(
            c,
            vec![("new:".into(), (U32IndexVec::default(), Vec::<usize>::new())), ("cap:".into(), (U32IndexVec::with_capacity_and_support_for(4, 1000), vec![]))],
            depth,
            |(_, m)| {
                let mut v: Vec<Op> = V.iter().filter(|x| **x <= u32::MAX as usize).map(|x| Op::Push(*x)).collect();
                for i in 0..m.len() {
                    v.extend([0, 256, u32::MAX as usize].iter().map(|x| Op::Set(i, *x)));
                }
                v.push(Op::SetPast(m.len(), 3));
                v.push(Op::Reserve(5));
                v.push(Op::Ensure(256));
                v
            },
            |(d, m), op| {
                apply(d, op)?;
                apply_model(m, op);
                compare(d, m)
            },
            |(_, m)| m.clone(),
        );
    }));
    gs.push(g("conversions", |c| {
        for len in 0..=3usize {
            tuples(V.len(), len, |t| {
                let m: Vec<usize> = t.iter().map(|&i| V[i]).collect();
                c.state(&m);
                c.case(
                    || format!("from {:?}", m),
                    |c| {
                        c.trans(6);
                        check_dyn(&DynamicPrecisionIndexVec::from(&m), &m)?;
                        check_dyn(&DynamicPrecisionIndexVec::from(m.clone()), &m)?;
                        if m.as_slice().iter().all(|x| *x <= u32::MAX as usize) {
                            let v: Vec<u32> = m.as_slice().iter().map(|x| *x as u32).collect();
                            check_dyn(&DynamicPrecisionIndexVec::from(&v), &m)?;
                            check_dyn(&DynamicPrecisionIndexVec::from(v), &m)?;
                        }
                        if m.as_slice().iter().all(|x| *x <= u16::MAX as usize) {
                            let v: Vec<u16> = m.as_slice().iter().map(|x| *x as u16).collect();
                            check_dyn(&DynamicPrecisionIndexVec::from(&v), &m)?;
                            check_dyn(&DynamicPrecisionIndexVec::from(v), &m)?;
                        }
                        if m.as_slice().iter().all(|x| *x <= u8::MAX as usize) {
                            let v: Vec<u8> = m.as_slice().iter().map(|x| *x as u8).collect();
                            check_dyn(&DynamicPrecisionIndexVec::from(&v), &m)?;
                            check_dyn(&DynamicPrecisionIndexVec::from(v), &m)?;
                        }
                        Ok(())
                    },
                );
                !c.stopped()
            });
        }
    }));
    // long histories: one push per value over the whole 8/16 bit range and beyond, width changes at every position
    gs.push(g("long", |c| {
        for (start, n) in [(0usize, 70000usize), (u32::MAX as usize - 300, 600)] {
            c.case(
                || format!("push {}..{}", start, start + n),
                |c| {
                    let mut d = DynamicPrecisionIndexVec::new();
                    let mut m = vec![];
                    for x in start..start + n {
                        d.push(x);
                        m.push(x);
                        c.trans(1);
                        if x % 257 == 0 || (x & (x + 1)) == 0 || x & (x.wrapping_sub(1)) == 0 {
                            compare(&d, &m)?;
                        }
                    }
                    check_dyn(&d, &m).map(|_| ())
                },
            );
        }
    }));
    // conversions of vectors of every size class, the largest element at every interesting place
    gs.push(g("large conversions", |c| {
        for n in sizes(c.thorough()) {
            for high in [3usize, 255, 256, 65535, 65536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX] {
                for at in [0, n / 2, n - 1] {
                    c.case(
                        || format!("{} elements, {} at {}", n, high, at),
                        |c| {
                            let m: Vec<usize> = (0..n).map(|i| if i == at { high } else { (i * 7) % (high.min(1 << 20) + 1) }).collect();
                            c.state(&(n, high, at));
                            c.trans(8);
                            check_dyn(&DynamicPrecisionIndexVec::from(&m), &m)?;
                            check_dyn(&DynamicPrecisionIndexVec::from(m.clone()), &m)?;
                            if high <= u32::MAX as usize {
                                let v: Vec<u32> = m.as_slice().iter().map(|x| *x as u32).collect();
                                check_dyn(&DynamicPrecisionIndexVec::from(&v), &m)?;
                                check_dyn(&DynamicPrecisionIndexVec::from(v), &m)?;
                            }
                            if high <= u16::MAX as usize {
                                let v: Vec<u16> = m.as_slice().iter().map(|x| *x as u16).collect();
                                check_dyn(&DynamicPrecisionIndexVec::from(&v), &m)?;
                                check_dyn(&DynamicPrecisionIndexVec::from(v), &m)?;
                            }
                            if high <= u8::MAX as usize {
                                let v: Vec<u8> = m.as_slice().iter().map(|x| *x as u8).collect();
                                check_dyn(&DynamicPrecisionIndexVec::from(&v), &m)?;
                                check_dyn(&DynamicPrecisionIndexVec::from(v), &m)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }));
    // one change of width at every interesting place of containers of every size class
    gs.push(g("large", |c| {
        for n in sizes(c.thorough()) {
            for (low, high) in [(3usize, 256usize), (3, 65536), (3, usize::MAX), (250, 255), (300, 65536), (300, u32::MAX as usize + 1), (70000, u32::MAX as usize), (70000, usize::MAX)] {
                for how in 0..4 {
                    for at in [0, 1, n / 2, n - 2, n - 1] {
                        c.case(
                            || format!("{} elements of about {}, {} at {} ({})", n, low, high, at, ["push", "set", "ensured", "reserved"][how]),
                            |c| {
                                let mut d = if how == 3 { DynamicPrecisionIndexVec::with_capacity_and_support_for(n, low + 1) } else { DynamicPrecisionIndexVec::new() };
                                let mut m: Vec<usize> = vec![];
                                c.trans(n);
                                for i in 0..n {
                                    let v = if i == at && how != 1 { high } else { low + i % 3 };
                                    d.push(v);
                                    m.push(v);
                                }
                                check_dyn(&d, &m)?;
                                if how == 1 {
                                    d.set(at, high);
                                    m[at] = high;
                                }
                                if how == 2 {
                                    d.ensure_supported(high);
                                }
                                check_dyn(&d, &m)?;
                                past_end(&mut d, n, low)?;
                                past_end(&mut d, n, high)?;
                                check_dyn(&d, &m)?;
                                d.set(n - 1 - at, 1);
                                m[n - 1 - at] = 1;
                                d.push(high);
                                m.push(high);
                                d.reserve(n);
                                check_dyn(&d, &m)?;
                                c.state(&(n, low, high, how, at));
                                if high <= u32::MAX as usize {
                                    let mut u = U32IndexVec::default();
                                    for v in m.as_slice().iter() {
                                        u.push(*v)
                                    }
                                    u.set(at, low);
                                    compare(&u, &m.as_slice().iter().enumerate().map(|(i, v)| if i == at { low } else { *v }).collect::<Vec<usize>>())?;
                                }
                                ensure!(d.get_usize_upgraded() == &m, "upgraded view differs");
                                d.set(at, 2);
                                m[at] = 2;
                                check_dyn(&d, &m).map(|_| ())
                            },
                        );
                    }
                }
            }
        }
    }));
    mc::main(
        Spec {
            prop: "C04",
            level: "model_checking",
            rule: "breadth-first search over all operation sequences (push/set/refused access/reserve/ensure/upgrade/convert) on the real containers against Vec<usize>; states = distinct (storage width, contents)",
            assumptions: &["values from the width thresholds 2^8, 2^16, 2^32 and their neighbours", "the fixed 32 bit container is only given values below 2^32, as documented"],
        },
        gs,
    )
}
