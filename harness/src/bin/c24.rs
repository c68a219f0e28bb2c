//! C24: a failure of the underlying reader at any point before the loader has what it needs is reported, a failure of the
//! underlying writer is reported, and a writer that accepts only part of the data per call still gets the complete file.
use mc::io::*;
use mc::*;
use std::io::ErrorKind as EK;
use std::rc::Rc;

const KINDS_OF_FAILURE: [EK; 5] = [EK::Other, EK::UnexpectedEof, EK::WouldBlock, EK::InvalidData, EK::BrokenPipe];

/// Everything up to here (inclusive) is needed to know the content
fn needed(k: Kind, s: &Sample) -> usize {
    let n = s.data.len();
    match k {
        // no declared total: only the end of the file tells that there is nothing more
        Kind::Xy | Kind::Xyz | Kind::ObjPoints | Kind::ObjMesh | Kind::Pts | Kind::Ptx | Kind::Gcode => n,
        Kind::StlDuped(_) | Kind::StlUnique(_) | Kind::StlTriplets(_) if s.text => n - "endsolid test\n".len() + 7,
        // binary: needs the last byte
        _ if !s.text => *s.complete.last().unwrap() - 1,
        // the last token might go on
        _ => *s.complete.last().unwrap(),
    }
}
fn read_faults(c: &mut Ctx, i: usize) {
    let s = &corpus()[i];
    let d = Rc::new(s.data.clone());
    let n = d.len();
    for (k, w) in s.kinds.iter().zip(&s.want) {
        let need = needed(*k, s);
        for p in 0..=n {
            for kind in KINDS_OF_FAILURE {
                for sticky in [true, false] {
                    for plan in [Plan::Whole, Plan::Piece(1), Plan::Piece(7), Plan::Interrupted(5)] {
                        if c.stopped() {
                            return;
                        }
                        c.case(
                            || format!("{} {:?} fails at byte {} of {} with {:?} (sticky {}) delivery {:?}", s.name, k, p, n, kind, sticky, plan),
                            |c| {
                                calls();
                                let r = load(*k, Src::failing(&d, plan.clone(), p, kind, sticky));
                                c.trans(calls());
                                c.state(&(&s.name, k, p, format!("{:?}{}{:?}", kind, sticky, plan)));
                                match r {
                                    Err(_) => c.note("reported", 1),
                                    Ok(o) => {
                                        ensure!(p > need, "the failure was not reported, loaded {:?}", o);
                                        ensure!(o == *w, "loaded {:?} instead of {:?}", o, w);
                                        c.note("not needed", 1);
                                    }
                                }
                                // streaming: everything before the failure as without it, then one error, then nothing
                                if sticky {
                                    let good: Option<Vec<Res<Item>>> = stream(*k, Src::new(&d, plan.clone())).map(|s| s.unwrap().collect());
                                    match stream(*k, Src::failing(&d, plan.clone(), p, kind, sticky)) {
                                        None => (),
                                        Some(Err(_)) => (),
                                        Some(Ok(mut it)) => {
                                            let good = good.unwrap();
                                            let mut failed = false;
                                            for j in 0..good.len() + 6 {
                                                match it.next() {
                                                    None => {
                                                        ensure!(failed || p > need, "the stream ends without an error after {} items", j);
                                                        ensure!(failed || j == good.len(), "the stream ends after {} of {} items", j, good.len());
                                                        failed = true;
                                                    }
                                                    Some(Err(_)) => {
                                                        ensure!(!failed, "item {} after the error or the end", j);
                                                        failed = true
                                                    }
                                                    x => {
                                                        ensure!(!failed, "item {} after the error or the end", j);
                                                        ensure!(x.as_ref() == good.get(j), "item {} is {:?} instead of {:?}", j, x, good.get(j))
                                                    }
                                                }
                                            }
                                            ensure!(failed, "the stream does not end");
                                        }
                                    }
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
}
/// Failures within files of many elements
fn large_read(c: &mut Ctx, n: usize, wide: bool) {
    for (i, f) in if wide { wide_files(n) } else { large_files(n) }.iter().enumerate() {
        let whole = load(f.kind, Src::new(&f.data, Plan::Whole));
        let len = f.data.as_slice().iter().count();
        let good: Option<Vec<Res<Item>>> = stream(f.kind, Src::new(&f.data, Plan::Whole)).map(|s| s.unwrap().collect());
        for p in if wide && (len < 2000 || c.thorough()) { (0..=len).collect() } else { positions(len) } {
            for (plan, sticky, kind) in [(Plan::Whole, true, EK::Other), (Plan::Whole, true, EK::UnexpectedEof), (Plan::Whole, false, EK::Other), (Plan::Piece(8192), true, EK::InvalidData), (Plan::Piece(100), false, EK::UnexpectedEof), (Plan::Interrupted(4096), true, EK::BrokenPipe)] {
                if c.stopped() {
                    return;
                }
                c.case(
                    || format!("{} {} {:?} fails at byte {} of {} with {:?} (sticky {}) delivery {:?}", n, if wide { "more bytes per line or element" } else { "points" }, f.kind, p, len, kind, sticky, plan),
                    |c| {
                        calls();
                        let r = load(f.kind, Src::failing(&f.data, plan.clone(), p, kind, sticky));
                        c.trans(calls());
                        c.state(&(n, wide, i, p, format!("{:?}{:?}{}", kind, plan, sticky)));
                        match r {
                            Err(_) => c.note("reported", 1),
                            Ok(o) => {
                                ensure!(p > f.need, "the failure was not reported, loaded {} points {} faces", o.pts.len(), o.faces.len());
                                ensure!(Ok(&o) == whole.as_ref(), "loaded {} points {} faces", o.pts.len(), o.faces.len());
                                c.note("not needed", 1);
                            }
                        }
                        if let (Some(good), Some(Ok(it))) = (&good, stream(f.kind, Src::failing(&f.data, plan.clone(), p, kind, true))) {
                            let mut failed = false;
                            let mut count = 0;
                            for (j, x) in it.take(good.as_slice().iter().count() + 6).enumerate() {
                                ensure!(!failed, "item {} after the error", j);
                                if x.is_err() {
                                    failed = true
                                } else {
                                    ensure!(Some(&x) == good.get(j), "item {} is {:?} instead of {:?}", j, x, good.get(j))
                                }
                                count = j + 1;
                            }
                            ensure!(failed || p > f.need && count == good.as_slice().iter().count(), "the stream ends without an error after {} items", count);
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}
/// Failures and short writes while saving many elements
fn large_write(c: &mut Ctx, n: usize) {
    let pts: Vec<[f64; 3]> = (0..n).map(|i| [i as f64 * 0.5, -(i as f64), (i * i % 97) as f64]).collect();
    let faces: Vec<[usize; 3]> = (0..n - 2).map(|i| [i, i + 1, i + 2]).collect();
    let m = build_mesh(&pts, &faces);
    for s in SAVES {
        let mut whole = Sink::new(|_, _| W::Accept(usize::MAX));
        let r = save(s, &m, &mut whole);
        c.case(|| format!("{:?} {} points", s, n), |_| r.clone());
        let good = std::mem::take(&mut whole.out);
        let (len, calls) = (good.as_slice().iter().count(), whole.calls);
        let mut run = |what: String, hard: bool, f: &mut dyn FnMut(usize, usize) -> W| {
            c.case(
                || format!("{:?} {} points {}", s, n, what),
                |c| {
                    let mut w = Sink::new(|a, b| f(a, b));
                    let r = save(s, &m, &mut w);
                    c.trans(w.calls);
                    c.state(&(format!("{:?}", s), n, &what));
                    if hard {
                        ensure!(r.is_err(), "the failure was not reported");
                        ensure!(good.starts_with(&w.out), "wrote something else than the begin of the file");
                    } else {
                        ensure!(r.is_ok(), "{:?}", r);
                        ensure!(w.out == good, "wrote {} of {} bytes or different ones", w.out.as_slice().iter().count(), len);
                    }
                    Ok(())
                },
            )
        };
        for a in [1, 2, 3, 7, 100, 4096] {
            run(format!("accepts {} bytes per call", a), false, &mut |_, _| W::Accept(a));
            run(format!("interrupted and {} bytes per call", a), false, &mut |i, _| if i % 2 == 0 { W::Interrupt } else { W::Accept(a) });
        }
        for p in positions(len) {
            if p > 0 && p < len {
                run(format!("stops accepting at byte {}", p), false, &mut |_, b| if b < p { W::Accept(p - b) } else { W::Accept(usize::MAX) });
            }
            if p < len {
                run(format!("fails at byte {} of {}", p, len), true, &mut |_, b| if b < p { W::Accept(p - b) } else { W::Fail });
                run(format!("full at byte {} of {}", p, len), true, &mut |_, b| if b < p { W::Accept(p - b) } else { W::Zero });
            }
        }
        for k in positions(calls - 1) {
            run(format!("call {} of {} fails", k, calls), true, &mut |i, _| if i == k { W::Fail } else { W::Accept(usize::MAX) });
            run(format!("call {} of {} accepts nothing", k, calls), true, &mut |i, _| if i == k { W::Zero } else { W::Accept(usize::MAX) });
            run(format!("call {} of {} is interrupted", k, calls), false, &mut |i, _| if i == k { W::Interrupt } else { W::Accept(usize::MAX) });
        }
    }
}
fn meshes() -> Vec<(&'static str, M)> {
    let v = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.5], [-0.1, 1.5e300, 0.0], [1e-7, 0.0, 12.0], [3.0, 3.0, 3.0]];
    vec![("empty", build_mesh(&[], &[])), ("one point", build_mesh(&v[..1], &[])), ("one face", build_mesh(&v[..3], &[[0, 1, 2]])), ("five faces", build_mesh(&v, &[[0, 1, 2], [1, 2, 3], [2, 3, 4], [4, 0, 1], [0, 2, 1]]))]
}
fn write_faults(c: &mut Ctx, s: Save) {
    for (name, m) in &meshes() {
        let mut good: Vec<u8> = vec![];
        let r = save(s, m, &mut good);
        c.case(|| format!("{:?} {}", s, name), |_| r.clone());
        let n = good.len();
        let mut whole = Sink::new(|_, _| W::Accept(usize::MAX));
        let _ = save(s, m, &mut whole);
        let calls = whole.calls;
        let complete = |what: String, c: &mut Ctx, f: &mut dyn FnMut(usize, usize) -> W| {
            c.case(
                || format!("{:?} {} {}", s, name, what),
                |c| {
                    let mut w = Sink::new(|a, b| f(a, b));
                    let r = save(s, m, &mut w);
                    c.trans(w.calls);
                    c.state(&(format!("{:?}", s), name, &what));
                    ensure!(r.is_ok(), "{:?}", r);
                    ensure!(w.out == good, "wrote {} of {} bytes or different ones", w.out.len(), n);
                    Ok(())
                },
            )
        };
        for a in 1..=n + 1 {
            complete(format!("accepts {} bytes per call", a), c, &mut |_, _| W::Accept(a));
            complete(format!("interrupted and {} bytes per call", a), c, &mut |i, _| if i % 2 == 0 { W::Interrupt } else { W::Accept(a) });
        }
        // a short write at every byte position: everything up to it is accepted in one call, the rest later
        for p in 1..n {
            complete(format!("stops accepting at byte {}", p), c, &mut |_, b| if b < p { W::Accept(p - b) } else { W::Accept(usize::MAX) });
        }
        let fails = |what: String, c: &mut Ctx, f: &mut dyn FnMut(usize, usize) -> W| {
            c.case(
                || format!("{:?} {} {}", s, name, what),
                |c| {
                    let mut w = Sink::new(|a, b| f(a, b));
                    let r = save(s, m, &mut w);
                    c.trans(w.calls);
                    c.state(&(format!("{:?}", s), name, &what));
                    ensure!(r.is_err(), "the failure was not reported");
                    ensure!(good.starts_with(&w.out), "wrote something else than the begin of the file");
                    Ok(())
                },
            )
        };
        for k in 0..calls {
            fails(format!("call {} of {} fails", k, calls), c, &mut |i, _| if i == k { W::Fail } else { W::Accept(usize::MAX) });
            fails(format!("all calls from {} of {} fail", k, calls), c, &mut |i, _| if i >= k { W::Fail } else { W::Accept(usize::MAX) });
            fails(format!("call {} of {} accepts nothing", k, calls), c, &mut |i, _| if i == k { W::Zero } else { W::Accept(usize::MAX) });
        }
        for p in 0..n {
            fails(format!("fails at byte {} of {}", p, n), c, &mut |_, b| if b < p { W::Accept(p - b) } else { W::Fail });
            fails(format!("full at byte {} of {}", p, n), c, &mut |_, b| if b < p { W::Accept(p - b) } else { W::Zero });
        }
        // all answers to all calls with a bounded number of deviations from "accepts everything"
        let bound = c.q(2, 3);
        explore(bound, |ch| {
            let mut hard = false;
            let mut hist: Vec<usize> = vec![];
            let mut w = Sink::new(|_, _| {
                if hist.len() > 200 {
                    return W::Accept(usize::MAX);
                }
                let d = ch.dev(6);
                hist.push(d);
                match d {
                    0 => W::Accept(usize::MAX),
                    1 => W::Accept(1),
                    2 => W::Accept(3),
                    3 => W::Interrupt,
                    4 => {
                        hard = true;
                        W::Fail
                    }
                    _ => {
                        hard = true;
                        W::Zero
                    }
                }
            });
            let r = save(s, m, &mut w);
            let out = std::mem::take(&mut w.out);
            let n_calls = w.calls;
            drop(w);
            c.case(
                || format!("{:?} {} answers {:?}", s, name, hist),
                |c| {
                    c.trans(n_calls);
                    c.state(&(format!("{:?}", s), name, &hist));
                    if hard {
                        ensure!(r.is_err(), "the failure was not reported");
                        ensure!(good.starts_with(&out), "wrote something else than the begin of the file");
                    } else {
                        ensure!(r.is_ok(), "{:?}", r);
                        ensure!(out == good, "wrote {} of {} bytes or different ones", out.len(), n);
                    }
                    Ok(())
                },
            );
            !c.stopped()
        });
    }
}
fn main() {
    let mut v = vec![];
    for (i, s) in corpus().iter().enumerate() {
        v.push(g(format!("read {}", s.name), move |c| read_faults(c, i)));
    }
    for s in SAVES {
        v.push(g(format!("write {:?}", s), move |c| write_faults(c, s)));
    }
    for n in [300, 1025, 4097, 70_000] {
        v.push(g(format!("large read {}", n), move |c| {
            if n < 10_000 || c.thorough() {
                large_read(c, n, false)
            }
        }));
        v.push(g(format!("large write {}", n), move |c| {
            if n < 10_000 || c.thorough() {
                large_write(c, n)
            }
        }));
    }
    for w in [20usize, 80, 300, 5000] {
        v.push(g(format!("wide read {}", w), move |c| large_read(c, w, true)));
    }
    mc::main(
        Spec {
            prop: "C24",
            level: "fault_enumeration",
            rule: "a reader failure (five kinds, once or from then on, four deliveries) at every byte position of every file of the corpus; a writer failure, a full device or a short write at every call and every byte of every writer, and every sequence of answers with a bounded number of deviations",
            assumptions: &["interrupted calls are no failures: they are retried as std does"],
        },
        v,
    )
}
