//! C08: views and their application to collections.
use mc::*;
use rust_3d::*;
use std::collections::{BTreeSet, HashSet, LinkedList, VecDeque};

type V = Option<BTreeSet<usize>>; // None: full
fn real(v: &V) -> View {
    match v {
        None => View::Full,
        Some(s) => View::Restricted(s.iter().cloned().collect::<HashSet<usize>>()),
    }
}
fn model(v: &View) -> V {
    match v {
        View::Full => None,
        View::Restricted(s) => Some(s.iter().cloned().collect()),
    }
}
fn union(a: &V, b: &V) -> V {
    match (a, b) {
        (Some(x), Some(y)) => Some(x.union(y).cloned().collect()),
        _ => None,
    }
}
fn all_views(n: usize) -> Vec<V> {
    let mut r: Vec<V> = vec![None];
    for m in 0..1usize << n {
        r.push(Some((0..n).filter(|i| m >> i & 1 == 1).collect()));
    }
    r
}
/// what applying a view to a list has to give; None if it must be rejected
fn applied(l: &[u32], v: &V) -> Option<Vec<u32>> {
    match v {
        None => Some(l.to_vec()),
        Some(s) => {
            if s.iter().any(|i| *i >= l.len()) {
                return None;
            }
            Some(l.iter().enumerate().filter(|(i, _)| s.contains(i)).map(|(_, x)| *x).collect())
        }
    }
}
fn one<C: IsViewBuildable + Clone>(name: &str, l: &[u32], v: &V, mk: impl Fn(&[u32]) -> C, rd: impl Fn(&C) -> Vec<u32>) -> R {
    let view = real(v);
    let c = mk(l);
    let exp = applied(l, v);
    let from = c.from_view(&view).map(|x| rd(&x));
    ensure!(from == exp, "{}: from_view gives {:?} expected {:?}", name, from, exp);
    ensure!(rd(&c) == l, "{}: from_view changed the source to {:?}", name, rd(&c));
    let mut a = mk(l);
    let r = a.apply_view(&view);
    ensure!(r.is_ok() == exp.is_some(), "{}: apply_view gives {:?} expected {:?}", name, r, exp);
    let exp = exp.unwrap_or(l.to_vec());
    ensure!(rd(&a) == exp, "{}: contents after apply_view {:?} expected {:?}", name, rd(&a), exp);
    ensure!(model(&view) == *v, "view changed");
    Ok(())
}
fn f(x: u32) -> f64 {
    x as f64 * 0.5 - 1.0
}
fn everywhere(l: &[u32], v: &V) -> R {
    one("Vec", l, v, |l| l.to_vec(), |c| c.clone())?;
    one("VecDeque", l, v, |l| l.iter().cloned().collect::<VecDeque<u32>>(), |c| c.iter().cloned().collect())?;
    for k in 1..l.len() {
        if k > 4 && k + 4 < l.len() && k != l.len() / 2 {
            continue;
        }
        one("wrapped VecDeque", l, v, |l| wrapped(l, k), |c| c.iter().cloned().collect())?;
    }
    one("LinkedList", l, v, |l| l.iter().cloned().collect::<LinkedList<u32>>(), |c| c.iter().cloned().collect())?;
    one(
        "PointCloud2D",
        l,
        v,
        |l| PointCloud2D::from(l.iter().map(|x| Point2D::new(f(*x), *x as f64)).collect::<Vec<_>>()),
        |c| c.data.as_slice().iter().map(|p| if p.x == f(p.y as u32) { p.y as u32 } else { 999 }).collect(),
    )?;
    one(
        "PointCloud3D",
        l,
        v,
        |l| PointCloud3D::from(l.iter().map(|x| Point3D::new(f(*x), *x as f64, -f(*x))).collect::<Vec<_>>()),
        |c| c.data.as_slice().iter().map(|p| if p.x == f(p.y as u32) && p.z == -p.x { p.y as u32 } else { 999 }).collect(),
    )
}

#[derive(Clone, Debug)]
enum Op {
    Union(V),
    Apply(V),
    ApplyOwn,
}
fn main() {
    let mut gs = vec![];
    gs.push(g("union", |c| {
        let vs = all_views(c.q(7, 9));
        for a in &vs {
            for b in &vs {
                c.state(&(a, b));
                c.case(
                    || format!("{:?} union {:?}", a, b),
                    |c| {
                        c.trans(1);
                        let mut v = real(a);
                        v.union(real(b));
                        ensure!(model(&v) == union(a, b), "{:?} expected {:?}", model(&v), union(a, b));
                        // beyond the smallest hash capacities, far apart indices
                        let far = |v: &V| v.clone().map(|s| s.iter().map(|i| i * 1_000_003).collect::<BTreeSet<usize>>());
                        let mut w = real(&far(a));
                        w.union(real(&far(b)));
                        ensure!(model(&w) == union(&far(a), &far(b)), "far {:?}", model(&w));
                        Ok(())
                    },
                );
            }
        }
    }));
    for n in 0..=9usize {
        gs.push(g(format!("apply n={}", n), move |c| {
            if n > c.q(7, 9) {
                return;
            }
            let views: Vec<V> = all_views(n + 2).into_iter().chain(vec![Some([n + 1000].iter().cloned().collect()), Some([0, usize::MAX].iter().cloned().collect())]).chain(far(n).into_iter().map(|i| Some([0, i].iter().cloned().collect()))).collect();
            let k = if n <= 3 { n.max(1) } else { 2 };
            tuples(k, n, |t| {
                let l: Vec<u32> = t.iter().map(|i| *i as u32 + 1).collect();
                for v in &views {
                    c.state(&(&l, v));
                    c.case(
                        || format!("{:?} to {:?}", v, l),
                        |c| {
                            c.trans(12);
                            everywhere(&l, v)
                        },
                    );
                }
                !c.stopped()
            });
        }));
    }
    for n in sizes(true) {
        gs.extend(parts(format!("large {}", n), if n > 1000 { 8 } else { 1 }, move |c| {
            if !c.size(n, HUGE) {
                return;
            }
            let l: Vec<u32> = (0..n as u32).map(|i| i * 3 + 1).collect();
            let mut views: Vec<V> = vec![None, Some(BTreeSet::new()), Some((0..n).collect()), Some((0..=n).collect()), Some([n].iter().cloned().collect())];
            // single elements, everything but one, prefixes, suffixes, every k-th element
            let step = if n >= HUGE { 9973 } else if n > 300 { 37 } else { 1 };
            for i in (0..n).step_by(step).chain([n - 1]) {
                views.push(Some([i].iter().cloned().collect()));
                views.push(Some((0..n).filter(|k| *k != i).collect()));
                views.push(Some((0..i).collect()));
                views.push(Some((i..n).collect()));
                views.push(Some((0..n).step_by(i + 1).collect()));
            }
            for v in &views {
                c.state(&(n, v));
                c.case(
                    || format!("view of {:?} elements to {}", v.as_ref().map(|v| v.len()), n),
                    |c| {
                        c.trans(12);
                        everywhere(&l, v)
                    },
                );
            }
        }));
    }
    // histories: a view is built up by unions while views are applied to the same collections one after another
    gs.push(g("histories", |c| {
        let n = c.q(5usize, 6);
        let depth = c.q(4, 6);
        let views: Vec<V> = all_views(n).into_iter().filter(|v| v.as_ref().map(|s| s.len() <= 2 || s.len() >= n - 1).unwrap_or(true)).collect();
        type S = (Vec<u32>, VecDeque<u32>, LinkedList<u32>, PointCloud3D<Point3D>, View, (Vec<u32>, V));
        let l: Vec<u32> = (1..=n as u32).collect();
        let init: S = (
            l.clone(),
            l.iter().cloned().collect(),
            l.iter().cloned().collect(),
            PointCloud3D::from(l.iter().map(|x| Point3D::new(*x as f64, 0.0, 1.0)).collect::<Vec<_>>()),
            View::Restricted(HashSet::new()),
            (l.clone(), Some(BTreeSet::new())),
        );
        bfs(
            c,
            vec![("start".into(), init)],
            depth,
            move |_| {
                let mut a = vec![Op::ApplyOwn];
                for v in &views {
                    a.push(Op::Union(v.clone()));
                    a.push(Op::Apply(v.clone()));
                }
                a
            },
            |s, op| {
                let v = match op {
                    Op::Union(v) => {
                        s.4.union(real(v));
                        (s.5).1 = union(&(s.5).1, v);
                        ensure!(model(&s.4) == (s.5).1, "union gives {:?} expected {:?}", s.4, (s.5).1);
                        return Ok(());
                    }
                    Op::Apply(v) => v.clone(),
                    Op::ApplyOwn => (s.5).1.clone(),
                };
                let exp = applied(&(s.5).0, &v);
                let rv = if let Op::ApplyOwn = op { s.4.clone() } else { real(&v) };
                let r = [s.0.apply_view(&rv).is_ok(), s.1.apply_view(&rv).is_ok(), s.2.apply_view(&rv).is_ok(), s.3.apply_view(&rv).is_ok()];
                for x in r.iter() {
                    ensure!(*x == exp.is_some(), "accepted: {:?} expected {:?}", r, exp);
                }
                if let Some(e) = exp {
                    (s.5).0 = e;
                }
                let m = &(s.5).0;
                ensure!(&s.0 == m, "Vec {:?} expected {:?}", s.0, m);
                ensure!(s.1.iter().eq(m.as_slice().iter()), "VecDeque {:?} expected {:?}", s.1, m);
                ensure!(s.2.iter().eq(m.as_slice().iter()), "LinkedList {:?} expected {:?}", s.2, m);
                ensure!(s.3.data.as_slice().iter().map(|p| p.x as u32).eq(m.as_slice().iter().cloned()), "PointCloud3D {:?} expected {:?}", s.3.data, m);
                Ok(())
            },
            |s| s.5.clone(),
        );
    }));
    mc::main(
        Spec {
            prop: "C08",
            level: "model_checking",
            rule: "all pairs of views over few indices; all views (full, every subset, out of range) applied to all small collections of every collection type; breadth-first histories of unions and applications; states = distinct (contents, view), transitions = view operations",
            assumptions: &["elements are small integers / points built from them"],
        },
        gs,
    )
}
