//! C02: AABB trees against a linear scan with interval predicates.
use mc::*;
use rust_3d::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
struct B2 {
    id: usize,
    x: (f64, f64),
    y: (f64, f64),
}
impl HasBoundingBox2DMaybe for B2 {
    fn bounding_box_maybe(&self) -> Option<BoundingBox2D> {
        Some(self.bounding_box())
    }
}
impl HasBoundingBox2D for B2 {
    fn bounding_box(&self) -> BoundingBox2D {
        BoundingBox2D::new(&Point2D::new(self.x.0, self.y.0), &Point2D::new(self.x.1, self.y.1)).unwrap()
    }
}
#[derive(Clone, Debug)]
struct B3 {
    id: usize,
    x: (f64, f64),
    y: (f64, f64),
    z: (f64, f64),
}
impl HasBoundingBox3DMaybe for B3 {
    fn bounding_box_maybe(&self) -> Option<BoundingBox3D> {
        Some(self.bounding_box())
    }
}
impl HasBoundingBox3D for B3 {
    fn bounding_box(&self) -> BoundingBox3D {
        BoundingBox3D::new(&Point3D::new(self.x.0, self.y.0, self.z.0), &Point3D::new(self.x.1, self.y.1, self.z.1)).unwrap()
    }
}
fn ov(a: (f64, f64), b: (f64, f64)) -> bool {
    a.0 < b.1 && b.0 < a.1
}
fn cr(a: (f64, f64), v: f64) -> bool {
    a.0 < v && v < a.1
}
fn ids2(v: &[&B2]) -> BTreeSet<usize> {
    v.iter().map(|b| b.id).collect()
}
fn ids3(v: &[&B3]) -> BTreeSet<usize> {
    v.iter().map(|b| b.id).collect()
}
const VALS: [f64; 9] = [-0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5];

fn check2(c: &mut Ctx, objs: &[B2], depth: usize, bucket: usize, queries: &[B2], vals: &[f64]) {
    c.case(
        || format!("maxdepth={} bucket={} {} objects={:?}", depth, bucket, objs.len(), &objs[..objs.len().min(12)]),
        |c| {
            let t = AABBTree2D::new(objs.to_vec(), depth, bucket);
            for q in queries {
                let exp: BTreeSet<usize> = objs.iter().filter(|o| ov(o.x, q.x) && ov(o.y, q.y)).map(|o| o.id).collect();
                let mut r = vec![];
                t.bb_colliding(&q.bounding_box(), &mut r);
                ensure!(ids2(&r) == exp, "bb_colliding {:?}: got {:?} expected {:?}", q, ids2(&r), exp);
                let mut s = BTreeSet::new();
                t.for_each_collision_candidate(&q.bounding_box(), &mut |b| {
                    s.insert(b.id);
                });
                ensure!(s.is_superset(&exp), "candidates {:?}: got {:?} expected at least {:?}", q, s, exp);
                c.state(&exp);
                c.transitions += 2;
            }
            for &v in vals {
                let mut r = vec![];
                t.bb_crossing_x_value(v, &mut r);
                let exp: BTreeSet<usize> = objs.iter().filter(|o| cr(o.x, v)).map(|o| o.id).collect();
                ensure!(ids2(&r) == exp, "crossing x={}: got {:?} expected {:?}", v, ids2(&r), exp);
                let mut r = vec![];
                t.bb_crossing_y_value(v, &mut r);
                let exp: BTreeSet<usize> = objs.iter().filter(|o| cr(o.y, v)).map(|o| o.id).collect();
                ensure!(ids2(&r) == exp, "crossing y={}: got {:?} expected {:?}", v, ids2(&r), exp);
                c.transitions += 2;
            }
            for o in objs.iter().step_by(1 + objs.len() / 600) {
                ensure!(t.any(&|b: &B2| b.id == o.id), "any misses {:?}", o);
            }
            let known: BTreeSet<usize> = objs.iter().map(|o| o.id).collect();
            ensure!(!t.any(&|b: &B2| !known.contains(&b.id)), "any found something else");
            ensure!(!t.any(&|_: &B2| false), "any of never");
            Ok(())
        },
    );
}
fn check3(c: &mut Ctx, objs: &[B3], depth: usize, bucket: usize, queries: &[B3], lines: &[Line3D], vals: &[f64]) {
    c.case(
        || format!("maxdepth={} bucket={} {} objects={:?}", depth, bucket, objs.len(), &objs[..objs.len().min(12)]),
        |c| {
            let t = AABBTree3D::new(objs.to_vec(), depth, bucket);
            for q in queries {
                let exp: BTreeSet<usize> = objs.iter().filter(|o| ov(o.x, q.x) && ov(o.y, q.y) && ov(o.z, q.z)).map(|o| o.id).collect();
                let mut r = vec![];
                t.bb_colliding(&q.bounding_box(), &mut r);
                ensure!(ids3(&r) == exp, "bb_colliding {:?}: got {:?} expected {:?}", q, ids3(&r), exp);
                let mut s = BTreeSet::new();
                t.for_each_collision_candidate(&q.bounding_box(), &mut |b| {
                    s.insert(b.id);
                });
                ensure!(s.is_superset(&exp), "candidates {:?}: got {:?} expected at least {:?}", q, s, exp);
                c.state(&exp);
                c.transitions += 2;
            }
            for l in lines {
                let exp: BTreeSet<usize> = objs.iter().filter(|o| intersection(l, &o.bounding_box()).is_some()).map(|o| o.id).collect();
                let mut s = BTreeSet::new();
                t.for_each_intersection_candidate(l, &mut |b| {
                    s.insert(b.id);
                });
                ensure!(s == exp, "intersection candidates {:?}: got {:?} expected {:?}", l, s, exp);
                c.state(&(1u8, exp));
                c.transitions += 1;
            }
            for &v in vals {
                for axis in 0..3 {
                    let mut r = vec![];
                    match axis {
                        0 => t.bb_crossing_x_value(v, &mut r),
                        1 => t.bb_crossing_y_value(v, &mut r),
                        _ => t.bb_crossing_z_value(v, &mut r),
                    }
                    let exp: BTreeSet<usize> = objs.iter().filter(|o| cr([o.x, o.y, o.z][axis], v)).map(|o| o.id).collect();
                    ensure!(ids3(&r) == exp, "crossing axis {} = {}: got {:?} expected {:?}", axis, v, ids3(&r), exp);
                    c.transitions += 1;
                }
            }
            for o in objs.iter().step_by(1 + objs.len() / 600) {
                ensure!(t.any(&|b: &B3| b.id == o.id), "any misses {:?}", o);
            }
            ensure!(!t.any(&|_: &B3| false), "any of never");
            Ok(())
        },
    );
}
fn ivs(full: bool) -> Vec<(f64, f64)> {
    if full {
        vec![(0.0, 1.0), (1.0, 2.0), (2.0, 3.0), (0.0, 2.0), (1.0, 3.0), (0.0, 3.0)]
    } else {
        vec![(0.0, 1.0), (1.0, 3.0), (0.0, 3.0)]
    }
}
fn boxes2(iv: &[(f64, f64)]) -> Vec<B2> {
    let mut v = vec![];
    for &x in iv {
        for &y in iv {
            v.push(B2 { id: 0, x, y });
        }
    }
    v
}
fn boxes3(iv: &[(f64, f64)]) -> Vec<B3> {
    let mut v = vec![];
    for &x in iv {
        for &y in iv {
            for &z in iv {
                v.push(B3 { id: 0, x, y, z });
            }
        }
    }
    v
}
fn lines() -> Vec<Line3D> {
    let mut v = vec![];
    for a in [(-1.0, 0.25, 1.5), (0.5, 0.5, -2.0), (1.5, 4.0, 2.5), (1.5, 1.5, 0.5), (-1.0, -1.0, -1.0)] {
        for d in [(1.0, 0.0, 0.0), (0.0, 0.0, 1.0), (0.0, -1.0, 0.0), (1.0, 0.5, 0.25), (-1.0, -2.0, 1.0), (1.0, 1.0, 1.0)] {
            v.push(Line3D::new(Point3D::new(a.0, a.1, a.2), Norm3D::new(Point3D::new(d.0, d.1, d.2)).unwrap()));
        }
    }
    v
}
const CONF: [(usize, usize); 8] = [(0, 1), (1, 1), (2, 1), (3, 0), (4, 1), (3, 2), (9, 3), (30, 1)];
fn run2(c: &mut Ctx, dom: &[B2], n: usize, conf: &[(usize, usize)], queries: &[B2]) {
    multisets(dom.len(), n, |t| {
        let objs: Vec<B2> = t.iter().enumerate().map(|(id, &i)| B2 { id, ..dom[i].clone() }).collect();
        for &(d, b) in conf {
            check2(c, &objs, d, b, queries, &VALS);
        }
        !c.stopped()
    });
}
fn run3(c: &mut Ctx, dom: &[B3], n: usize, conf: &[(usize, usize)], queries: &[B3], ls: &[Line3D]) {
    multisets(dom.len(), n, |t| {
        let objs: Vec<B3> = t.iter().enumerate().map(|(id, &i)| B3 { id, ..dom[i].clone() }).collect();
        for &(d, b) in conf {
            check3(c, &objs, d, b, queries, ls, &VALS);
        }
        !c.stopped()
    });
}
fn main() {
    let mut gs = vec![];
    gs.push(g("unlimited-depth", |c| {
        // nested boxes cannot be separated by any split: the depth limit must not be what ends the recursion
        for n in 2..=4 {
            let o2: Vec<B2> = (0..n).map(|i| B2 { id: i, x: (0.0, 3.0 / 3f64.powi(i as i32)), y: (0.0, 3.0 / 3f64.powi(i as i32)) }).collect();
            let o3: Vec<B3> = o2.iter().map(|b| B3 { id: b.id, x: b.x, y: b.y, z: b.x }).collect();
            for d in [100, 10_000_000, usize::MAX] {
                check2(c, &o2, d, 1, &boxes2(&ivs(false)), &VALS);
                check3(c, &o3, d, 1, &boxes3(&ivs(false)), &lines(), &VALS);
            }
        }
    }));
    for n in 0..=4usize {
        gs.push(g(format!("2d-n{}", n), move |c| {
            let q = boxes2(&ivs(true));
            if n < 4 {
                run2(c, &boxes2(&ivs(true)), n, &CONF, &q)
            } else {
                run2(c, &boxes2(&ivs(c.thorough())), n, &CONF, &q)
            }
        }));
        gs.push(g(format!("3d-n{}", n), move |c| {
            let q = boxes3(&ivs(c.thorough()));
            let l = lines();
            if n <= 1 {
                run3(c, &boxes3(&ivs(true)), n, &CONF, &q, &l)
            } else if n == 2 {
                run3(c, &boxes3(&ivs(c.thorough())), n, &CONF, &q, &l)
            } else if n == 3 {
                run3(c, &boxes3(&ivs(false)), n, &CONF[1..], &q, &l)
            } else {
                let some: Vec<B3> = boxes3(&ivs(false)).into_iter().enumerate().filter(|(i, _)| c.thorough() || [0, 2, 6, 9, 13, 14, 18, 21, 26].contains(i)).map(|x| x.1).collect();
                run3(c, &some, n, &CONF[2..7], &boxes3(&ivs(false)), &l[..12])
            }
        }));
    }
    for n in 5..=7usize {
        gs.push(g(format!("2d-many-n{}", n), move |c| {
            let all = boxes2(&ivs(true));
            let some: Vec<B2> = [0, 7, 14, 35, 2, 12, 21].iter().take(c.q(5, 7)).map(|&i| all[i].clone()).collect();
            run2(c, &some, n, &CONF, &all)
        }));
        gs.push(g(format!("3d-many-n{}", n), move |c| {
            let iv = ivs(true);
            let some: Vec<B3> = [(0, 0, 0), (2, 2, 2), (0, 2, 1), (5, 5, 5), (1, 1, 3), (2, 0, 4)]
                .iter()
                .take(c.q(5, 6))
                .map(|&(x, y, z)| B3 { id: 0, x: iv[x], y: iv[y], z: iv[z] })
                .collect();
            run3(c, &some, n, &CONF, &boxes3(&ivs(false)), &lines()[..12])
        }));
    }
    for (scale, n) in sizes(true).into_iter().filter(|n| *n < 600).map(|n| (1.0, n)).chain([7usize, 33, 129].iter().flat_map(|n| vec![(2f64.powi(-200), *n), (2f64.powi(200), *n)])) {
        gs.push(g(format!("large {} scaled by {:e}", n, scale), move |c| {
            if n > 150 && !c.thorough() && n != 257 {
                return;
            }
            {
                for (name, p) in patterns(n) {
                    for extent in [1i64, 3, n as i64 / 2] {
                        c.note(name, 1);
                        let iv = |i: usize, k: usize| (p[i][k] as f64 * scale, (p[i][k] + 1 + (i as i64 * (k as i64 + 1)) % extent) as f64 * scale);
                        let o3: Vec<B3> = (0..n).map(|i| B3 { id: i, x: iv(i, 0), y: iv(i, 1), z: iv(i, 2) }).collect();
                        let o2: Vec<B2> = o3.iter().map(|b| B2 { id: b.id, x: b.x, y: b.y }).collect();
                        let o2z: Vec<B2> = o3.iter().map(|b| B2 { id: b.id, x: b.z, y: b.y }).collect();
                        let grow = |b: &B3, d: f64| B3 { id: 0, x: (b.x.0 - d * scale, b.x.1 + d * scale), y: (b.y.0 - d * scale, b.y.1 + d * scale), z: (b.z.0 - d * scale, b.z.1 + d * scale) };
                        let mut q3 = vec![];
                        for i in [0, 1, n / 3, n / 2, n - 2, n - 1] {
                            q3.push(o3[i].clone());
                            q3.push(grow(&o3[i], -0.25));
                            q3.push(grow(&o3[i], 2.0));
                            q3.push(grow(&o3[i], n as f64 / 3.0));
                        }
                        let q2: Vec<B2> = q3.iter().map(|b| B2 { id: 0, x: b.x, y: b.y }).collect();
                        let q2z: Vec<B2> = q3.iter().map(|b| B2 { id: 0, x: b.z, y: b.y }).collect();
                        let vals: Vec<f64> = [-1.5, -0.5, 0.0, 0.5, 1.0, n as f64 / 2.0, n as f64 / 2.0 + 0.5, n as f64 - 0.5, n as f64, n as f64 * n as f64 - 0.5].iter().map(|v| v * scale).collect();
                        let ls: Vec<Line3D> = [0, n / 2, n - 1]
                            .iter()
                            .flat_map(|&i| {
                                let b = &o3[i];
                                let a = Point3D::new(0.5 * (b.x.0 + b.x.1), 0.5 * (b.y.0 + b.y.1), 0.25 * b.z.0 + 0.75 * b.z.1);
                                [(1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (0.0, 0.0, 1.0), (-1.0, -1.0, -1.0), (1.0, 2.0, 3.0)].iter().map(move |d| Line3D::new(a.clone(), Norm3D::new(Point3D::new(d.0, d.1, d.2)).unwrap())).collect::<Vec<_>>()
                            })
                            .collect();
                        for (depth, bucket) in [(0, 1), (1, 1), (3, 2), (6, 4), (9, 1), (5, n)] {
                            check2(c, &o2, depth, bucket, &q2, &vals);
                            check2(c, &o2z, depth, bucket, &q2z, &vals);
                            check3(c, &o3, depth, bucket, &q3, &ls, &vals);
                        }
                        if c.stopped() {
                            return;
                        }
                    }
                }
            }
        }));
    }
    // borders that differ by a tolerance of any size
    for axis in 0..3usize {
        gs.push(g(format!("close {}", axis), move |c| {
            for l in ladders() {
                let mut iv = vec![];
                for i in 0..6usize {
                    for j in i + 1..6 {
                        iv.push((l[i], l[j]));
                    }
                }
                let o = |i: usize, k: usize| if axis == k { iv[i] } else { ([0.0, 2.0, -3.0][i % 3], [2.5, 3.0, 4.0][(i + k) % 3]) };
                for n in [15usize, 6, 2] {
                    for (depth, bucket) in [(6, 1), (2, 4), (0, 1)] {
                        let (a, b): (Vec<B2>, Vec<B3>) = (0..15).filter(|i| (i * 7 + 3) % 15 < n).map(|i| (B2 { id: i, x: o(i, 0), y: o(i, 1) }, B3 { id: i, x: o(i, 0), y: o(i, 1), z: o(i, 2) })).unzip();
                        let (q2, q3): (Vec<B2>, Vec<B3>) = (0..15).map(|i| (B2 { id: i, x: o(i, 0), y: o(i, 1) }, B3 { id: i, x: o(i, 0), y: o(i, 1), z: o(i, 2) })).unzip();
                        if axis < 2 {
                            check2(c, &a, depth, bucket, &q2, &l);
                        }
                        check3(c, &b, depth, bucket, &q3, &[], &l);
                    }
                }
                if c.stopped() {
                    return;
                }
            }
        }));
    }
    // boxes without a border on some sides
    const I: f64 = f64::INFINITY;
    for n in 1..=4usize {
        gs.push(g(format!("unbounded {}", n), move |c| {
            let iv = [(0.0, 1.0), (-I, I), (-I, 1.0), (1.0, I), (1.5, 2.0)];
            let q2 = boxes2(&[(0.0, 1.0), (-I, I), (-I, 0.0), (2.0, I), (1.0, 1.75)]);
            let q3 = boxes3(&[(0.25, 1.0), (-I, I), (1.75, I)]);
            if n <= 3 {
                run2(c, &boxes2(&iv), n, &CONF, &q2);
            }
            let some: Vec<B3> = boxes3(&iv).into_iter().enumerate().filter(|(i, _)| n <= 1 || n == 2 && c.thorough() || i % [1, 1, 3, 9, 17][n] == 0).map(|x| x.1).collect();
            run3(c, &some, n, &CONF, &q3, &[]);
        }));
    }
    // very many boxes, disjoint since overlapping ones are kept several times
    for n in sizes(true).into_iter().filter(|n| *n > 600) {
        gs.push(g(format!("many disjoint {}", n), move |c| {
            if !c.size(n, HUGE) {
                return;
            }
            for axis in 0..4usize {
                let side = (n as f64).sqrt().ceil() as usize;
                let at = |i: usize, k: usize| if axis == 3 { [i % side, i / side, 0][k] } else if axis == k { i } else { 0 };
                let iv = |i: usize, k: usize| (at(i, k) as f64 + 0.25, at(i, k) as f64 + 0.75);
                let o3: Vec<B3> = (0..n).map(|id| B3 { id, x: iv(id, 0), y: iv(id, 1), z: iv(id, 2) }).collect();
                let o2: Vec<B2> = o3.iter().map(|b| B2 { id: b.id, x: b.x, y: b.y }).collect();
                let mut q3: Vec<B3> = [0, 1, n / 2, n - 2, n - 1].iter().map(|i| o3[*i].clone()).collect();
                q3.push(B3 { id: 0, x: (-1.0, 1e9), y: (-1.0, 1e9), z: (-1.0, 1e9) });
                q3.push(B3 { id: 0, x: (2.6, side as f64), y: (-0.5, side as f64 / 2.0), z: (0.3, 7.0) });
                let q2: Vec<B2> = q3.iter().map(|b| B2 { id: 0, x: b.x, y: b.y }).collect();
                let m = n as f64 - 0.5;
                for (depth, bucket) in [(60, 1), (60, 8), (12, 300)] {
                    if axis != 2 {
                        check2(c, &o2, depth, bucket, &q2, &[0.5, 0.25, m, m / 2.0, 1.5]);
                    }
                    check3(c, &o3, depth, bucket, &q3, &lines()[..3], &[0.5, 0.25, m, m / 2.0, 1.5]);
                }
                if c.stopped() {
                    return;
                }
            }
        }));
    }
    mc::main(        Spec {
            prop: "C02",
            level: "model_checking",
            rule: "every multiset of boxes over an interval alphabet x every (max depth, bucket size) x every query box/value/line on the real trees; states = distinct answer sets",
            assumptions: &["box corners on a small grid, large families with depths up to 9 (boxes overlapping a split are kept on both sides, so the cost grows exponentially with the depth)", "line queries compared with the library's own line/box predicate per object (decided in C34)"],
        },
        gs,
    )
}
