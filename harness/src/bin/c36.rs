//! C36: moving, scaling, centering and resizing geometric objects.
use mc::*;
use rust_3d::*;
use std::collections::{LinkedList, VecDeque};

type V = Vec<f64>;
/// how an object looks from the outside: its points and a fingerprint of everything that must not change
struct Ops<T> {
    dim: usize,
    pts: fn(&T) -> Vec<V>,
    rest: fn(&T) -> String,
    mv: Option<fn(&mut T, &[f64])>,
    sc: Option<fn(&mut T, Positive)>,
    ce: Option<fn(&mut T)>,
    ss: Option<fn(&mut T, [Positive; 3])>,
    bb: Option<fn(&T) -> Option<(V, V)>>,
    eps: f64,
}
#[derive(Clone, Debug)]
enum Op {
    Move(usize),
    Scale(usize),
    Center,
    Size(usize),
}
const MOVES: [[f64; 3]; 5] = [[1.0, 0.0, 0.0], [0.0, -2.5, 0.0], [0.25, 3.0, -7.0], [-1.0e3, 0.1, 0.5], [0.0, 0.0, 0.3]];
const FACTORS: [f64; 4] = [2.0, 0.5, 0.3, 1.0];
const SIZES: [[f64; 3]; 3] = [[1.0, 1.0, 1.0], [4.0, 0.5, 3.0], [0.1, 10.0, 1.0]];

thread_local! {
    /// everything in a group is scaled by this power of two
    static UNIT: std::cell::Cell<f64> = std::cell::Cell::new(1.0);
}
fn u() -> f64 {
    UNIT.with(|x| x.get())
}
fn scaled(v: &[f64; 3]) -> [f64; 3] {
    v.map(|x| x * u())
}

fn extent(p: &[V], dim: usize) -> Option<(V, V)> {
    let f = p.first()?;
    let (mut lo, mut hi) = (f.clone(), f.clone());
    for q in p {
        for i in 0..dim {
            lo[i] = lo[i].min(q[i]);
            hi[i] = hi[i].max(q[i]);
        }
    }
    Some((lo, hi))
}
fn model(p: &mut [V], dim: usize, op: &Op) {
    let e = extent(p, dim);
    let mid = e.as_ref().map(|(l, h)| (0..dim).map(|i| 0.5 * (l[i] + h[i])).collect::<V>());
    let solid = e.as_ref().map_or(false, |(l, h)| (0..dim).all(|i| l[i] < h[i]));
    match op {
        Op::Move(k) => p.iter_mut().for_each(|q| (0..dim).for_each(|i| q[i] += u() * MOVES[*k][i])),
        Op::Scale(k) => {
            if let Some(m) = mid {
                p.iter_mut().for_each(|q| (0..dim).for_each(|i| q[i] = m[i] + FACTORS[*k] * (q[i] - m[i])))
            }
        }
        Op::Center => {
            if solid {
                let m = mid.unwrap();
                p.iter_mut().for_each(|q| (0..dim).for_each(|i| q[i] -= m[i]))
            }
        }
        Op::Size(k) => {
            if solid {
                let (l, h) = e.unwrap();
                p.iter_mut().for_each(|q| (0..dim).for_each(|i| q[i] *= u() * SIZES[*k][i] / (h[i] - l[i])))
            }
        }
    }
}
fn same(a: &[V], b: &[V], dim: usize, tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(p, q)| (0..dim).all(|i| (p[i] - q[i]).abs() <= tol))
}
fn run<T: Clone>(c: &mut Ctx, name: &str, o: &T, ops: &Ops<T>, depth: usize) {
    let mut acts: Vec<Op> = vec![];
    if ops.mv.is_some() {
        acts.extend((0..MOVES.len()).map(Op::Move));
    }
    if ops.sc.is_some() {
        acts.extend((0..FACTORS.len()).map(Op::Scale));
    }
    if ops.ce.is_some() {
        acts.push(Op::Center);
    }
    if ops.ss.is_some() {
        acts.extend((0..SIZES.len()).map(Op::Size));
    }
    fn go<T: Clone>(c: &mut Ctx, name: &str, o: &T, p: &[V], big: f64, ops: &Ops<T>, acts: &[Op], path: &mut Vec<Op>, depth: usize, rest: &str) {
        if depth == 0 || c.stopped() {
            return;
        }
        for a in acts {
            path.push(a.clone());
            let mut m = p.to_vec();
            let mut n = o.clone();
            let mut ok = true;
            let mut big2 = big;
            c.case(
                || format!("{} {:?} after {:?}", name, p, path),
                |c| {
                    c.trans(1);
                    ok = false;
                    model(&mut m, ops.dim, a);
                    big2 = m.iter().flatten().fold(big, |m, x| m.max(x.abs()));
                    match a {
                        Op::Move(k) => (ops.mv.unwrap())(&mut n, &scaled(&MOVES[*k])),
                        Op::Scale(k) => (ops.sc.unwrap())(&mut n, Positive::new(FACTORS[*k]).unwrap()),
                        Op::Center => (ops.ce.unwrap())(&mut n),
                        Op::Size(k) => {
                            let s = scaled(&SIZES[*k]);
                            (ops.ss.unwrap())(&mut n, [Positive::new(s[0]).unwrap(), Positive::new(s[1]).unwrap(), Positive::new(s[2]).unwrap()])
                        }
                    }
                    let got = (ops.pts)(&n);
                    ensure!(same(&m, &got, ops.dim, ops.eps * big2), "{:?}: expected {:?}, got {:?}", a, m, got);
                    ensure!((ops.rest)(&n) == rest, "{:?} changed more than the positions: {} -> {}", a, rest, (ops.rest)(&n));
                    if let Some(bb) = ops.bb {
                        if let Some((l, h)) = bb(&n) {
                            let t = 8.0 * ops.eps * big2;
                            match a {
                                Op::Center => ensure!((0..ops.dim).all(|i| (l[i] + h[i]).abs() <= t), "center of {:?}..{:?} not at the origin", l, h),
                                Op::Size(k) => ensure!((0..ops.dim).all(|i| (h[i] - l[i] - u() * SIZES[*k][i]).abs() <= t), "size of {:?}..{:?} is not {:?}", l, h, SIZES[*k]),
                                _ => {}
                            }
                            let e = extent(&got, ops.dim).unwrap();
                            ensure!(same(&[e.0, e.1], &[l, h], ops.dim, t), "bounding box differs from the extent of the points");
                        }
                    }
                    ok = true;
                    Ok(())
                },
            );
            c.state(&(name, m.iter().flatten().map(|x| x.to_bits()).collect::<Vec<_>>()));
            if ok {
                go(c, name, &n, &m, big2, ops, acts, path, depth - 1, rest);
            }
            path.pop();
        }
    }
    let p = (ops.pts)(o);
    let rest = (ops.rest)(o);
    let big = p.iter().flatten().fold(u(), |m, x| m.max(x.abs()));
    go(c, name, o, &p, big, ops, &acts, &mut vec![], depth, &rest);
}
fn p3(p: &Point3D) -> V {
    vec![p.x, p.y, p.z]
}
fn p2(p: &Point2D) -> V {
    vec![p.x, p.y]
}
fn b3<T: HasBoundingBox3DMaybe>(t: &T) -> Option<(V, V)> {
    t.bounding_box_maybe().map(|b| (p3(&b.min_p()), p3(&b.max_p())))
}
fn b2<T: HasBoundingBox2DMaybe>(t: &T) -> Option<(V, V)> {
    t.bounding_box_maybe().map(|b| (p2(&b.min_p()), p2(&b.max_p())))
}
fn m3<T: IsMovable3D>(t: &mut T, v: &[f64]) {
    t.move_by(v[0], v[1], v[2])
}
fn m2<T: IsMovable2D>(t: &mut T, v: &[f64]) {
    t.move_by(v[0], v[1])
}
/// copies of a deque do not wrap around, so this is arranged right before moving
fn w3(t: &mut VecDeque<Point3D>, v: &[f64]) {
    let l: Vec<Point3D> = t.iter().cloned().collect();
    *t = wrapped(&l, (l.as_slice().iter().count() + 1) / 2);
    t.move_by(v[0], v[1], v[2])
}
fn w2(t: &mut VecDeque<Point2D>, v: &[f64]) {
    let l: Vec<Point2D> = t.iter().cloned().collect();
    *t = wrapped(&l, (l.as_slice().iter().count() + 1) / 2);
    t.move_by(v[0], v[1])
}
fn sc<T: IsScalable>(t: &mut T, f: Positive) {
    t.scale(f)
}
fn ce<T: HasBoundingBox3DMaybe + IsMovable3D>(t: &mut T) {
    center(t)
}
fn ss<T: HasBoundingBox3DMaybe + IsMatrix4Transformable>(t: &mut T, s: [Positive; 3]) {
    set_size(t, s)
}
const E: f64 = 1e-12;
fn none<T>(_: &T) -> String {
    String::new()
}
const L: [f64; 5] = [0.0, 1.0, -2.0, 0.1, 1000.0];
fn at3(i: usize, k: usize) -> Point3D {
    Point3D::new(L[i % k] * u(), L[i / k % k] * u(), L[i / k / k % k] * u())
}
fn at2(i: usize, k: usize) -> Point2D {
    Point2D::new(L[i % k] * u(), L[i / k % k] * u())
}
fn dirs(l: &Line3D) -> String {
    format!("{:?}", l.dir)
}
type M = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
type SM = SearchableMesh<M, Point3D, Vec<usize>>;
fn mpts<X: IsMesh<Point3D, Face3>>(m: &X) -> Vec<V> {
    (0..m.num_vertices()).map(|i| p3(&m.vertex(VId(i)).unwrap())).collect()
}
fn mfaces<X: IsMesh<Point3D, Face3>>(m: &X) -> String {
    format!("{:?}", (0..m.num_faces()).map(|i| m.face_vertex_ids(FId(i)).unwrap()).map(|f| (f.a, f.b, f.c)).collect::<Vec<_>>())
}
fn corners3(c: &Point3D, s: [f64; 3]) -> Vec<V> {
    (0..8).map(|k| vec![c.x + if k & 1 == 0 { -0.5 } else { 0.5 } * s[0], c.y + if k & 2 == 0 { -0.5 } else { 0.5 } * s[1], c.z + if k & 4 == 0 { -0.5 } else { 0.5 } * s[2]]).collect()
}
fn pos(x: f64) -> Positive {
    Positive::new(x * u()).unwrap()
}
fn main() {
    let mut gs = vec![];
    macro_rules! grp {
        ($name:expr, |$c:ident, $d:ident| $body:block) => {
            for k in [0, -40, 60, -110] {
                gs.push(g(format!("{} scaled by 2^{}", $name, k), move |$c| {
                    UNIT.with(|x| x.set(2f64.powi(k)));
                    let $d: usize = if k == 0 { $c.q(2, 3) } else { 2 };
                    $body
                }))
            }
        };
    }
    grp!("cloud3", |c, d| {
        let ops = Ops::<PointCloud3D<Point3D>> { dim: 3, pts: |t| t.data.iter().map(p3).collect(), rest: none, mv: Some(m3), sc: Some(sc), ce: Some(ce), ss: Some(ss), bb: Some(b3), eps: E };
        for len in 0..=c.q(2, 3) {
            tuples(27, len, |t| {
                let pc = PointCloud3D::from(t.iter().map(|i| at3(*i, 3)).collect::<Vec<_>>());
                run(c, "PointCloud3D", &pc, &ops, if len < 3 { d } else { 2 });
                !c.stopped()
            });
        }
    });
    for n in sizes(true) {
        gs.extend(parts(format!("large n={}", n), if n > 1000 { 8 } else { 1 }, move |c| {
            if !c.size(n, HUGE) {
                return;
            }
            UNIT.with(|x| x.set(1.0));
            let o3 = Ops::<PointCloud3D<Point3D>> { dim: 3, pts: |t| t.data.iter().map(p3).collect(), rest: none, mv: Some(m3), sc: Some(sc), ce: Some(ce), ss: Some(ss), bb: Some(b3), eps: E };
            let o2 = Ops::<PointCloud2D<Point2D>> { dim: 2, pts: |t| t.data.iter().map(p2).collect(), rest: none, mv: Some(m2), sc: Some(sc), ce: None, ss: None, bb: Some(b2), eps: E };
            let op = Ops::<Polygon3D<Point3D>> { dim: 3, pts: |t| (0..t.num_vertices()).map(|i| p3(&t.vertex(VId(i)).unwrap())).collect(), rest: none, mv: Some(m3), sc: Some(sc), ce: Some(ce), ss: Some(ss), bb: Some(b3), eps: E };
            let of = Ops::<PointCloud3Df32<Point3D>> {
                dim: 3,
                pts: |t| t.data.chunks(3).map(|x| x.iter().map(|y| *y as f64).collect()).collect(),
                rest: |t| format!("{} {}", t.len_d(), t.data.len()),
                mv: Some(m3), sc: None, ce: Some(ce), ss: None, bb: Some(b3), eps: 1e-6,
            };
            let om = Ops::<M> { dim: 3, pts: mpts, rest: mfaces, mv: Some(m3), sc: Some(sc), ce: Some(ce), ss: Some(ss), bb: Some(b3), eps: E };
            let ov = Ops::<Vec<Point3D>> { dim: 3, pts: |t| (0..<Vec<Point3D>>::len(t)).map(|i| p3(&t[i])).collect(), rest: none, mv: Some(m3), sc: None, ce: None, ss: None, bb: None, eps: E };
            for (name, v) in patterns(n) {
                if n >= HUGE && name != "residues" {
                    continue;
                }
                let v: Vec<Point3D> = v.as_slice().iter().map(|p| Point3D::new(p[0] as f64, p[1] as f64 - 0.3, p[2] as f64 * 0.5)).collect();
                let pc = PointCloud3D::from(v.clone());
                run(c, name, &pc, &o3, 2);
                run(c, name, &PointCloud2D::from(v.as_slice().iter().map(|p| Point2D::new(p.x, p.y)).collect::<Vec<_>>()), &o2, 2);
                run(c, name, &Polygon3D::from(pc), &op, 2);
                run(c, name, &v, &ov, 2);
                let od = Ops::<VecDeque<Point3D>> { dim: 3, pts: |t| (0..<VecDeque<Point3D>>::len(t)).map(|i| p3(&t[i])).collect(), rest: none, mv: Some(m3), sc: None, ce: None, ss: None, bb: None, eps: E };
                let odw = Ops::<VecDeque<Point3D>> { dim: 3, pts: |t| (0..<VecDeque<Point3D>>::len(t)).map(|i| p3(&t[i])).collect(), rest: none, mv: Some(w3), sc: None, ce: None, ss: None, bb: None, eps: E };
                let ol = Ops::<LinkedList<Point3D>> { dim: 3, pts: |t| t.iter().map(p3).collect(), rest: none, mv: Some(m3), sc: None, ce: None, ss: None, bb: None, eps: E };
                let ov2 = Ops::<Vec<Point2D>> { dim: 2, pts: |t| (0..<Vec<Point2D>>::len(t)).map(|i| p2(&t[i])).collect(), rest: none, mv: Some(m2), sc: None, ce: None, ss: None, bb: None, eps: E };
                let od2 = Ops::<VecDeque<Point2D>> { dim: 2, pts: |t| (0..<VecDeque<Point2D>>::len(t)).map(|i| p2(&t[i])).collect(), rest: none, mv: Some(m2), sc: None, ce: None, ss: None, bb: None, eps: E };
                let odw2 = Ops::<VecDeque<Point2D>> { dim: 2, pts: |t| (0..<VecDeque<Point2D>>::len(t)).map(|i| p2(&t[i])).collect(), rest: none, mv: Some(w2), sc: None, ce: None, ss: None, bb: None, eps: E };
                let ol2 = Ops::<LinkedList<Point2D>> { dim: 2, pts: |t| t.iter().map(p2).collect(), rest: none, mv: Some(m2), sc: None, ce: None, ss: None, bb: None, eps: E };
                let w: Vec<Point2D> = v.as_slice().iter().map(|p| Point2D::new(p.x, p.y)).collect();
                run(c, "VecDeque", &v.as_slice().iter().cloned().collect(), &od, 1);
                run(c, "wrapped VecDeque", &v.as_slice().iter().cloned().collect(), &odw, 1);
                run(c, "LinkedList", &v.as_slice().iter().cloned().collect(), &ol, 1);
                run(c, "Vec 2D", &w, &ov2, 1);
                run(c, "VecDeque 2D", &w.as_slice().iter().cloned().collect(), &od2, 1);
                run(c, "wrapped VecDeque 2D", &w.as_slice().iter().cloned().collect(), &odw2, 1);
                run(c, "LinkedList 2D", &w.as_slice().iter().cloned().collect(), &ol2, 1);
                let mut f = PointCloud3Df32::<Point3D>::new();
                let mut m = M::default();
                for p in v.as_slice() {
                    f.push(p.clone());
                    m.add_vertex(p.clone());
                }
                for i in 0..n - 2 {
                    m.try_add_connection(VId(i), VId(i + 1), VId((i * 7 + 2) % n)).ok();
                }
                // single precision keeps no more digits
                if v.as_slice().iter().all(|p| p.x.abs().max(p.y.abs()).max(p.z.abs()) < 2.0e4) {
                    run(c, name, &f, &of, 2);
                }
                run(c, name, &m, &om, if n > 100 && !c.thorough() { 1 } else { 2 });
            }
        }));
    }
    grp!("cloud3 long", |c, d| {
        let ops = Ops::<PointCloud3D<Point3D>> { dim: 3, pts: |t| t.data.iter().map(p3).collect(), rest: none, mv: Some(m3), sc: Some(sc), ce: Some(ce), ss: Some(ss), bb: Some(b3), eps: E };
        for k in 0..25 {
            let pc = PointCloud3D::from((0..=(k % 5)).map(|i| at3(i * 31 + k * 17, 5)).collect::<Vec<_>>());
            run(c, "PointCloud3D", &pc, &ops, d + 1);
        }
    });
    grp!("cloud3 f32", |c, d| {
        let ops = Ops::<PointCloud3Df32<Point3D>> {
            dim: 3,
            pts: |t| t.data.chunks(3).map(|x| x.iter().map(|y| *y as f64).collect()).collect(),
            rest: |t| format!("{} {}", t.len_d(), t.data.len()),
            mv: Some(m3),
            sc: None,
            ce: Some(ce),
            ss: None,
            bb: Some(b3),
            eps: 1e-6,
        };
        for len in 0..=c.q(2, 3) {
            tuples(27, len, |t| {
                let mut pc = PointCloud3Df32::<Point3D>::new();
                t.iter().for_each(|i| pc.push(at3(*i, 3)));
                run(c, "PointCloud3Df32", &pc, &ops, if len < 3 { d } else { 2 });
                !c.stopped()
            });
        }
    });
    grp!("cloud2", |c, d| {
        let ops = Ops::<PointCloud2D<Point2D>> { dim: 2, pts: |t| t.data.iter().map(p2).collect(), rest: none, mv: Some(m2), sc: Some(sc), ce: None, ss: None, bb: Some(b2), eps: E };
        for len in 0..=3 {
            tuples(c.q(9, 16), len, |t| {
                let pc = PointCloud2D::from(t.iter().map(|i| at2(*i, if c.thorough() { 4 } else { 3 })).collect::<Vec<_>>());
                run(c, "PointCloud2D", &pc, &ops, d);
                !c.stopped()
            });
        }
    });
    grp!("polygons", |c, d| {
        let o2 = Ops::<Polygon2D<Point2D>> { dim: 2, pts: |t| (0..t.num_vertices()).map(|i| p2(&t.vertex(VId(i)).unwrap())).collect(), rest: none, mv: Some(m2), sc: Some(sc), ce: None, ss: None, bb: Some(b2), eps: E };
        let o3 = Ops::<Polygon3D<Point3D>> { dim: 3, pts: |t| (0..t.num_vertices()).map(|i| p3(&t.vertex(VId(i)).unwrap())).collect(), rest: none, mv: Some(m3), sc: Some(sc), ce: Some(ce), ss: Some(ss), bb: Some(b3), eps: E };
        for len in 0..=3 {
            tuples(4, len, |t| {
                let p = Polygon2D::from(PointCloud2D::from(t.iter().map(|i| at2(*i * 5, 3)).collect::<Vec<_>>()));
                run(c, "Polygon2D", &p, &o2, d);
                let p = Polygon3D::from(PointCloud3D::from(t.iter().map(|i| at3(*i * 7, 3)).collect::<Vec<_>>()));
                run(c, "Polygon3D", &p, &o3, d);
                !c.stopped()
            });
        }
    });
    grp!("points, segments, lines, rays", |c, d| {
        let op3 = Ops::<Point3D> { dim: 3, pts: |t| vec![p3(t)], rest: none, mv: Some(m3), sc: None, ce: None, ss: None, bb: None, eps: E };
        let op2 = Ops::<Point2D> { dim: 2, pts: |t| vec![p2(t)], rest: none, mv: Some(m2), sc: None, ce: None, ss: None, bb: None, eps: E };
        let os3 = Ops::<LineSegment3D> { dim: 3, pts: |t| vec![p3(&t.start), p3(&t.end)], rest: none, mv: Some(m3), sc: Some(sc), ce: Some(ce), ss: Some(ss), bb: Some(b3), eps: E };
        let os2 = Ops::<LineSegment2D> { dim: 2, pts: |t| vec![p2(&t.start), p2(&t.end)], rest: none, mv: Some(m2), sc: Some(sc), ce: None, ss: None, bb: Some(b2), eps: E };
        for i in 0..125 {
            run(c, "Point3D", &at3(i, 5), &op3, d);
        }
        for i in 0..25 {
            run(c, "Point2D", &at2(i, 5), &op2, d + 1);
        }
        for i in 0..27 {
            for j in 0..27 {
                run(c, "LineSegment3D", &LineSegment3D::new(at3(i, 3), at3(j, 3)), &os3, d);
            }
        }
        for i in 0..25 {
            for j in 0..25 {
                run(c, "LineSegment2D", &LineSegment2D::new(at2(i, 5), at2(j, 5)), &os2, d);
            }
        }
        let ol3 = Ops::<Line3D> { dim: 3, pts: |t| vec![p3(&t.anchor)], rest: dirs, mv: Some(m3), sc: None, ce: None, ss: None, bb: None, eps: E };
        let or3 = Ops::<Ray3D> { dim: 3, pts: |t| vec![p3(&t.line.anchor)], rest: |t| dirs(&t.line), mv: Some(m3), sc: None, ce: None, ss: None, bb: None, eps: E };
        let ol2 = Ops::<Line2D> { dim: 2, pts: |t| vec![p2(&t.anchor)], rest: |t| format!("{:?}", t.dir), mv: Some(m2), sc: None, ce: None, ss: None, bb: None, eps: E };
        let or2 = Ops::<Ray2D> { dim: 2, pts: |t| vec![p2(&t.line.anchor)], rest: |t| format!("{:?}", t.line.dir), mv: Some(m2), sc: None, ce: None, ss: None, bb: None, eps: E };
        for i in 0..27 {
            for j in 1..27 {
                let l = Line3D::new(at3(i, 3), Norm3D::new(at3(j, 3)).unwrap());
                run(c, "Line3D", &l, &ol3, d);
                run(c, "Ray3D", &Ray3D::new(l), &or3, d);
                if i < 9 && j < 9 {
                    let l = Line2D::new(at2(i, 3), Norm2D::new(at2(j, 3)).unwrap());
                    run(c, "Line2D", &l, &ol2, d);
                    run(c, "Ray2D", &Ray2D::new(l), &or2, d);
                }
            }
        }
    });
    grp!("boxes and round shapes", |c, d| {
        let sizes = [0.5, 1.0, 3.0, 0.1];
        let ob3 = Ops::<Box3D> { dim: 3, pts: |t| corners3(&t.center, [*t.size_x, *t.size_y, *t.size_z]), rest: none, mv: Some(m3), sc: Some(sc), ce: Some(ce), ss: None, bb: Some(b3), eps: E };
        let ob2 = Ops::<Box2D> {
            dim: 2,
            pts: |t| corners3(&Point3D::new(t.center.x, t.center.y, 0.0), [*t.size_x, *t.size_y, 0.0]).into_iter().map(|p| p[..2].to_vec()).collect(),
            rest: none, mv: Some(m2), sc: Some(sc), ce: None, ss: None, bb: Some(b2), eps: E,
        };
        let obb3 = Ops::<BoundingBox3D> { dim: 3, pts: |t| vec![p3(&t.min_p()), p3(&t.max_p())], rest: none, mv: Some(m3), sc: Some(sc), ce: Some(ce), ss: None, bb: Some(b3), eps: E };
        let obb2 = Ops::<BoundingBox2D> { dim: 2, pts: |t| vec![p2(&t.min_p()), p2(&t.max_p())], rest: none, mv: Some(m2), sc: Some(sc), ce: None, ss: None, bb: Some(b2), eps: E };
        let os = Ops::<Sphere> {
            dim: 3,
            pts: |t| corners3(&t.center, [2.0 * *t.radius; 3]),
            rest: none, mv: None, sc: Some(sc), ce: None, ss: None, bb: Some(b3), eps: E,
        };
        let oc = Ops::<Circle> {
            dim: 2,
            pts: |t| corners3(&Point3D::new(t.center.x, t.center.y, 0.0), [2.0 * *t.radius; 3]).into_iter().map(|p| p[..2].to_vec()).collect(),
            rest: none, mv: None, sc: Some(sc), ce: None, ss: None, bb: Some(b2), eps: E,
        };
        let ou = Ops::<BoxUnaligned3D> {
            dim: 3,
            pts: |t| {
                let mut v = vec![];
                t.for_each_point(&mut |p: &Point3D| v.push(p3(p)));
                v
            },
            rest: |t| format!("{:?} {:?} {:?}", t.y_dir, t.z_dir, t.size), mv: Some(m3), sc: None, ce: Some(ce), ss: None, bb: Some(b3), eps: E,
        };
        for i in (0..125).step_by(c.q(3, 1)) {
            for k in 0..64 {
                let s = [sizes[k % 4], sizes[k / 4 % 4], sizes[k / 16]];
                let b = Box3D { center: at3(i, 5), size_x: pos(s[0]), size_y: pos(s[1]), size_z: pos(s[2]) };
                run(c, "Box3D", &b, &ob3, d);
                run(c, "BoundingBox3D", &b.bounding_box(), &obb3, d);
                if i < 25 && k < 16 {
                    let b = Box2D { center: at2(i, 5), size_x: pos(s[0]), size_y: pos(s[1]) };
                    run(c, "Box2D", &b, &ob2, d + 1);
                    run(c, "BoundingBox2D", &b.bounding_box(), &obb2, d + 1);
                }
                if k < 4 {
                    run(c, "Sphere", &Sphere { center: at3(i, 5), radius: pos(s[0]) }, &os, d + 2);
                    run(c, "Circle", &Circle { center: at2(i, 5), radius: pos(s[0]) }, &oc, d + 2);
                    for r in 0..8 {
                        run(c, "BoxUnaligned3D", &BoxUnaligned3D::new_from_z_rotation(&at3(i, 5), [pos(s[0]), pos(1.0), pos(2.0)], r as f64 * std::f64::consts::FRAC_PI_8), &ou, d);
                    }
                }
            }
        }
        if u() != 1.0 {
            return;
        }
        c.case(|| "scaled filters".into(), |c| {
            // a scaled filter accepts exactly what the scaled shape contains
            for k in 0..4 {
                for f in FACTORS {
                    let f = pos(f);
                    let (mut f3, mut s3) = (FilterBox3D::new(Box3D { center: at3(k, 5), size_x: pos(1.0), size_y: pos(2.0), size_z: pos(0.5) }), FilterSphere::new(Sphere { center: at3(k, 5), radius: pos(1.5) }));
                    let (mut f2, mut s2) = (FilterBox2D::new(Box2D { center: at2(k, 5), size_x: pos(1.0), size_y: pos(2.0) }), FilterCircle::new(Circle { center: at2(k, 5), radius: pos(1.5) }));
                    f3.scale(f);
                    s3.scale(f);
                    f2.scale(f);
                    s2.scale(f);
                    let mut all = PointCloud3D::new();
                    for i in 0..17usize.pow(3) {
                        let o = |j: usize| (j as f64 - 8.0) * 0.40625;
                        let (dx, dy, dz) = (o(i % 17), o(i / 17 % 17), o(i / 289));
                        c.trans(4);
                        let p = Point3D::new(at3(k, 5).x + dx, at3(k, 5).y + dy, at3(k, 5).z + dz);
                        all.push(p.clone());
                        let q = Point2D::new(at2(k, 5).x + dx, at2(k, 5).y + dy);
                        let near = |d: f64, lim: f64| (d - lim).abs() < 1e-9;
                        let bx = [(dx.abs(), 0.5 * *f), (dy.abs(), *f), (dz.abs(), 0.25 * *f)];
                        if bx.iter().all(|(a, b)| !near(*a, *b)) {
                            ensure!(IsFilter::<Point3D>::is_allowed(&f3, &p) == bx.iter().all(|(a, b)| a < b), "scaled box filter by {:?} at {:?}", f, p);
                            ensure!(IsFilter::<Point2D>::is_allowed(&f2, &q) == bx[..2].iter().all(|(a, b)| a < b), "scaled 2D box filter by {:?} at {:?}", f, q);
                        }
                        let (r3, r2) = ((dx * dx + dy * dy + dz * dz).sqrt(), (dx * dx + dy * dy).sqrt());
                        if !near(r3, 1.5 * *f) {
                            ensure!(IsFilter::<Point3D>::is_allowed(&s3, &p) == (r3 < 1.5 * *f), "scaled sphere filter by {:?} at {:?}", f, p);
                        }
                        if !near(r2, 1.5 * *f) {
                            ensure!(IsFilter::<Point2D>::is_allowed(&s2, &q) == (r2 < 1.5 * *f), "scaled circle filter by {:?} at {:?}", f, q);
                        }
                    }
                    // outlier filter: scaling multiplies its search distance
                    for n in 1..4usize {
                        let mut tree = KdTree::<Point3D>::default();
                        let base = PointCloud3D::from(vec![Point3D::new(0.0, 0.0, 0.0), Point3D::new(1.0, 0.0, 0.0), Point3D::new(0.0, 1.9, 0.0), Point3D::new(0.0, 0.0, 0.55)]);
                        tree.build(base.clone()).map_err(|_| "build")?;
                        let mut of = FilterOutlier3D::new(tree, pos(1.05), n);
                        of.scale(f);
                        for i in 0..125 {
                            let p = Point3D::new((i % 5) as f64 * 0.37 - 0.2, (i / 5 % 5) as f64 * 0.41 - 0.3, (i / 25) as f64 * 0.43 - 0.4);
                            let near = base.data.iter().filter(|q| dist_3d(*q, &p) <= 1.05 * *f).count();
                            ensure!(of.is_allowed(&p) == (near >= n), "scaled outlier filter by {:?} at {:?}: {} neighbours, {} required", f, p, near, n);
                        }
                    }
                }
            }
            Ok(())
        });
    });
    grp!("meshes", |c, d| {
        let om = Ops::<M> { dim: 3, pts: mpts, rest: mfaces, mv: Some(m3), sc: Some(sc), ce: Some(ce), ss: Some(ss), bb: Some(b3), eps: E };
        let osm = Ops::<SM> {
            dim: 3,
            pts: mpts,
            rest: |m| format!("{} {:?}", mfaces(m), (0..m.num_edges()).map(|e| (m.edge_tail(EId(e)), m.edge_twin(EId(e)))).collect::<Vec<_>>()),
            mv: None, sc: Some(sc), ce: None, ss: None, bb: Some(b3), eps: E,
        };
        // flat, solid and two-face meshes
        for k in 0..c.q(81usize, 729) {
            let mut m = M::default();
            for i in 0..4 {
                m.add_vertex(at3(i * i * 3 + k * (i + 1), 3));
            }
            m.try_add_connection(VId(0), VId(1), VId(2)).map_err(|_| "connection").unwrap();
            if k % 2 == 0 {
                m.try_add_connection(VId(0), VId(2), VId(3)).map_err(|_| "connection").unwrap();
            }
            run(c, "Mesh3D", &m, &om, d);
            run(c, "SearchableMesh", &SM::new(m), &osm, d + 1);
        }
    });
    grp!("collections of movables", |c, d| {
        let ov = Ops::<Vec<Point3D>> { dim: 3, pts: |t| (0..<Vec<Point3D>>::len(t)).map(|i| p3(&t[i])).collect(), rest: none, mv: Some(m3), sc: None, ce: None, ss: None, bb: None, eps: E };
        let od = Ops::<VecDeque<Point3D>> { dim: 3, pts: |t| (0..<VecDeque<Point3D>>::len(t)).map(|i| p3(&t[i])).collect(), rest: none, mv: Some(m3), sc: None, ce: None, ss: None, bb: None, eps: E };
        let odw = Ops::<VecDeque<Point3D>> { dim: 3, pts: |t| (0..<VecDeque<Point3D>>::len(t)).map(|i| p3(&t[i])).collect(), rest: none, mv: Some(w3), sc: None, ce: None, ss: None, bb: None, eps: E };
        let ol = Ops::<LinkedList<Point3D>> { dim: 3, pts: |t| t.iter().map(p3).collect(), rest: none, mv: Some(m3), sc: None, ce: None, ss: None, bb: None, eps: E };
        let ov2 = Ops::<Vec<Point2D>> { dim: 2, pts: |t| (0..<Vec<Point2D>>::len(t)).map(|i| p2(&t[i])).collect(), rest: none, mv: Some(m2), sc: None, ce: None, ss: None, bb: None, eps: E };
        let od2 = Ops::<VecDeque<Point2D>> { dim: 2, pts: |t| (0..<VecDeque<Point2D>>::len(t)).map(|i| p2(&t[i])).collect(), rest: none, mv: Some(m2), sc: None, ce: None, ss: None, bb: None, eps: E };
        let odw2 = Ops::<VecDeque<Point2D>> { dim: 2, pts: |t| (0..<VecDeque<Point2D>>::len(t)).map(|i| p2(&t[i])).collect(), rest: none, mv: Some(w2), sc: None, ce: None, ss: None, bb: None, eps: E };
        let ol2 = Ops::<LinkedList<Point2D>> { dim: 2, pts: |t| t.iter().map(p2).collect(), rest: none, mv: Some(m2), sc: None, ce: None, ss: None, bb: None, eps: E };
        for len in 0..=4 {
            tuples(4, len, |t| {
                let v: Vec<Point3D> = t.iter().map(|i| at3(*i * 9 + 1, 3)).collect();
                let w: Vec<Point2D> = t.iter().map(|i| at2(*i * 2 + 1, 3)).collect();
                run(c, "Vec", &v, &ov, d + 1);
                run(c, "VecDeque", &v.iter().cloned().collect(), &od, d);
                run(c, "wrapped VecDeque", &v.iter().cloned().collect(), &odw, d);
                run(c, "LinkedList", &v.iter().cloned().collect(), &ol, d);
                run(c, "Vec 2D", &w, &ov2, d + 1);
                run(c, "VecDeque 2D", &w.iter().cloned().collect(), &od2, d);
                run(c, "wrapped VecDeque 2D", &w.iter().cloned().collect(), &odw2, d);
                run(c, "LinkedList 2D", &w.iter().cloned().collect(), &ol2, d);
                !c.stopped()
            });
        }
    });
    mc::main(
        Spec {
            prop: "C36",
            level: "model_checking",
            rule: "all sequences of move/scale/center/resize operations up to the stated depth applied to every movable or scalable type (all small objects over a lattice, in units of 2^-110 to 2^60, and structured ones of up to 300 (thorough 4097) points), each compared with the definition applied to the list of its points; states = distinct (type, point list), transitions = operations",
            assumptions: &["coordinates whose squares neither overflow nor underflow, tolerance 1e-12 relative to the largest coordinate (1e-6 for single precision clouds)"],
        },
        gs,
    )
}
