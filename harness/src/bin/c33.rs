//! C33: collisions between boxes, rotated boxes and triangles, and of what is built from them.
use mc::*;
use rust_3d::*;
use std::collections::{LinkedList, VecDeque};

type V = [f64; 3];
fn add(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn mul(a: V, f: f64) -> V {
    [a[0] * f, a[1] * f, a[2] * f]
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn crs(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn unit(a: V) -> V {
    mul(a, 1.0 / dot(a, a).sqrt())
}
const EPS: f64 = 1e-6;

/// description of a collider: everything needed to build it and its own geometry
#[derive(Clone, Debug)]
enum D {
    Aabb(V, V),
    Box3 { c: V, y: V, z: V, s: V },
    Face([V; 3]),
}
/// closed convex set: corner polygons and half spaces (n, d): dot(n, x) <= d
struct G {
    faces: Vec<Vec<V>>,
    half: Vec<(V, f64)>,
    solid: bool,
    inner: V,
}
fn p3(a: V) -> Point3D {
    Point3D::new(a[0], a[1], a[2])
}
fn frame(y: V, z: V) -> [V; 3] {
    [crs(z, y), y, z]
}
fn solid_box(c: V, f: [V; 3], s: V) -> G {
    let h: Vec<V> = (0..3).map(|k| mul(f[k], 0.5 * s[k])).collect();
    let mut faces = vec![];
    let mut half = vec![];
    for k in 0..3 {
        let (u, v) = (h[(k + 1) % 3], h[(k + 2) % 3]);
        for sg in [-1.0, 1.0] {
            let m = add(c, mul(h[k], sg));
            faces.push(vec![add(add(m, u), v), add(sub(m, u), v), sub(sub(m, u), v), sub(add(m, u), v)]);
            half.push((mul(f[k], sg), sg * dot(f[k], c) + 0.5 * s[k]));
        }
    }
    G { faces, half, solid: true, inner: c }
}
impl D {
    fn build(&self) -> Collider3D {
        match self {
            D::Aabb(a, b) => Collider3D::AABB(BoundingBox3D::new(&p3(*a), &p3(*b)).ok().unwrap()),
            D::Box3 { c, y, z, s } => Collider3D::Box3(BoxUnaligned3D {
                center: p3(*c),
                y_dir: Norm3D::new(p3(*y)).ok().unwrap(),
                z_dir: Norm3D::new(p3(*z)).ok().unwrap(),
                size: s.map(|x| Positive::new(x).unwrap()),
            }),
            D::Face(t) => Collider3D::Face(TriFace3D::new(p3(t[0]), p3(t[1]), p3(t[2])).ok().unwrap()),
        }
    }
    fn geo(&self) -> G {
        match self {
            D::Aabb(a, b) => solid_box(mul(add(*a, *b), 0.5), [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], sub(*b, *a)),
            D::Box3 { c, y, z, s } => solid_box(*c, frame(unit(*y), unit(*z)), *s),
            D::Face(t) => {
                let n = unit(crs(sub(t[1], t[0]), sub(t[2], t[1])));
                let mut half = vec![(n, dot(n, t[0])), (mul(n, -1.0), -dot(n, t[0]))];
                for k in 0..3 {
                    let o = unit(crs(sub(t[(k + 1) % 3], t[k]), n));
                    half.push((o, dot(o, t[k])));
                }
                G { faces: vec![t.to_vec()], half, solid: false, inner: mul(add(add(t[0], t[1]), t[2]), 1.0 / 3.0) }
            }
        }
    }
    fn key(&self) -> Vec<u64> {
        let f = |v: &V, r: &mut Vec<u64>| r.extend(v.iter().map(|x| x.to_bits()));
        let mut r = vec![];
        match self {
            D::Aabb(a, b) => [a, b].iter().for_each(|v| f(v, &mut r)),
            D::Box3 { c, y, z, s } => [c, y, z, s].iter().for_each(|v| f(v, &mut r)),
            D::Face(t) => t.iter().for_each(|v| f(v, &mut r)),
        }
        r
    }
}
/// whether some of the polygon lies within the half spaces widened by w
fn clip(poly: &[V], half: &[(V, f64)], w: f64) -> bool {
    let mut p = poly.to_vec();
    for (n, d) in half {
        let mut q = vec![];
        let m = p.as_slice().iter().count();
        for i in 0..m {
            let (a, b) = (p[i], p[(i + 1) % m]);
            let (da, db) = (dot(*n, a) - d - w, dot(*n, b) - d - w);
            if da <= 0.0 {
                q.push(a);
            }
            if (da < 0.0 && db > 0.0) || (da > 0.0 && db < 0.0) {
                q.push(add(a, mul(sub(b, a), da / (da - db))));
            }
        }
        if q.as_slice().iter().count() == 0 {
            return false;
        }
        p = q;
    }
    true
}
fn inside(x: V, half: &[(V, f64)], w: f64) -> bool {
    half.iter().all(|(n, d)| dot(*n, x) <= d + w)
}
/// an edge of a pierces the triangle b with a margin
fn pierces(a: &[V], b: &G) -> bool {
    (0..3).any(|i| {
        let (p, q) = (a[i], a[(i + 1) % 3]);
        let (n, d) = b.half[0];
        let (dp, dq) = (dot(n, p) - d, dot(n, q) - d);
        dp.min(dq) < -EPS && dp.max(dq) > EPS && inside(add(p, mul(sub(q, p), dp / (dp - dq))), &b.half[2..], -EPS)
    })
}
/// Some(true): they interpenetrate, Some(false): there is a gap, None: they (almost) just touch
fn truth(a: &G, b: &G) -> Option<bool> {
    let meet = |x: &G, y: &G, w: f64| x.faces.as_slice().iter().any(|f| clip(f, &y.half, w));
    if !meet(a, b, EPS) && !meet(b, a, EPS) && !inside(a.inner, &b.half, EPS) && !inside(b.inner, &a.half, EPS) {
        return Some(false);
    }
    let deep = match (a.solid, b.solid) {
        (true, true) => meet(a, b, -EPS) || meet(b, a, -EPS) || inside(a.inner, &b.half, -EPS) || inside(b.inner, &a.half, -EPS),
        (true, false) => meet(b, a, -EPS),
        (false, true) => meet(a, b, -EPS),
        (false, false) => pierces(&a.faces[0], b) || pierces(&b.faces[0], a),
    };
    if deep {
        Some(true)
    } else {
        None
    }
}
struct Obj(Vec<D>);
impl HasBoundingBox3DMaybe for Obj {
    fn bounding_box_maybe(&self) -> Option<BoundingBox3D> {
        Some(self.bounding_box())
    }
}
impl Clone for Obj {
    fn clone(&self) -> Self {
        Obj(self.0.clone())
    }
}
impl HasBoundingBox3D for Obj {
    fn bounding_box(&self) -> BoundingBox3D {
        let mut r: Option<BoundingBox3D> = None;
        for d in self.0.as_slice() {
            let b = d.build().bounding_box();
            r = Some(match r {
                None => b,
                Some(x) => x.combine(&&b),
            });
        }
        r.unwrap()
    }
}
impl HasColliders3D for Obj {
    fn has_additional_colliders(&self) -> bool {
        !self.plain()
    }
    fn with_colliders(&self, f: &mut dyn FnMut(&Collider3D)) {
        self.0.as_slice().iter().for_each(|d| f(&d.build()))
    }
}
impl Obj {
    /// just its bounding box counts
    fn plain(&self) -> bool {
        self.0.as_slice().iter().all(|d| matches!(d, D::Aabb(..)))
    }
    fn parts(&self) -> Vec<D> {
        if self.plain() {
            let b = self.bounding_box();
            vec![D::Aabb([b.min_p().x, b.min_p().y, b.min_p().z], [b.max_p().x, b.max_p().y, b.max_p().z])]
        } else {
            self.0.clone()
        }
    }
}
fn any_truth(a: &[D], b: &[D]) -> Option<bool> {
    let mut r = Some(false);
    for x in a {
        for y in b {
            match truth(&x.geo(), &y.geo()) {
                Some(true) => return Some(true),
                None => r = None,
                _ => {}
            }
        }
    }
    r
}
fn check(c: &mut Ctx, a: &D, b: &D, ga: &G, gb: &G) {
    c.state(&(a.key(), b.key()));
    c.case(
        || format!("{:?} with {:?}", a, b),
        |c| {
            let (x, y) = (a.build(), b.build());
            c.trans(2);
            let r = x.collides_with(&y);
            ensure!(r == y.collides_with(&x), "collision is not symmetric: {} and {}", r, !r);
            ensure!(r == HasColliders3D::collides_with(&x, &y), "as objects: {}", !r);
            ensure!(r == HasColliders3D::collides_with_collider(&y, &x), "as object and collider: {}", !r);
            if let (D::Aabb(l1, h1), D::Aabb(l2, h2)) = (a, b) {
                let want = (0..3).all(|k| l1[k] < h2[k] && l2[k] < h1[k]);
                ensure!(r == want, "reported {}, overlap {}", r, want);
                return Ok(());
            }
            match truth(ga, gb) {
                None => c.note("touching", 1),
                Some(t) => {
                    c.note(if t { "colliding" } else { "separated" }, 1);
                    ensure!(r == t, "reported {}, expected {}", r, t);
                }
            }
            Ok(())
        },
    );
}
fn tris(n: usize, pts: &[V]) -> Vec<D> {
    let _ = n;
    let mut r = vec![];
    let m = pts.len();
    for i in 0..m {
        for j in i + 1..m {
            for k in j + 1..m {
                let t = [pts[i], pts[j], pts[k]];
                let flat = (0..3).any(|d| t[0][d] == t[1][d] && t[1][d] == t[2][d]);
                let cr = crs(sub(t[1], t[0]), sub(t[2], t[0]));
                if !flat && dot(cr, cr) > 1e-9 {
                    r.push(D::Face(t));
                }
            }
        }
    }
    r
}
fn lattice(l: &[f64], off: V, f: f64) -> Vec<V> {
    let n = l.len();
    (0..n * n * n).map(|i| add(off, mul([l[i % n], l[i / n % n], l[i / n / n]], f))).collect()
}
fn aabbs(l: &[f64]) -> Vec<D> {
    let mut iv = vec![];
    for i in 0..l.len() {
        for j in i + 1..l.len() {
            iv.push((l[i], l[j]));
        }
    }
    let n = iv.as_slice().iter().count();
    (0..n * n * n).map(|i| (iv[i % n], iv[i / n % n], iv[i / n / n])).map(|(x, y, z)| D::Aabb([x.0, y.0, z.0], [x.1, y.1, z.1])).collect()
}
fn rotated(thorough: bool) -> Vec<D> {
    let mut r = vec![];
    let dirs: Vec<V> = (0..27).map(|i| [(i % 3) as f64 - 1.0, (i / 3 % 3) as f64 - 1.0, (i / 9) as f64 - 1.0]).filter(|v| dot(*v, *v) > 0.0).collect();
    let mut frames = vec![];
    for y in dirs.as_slice() {
        for z in dirs.as_slice() {
            if dot(*y, *z) == 0.0 && frames.as_slice().iter().count() < if thorough { 1000 } else { 24 } {
                frames.push((*y, *z));
            }
        }
    }
    frames.push(([0.6, 0.8, 0.0], [0.0, 0.0, 1.0]));
    frames.push(([0.0, 0.28, 0.96], [1.0, 0.0, 0.0]));
    frames.push(([2.0, -1.0, 2.0], [1.0, 2.0, 0.0]));
    for (i, (y, z)) in frames.into_iter().enumerate() {
        for (j, s) in [[1.0, 1.0, 1.0], [3.0, 0.25, 0.25], [0.125, 2.0, 2.0]].into_iter().enumerate() {
            for (k, c) in [[0.0, 0.0, 0.0], [1.0, 0.5, -0.25], [0.5, 1.5, 1.0], [-1.25, 0.75, 0.5], [100.0, -50.0, 25.0]].into_iter().enumerate() {
                if thorough || (i + j + k) % 2 == 0 {
                    r.push(D::Box3 { c, y, z, s });
                }
            }
        }
    }
    r
}
fn all_pairs(c: &mut Ctx, a: &[D], b: &[D]) {
    let gb: Vec<G> = b.iter().map(|x| x.geo()).collect();
    for x in a {
        let gx = x.geo();
        for (y, gy) in b.iter().zip(gb.as_slice()) {
            check(c, x, y, &gx, gy);
        }
        if c.stopped() {
            return;
        }
    }
}
impl D {
    /// scaled by a power of two
    fn scaled(&self, f: f64) -> D {
        match self {
            D::Aabb(a, b) => D::Aabb(mul(*a, f), mul(*b, f)),
            D::Box3 { c, y, z, s } => D::Box3 { c: mul(*c, f), y: *y, z: *z, s: mul(*s, f) },
            D::Face(t) => D::Face(t.map(|p| mul(p, f))),
        }
    }
    fn moved(&self, m: V) -> D {
        match self {
            D::Aabb(a, b) => D::Aabb(add(*a, m), add(*b, m)),
            D::Box3 { c, y, z, s } => D::Box3 { c: add(*c, m), y: *y, z: *z, s: *s },
            D::Face(t) => D::Face(t.map(|p| add(p, m))),
        }
    }
}
fn mixed() -> Vec<D> {
    let mut r = aabbs(&[-1.0, 0.5, 2.5]);
    r.extend(rotated(false).into_iter().step_by(5));
    r.extend(tris(0, &lattice(&[-1.0, 0.0, 1.0], [0.25, 0.5, 0.0], 1.0)).into_iter().step_by(37));
    r
}
fn main() {
    let mut gs = vec![];
    gs.push(g("axis aligned boxes", |c| {
        let a = aabbs(&[-0.5, 0.0, 1.0, 3.0]);
        all_pairs(c, &a, &a);
        let b = aabbs(&[0.1, 0.3, 1e6]);
        all_pairs(c, &b, &b);
        all_pairs(c, &a, &b);
    }));
    // boxes whose borders differ by a tolerance of any size
    for axis in 0..3usize {
        gs.push(g(format!("close axis aligned boxes {}", axis), move |c| {
            for l in ladders() {
                let mut a: Vec<D> = vec![];
                for i in 0..6usize {
                    for j in i + 1..6 {
                        let (mut lo, mut hi) = ([-1.0; 3], [2.0; 3]);
                        lo[axis] = l[i];
                        hi[axis] = l[j];
                        a.push(D::Aabb(lo, hi));
                    }
                }
                all_pairs(c, &a, &a);
            }
        }));
    }
    for part in 0..8usize {
        gs.push(g(format!("faces with faces {}", part), move |c| {
            let a = tris(0, &lattice(&[0.0, 1.0, 2.0], [0.0; 3], 1.0));
            let mut b = tris(0, &lattice(&[0.0, 1.0], [0.25, 0.5, -0.25], c.q(1.5, 1.5)));
            b.extend(tris(0, &lattice(&[0.0, 1.0], [1.5, 0.5, 0.75], 4.0)));
            if c.thorough() {
                b.extend(tris(0, &lattice(&[0.0, 1.0, 2.0], [0.375, 0.75, 0.125], 0.75)));
                b.extend(tris(0, &lattice(&[0.0, 1.0, 2.0], [0.0, 0.0, 0.0], 1.0)));
            }
            let mine: Vec<D> = a.into_iter().enumerate().filter(|(i, _)| i % 8 == part).map(|(_, d)| d).collect();
            all_pairs(c, &mine, &b);
        }));
        gs.push(g(format!("faces with axis aligned boxes {}", part), move |c| {
            let a = tris(0, &lattice(&[-1.0, 0.5, 2.0], [0.0; 3], 1.0));
            let b = aabbs(&[0.0, 1.0, 1.75, 3.0][..c.q(3, 4)]);
            let mine: Vec<D> = a.into_iter().enumerate().filter(|(i, _)| i % 8 == part).map(|(_, d)| d).collect();
            all_pairs(c, &mine, &b);
        }));
        gs.push(g(format!("rotated boxes {}", part), move |c| {
            let r = rotated(c.thorough());
            let mine: Vec<D> = r.as_slice().iter().enumerate().filter(|(i, _)| i % 8 == part).map(|(_, d)| d.clone()).collect();
            all_pairs(c, &mine, &r);
            all_pairs(c, &mine, &aabbs(&[-1.0, 0.5, 2.5]));
            all_pairs(c, &mine, &tris(0, &lattice(&[-1.0, 1.0], [0.25, 0.5, 0.0], 1.0)));
            all_pairs(c, &tris(0, &lattice(&[-0.5, 0.0, 1.0], [0.1, 0.2, 0.4], 1.0)), &mine.as_slice().iter().step_by(c.q(7, 1)).cloned().collect::<Vec<_>>());
        }));
    }
    gs.push(g("rotation around z and boxes from bounding boxes", |c| {
        let t = tris(0, &lattice(&[-1.0, 1.0], [0.25, 0.5, 0.0], 1.0));
        for k in (-12..=24i32).chain((-240..=240).step_by(25)) {
            let phi = k as f64 * std::f64::consts::PI / 12.0;
            for s in [[1.0, 2.0, 0.5], [4.0, 0.125, 1.0]] {
                for ce in [[0.0, 0.0, 0.0], [0.75, -0.5, 0.25]] {
                    // y direction turned by the angle
                    let d = D::Box3 { c: ce, y: [phi.sin(), phi.cos(), 0.0], z: [0.0, 0.0, 1.0], s };
                    let real = BoxUnaligned3D::new_from_z_rotation(&p3(ce), s.map(|x| Positive::new(x).unwrap()), phi);
                    let gd = d.geo();
                    for other in t.as_slice().iter().cloned().chain(aabbs(&[0.0, 0.6, 2.0])) {
                        c.case(
                            || format!("z rotation {} of {:?} at {:?} with {:?}", phi, s, ce, other),
                            |c| {
                                c.trans(1);
                                let r = Collider3D::Box3(real.clone()).collides_with(&other.build());
                                if let Some(t) = truth(&gd, &other.geo()) {
                                    ensure!(r == t, "reported {}, expected {}", r, t);
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
        for a in aabbs(&[-0.5, 0.0, 1.0]) {
            for b in aabbs(&[-0.25, 0.5, 1.5, 4.0]) {
                c.case(
                    || format!("unaligned box of {:?} with {:?}", a, b),
                    |c| {
                        c.trans(1);
                        let bb = a.build().bounding_box();
                        let r = Collider3D::Box3(BoxUnaligned3D::new_from_bb(&bb));
                        let back = r.bounding_box();
                        ensure!((0..3).all(|k| close(back.min_p().position_nd(k).unwrap(), bb.min_p().position_nd(k).unwrap(), 1e-12) && close(back.max_p().position_nd(k).unwrap(), bb.max_p().position_nd(k).unwrap(), 1e-12)), "box of the unaligned box is {:?}", back);
                        if let Some(t) = truth(&a.geo(), &b.geo()) {
                            ensure!(r.collides_with(&b.build()) == t, "expected {}", t);
                        }
                        Ok(())
                    },
                );
            }
        }
    }));
    for part in 0..8usize {
        gs.push(g(format!("scaled and moved {}", part), move |c| {
            let all = mixed();
            let scales: Vec<i32> = if c.thorough() { (-200..=200).step_by(20).collect() } else { vec![-200, -40, 40, 200] };
            let moves: Vec<V> = [[0.0, 0.0, 0.0], [1024.0, -512.0, 256.0], [-0.5, 4096.0, -65536.0]].to_vec();
            for (i, a) in all.as_slice().iter().enumerate() {
                if i % 8 != part || c.stopped() {
                    continue;
                }
                for b in all.as_slice().iter() {
                    let t = truth(&a.geo(), &b.geo());
                    for m in moves.as_slice().iter() {
                        for k in scales.as_slice().iter() {
                            let f = 2f64.powi(*k);
                            let (x, y) = (a.moved(*m).scaled(f), b.moved(*m).scaled(f));
                            c.state(&(x.key(), y.key()));
                            c.case(
                                || format!("{:?} with {:?}", x, y),
                                |c| {
                                    c.trans(2);
                                    let (p, q) = (x.build(), y.build());
                                    let r = p.collides_with(&q);
                                    ensure!(r == q.collides_with(&p), "collision is not symmetric: {} and {}", r, !r);
                                    ensure!(t.map_or(true, |t| t == r), "reported {}, expected {:?}", r, t);
                                    // moving a rotated box moves its collisions
                                    if let (Collider3D::Box3(mut u), Some(t)) = (a.build(), t) {
                                        u.move_by(m[0], m[1], m[2]);
                                        let r = Collider3D::Box3(u).collides_with(&b.moved(*m).build());
                                        ensure!(r == t, "after moving reported {}, expected {}", r, t);
                                    }
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }
        }));
    }
    for part in 0..8usize {
        gs.push(g(format!("crossing slivers {}", part), move |c| {
            // long edges that cross each other at tiny angles
            let ks: Vec<i32> = if c.thorough() { (3..=14).collect() } else { vec![4, 8, 10, 12] };
            for k in ks {
                let l = 2f64.powi(k);
                let turn = |p: V| {
                    let mut r = [0.0; 3];
                    for d in 0..3 {
                        r[(d + k as usize) % 3] = p[d]
                    }
                    r
                };
                let mut a = vec![];
                let mut b = vec![];
                for x in [0.0, -0.5 * l] {
                    for y in [-4.0, -1.0, 1.0, 4.0] {
                        for z in [-4.0, -1.0, 1.0, 2.0] {
                            for p in [0.0, 1.0, 2.0] {
                                a.push(D::Face([[-l, -p, 0.0], [l, p, 0.0], [x, y, z]].map(turn)));
                                for up in [-1.0, 0.5, 1.0] {
                                    b.push(D::Face([[-l, p - 1.0, up], [l, 1.0 - p, up], [x, -y, up + z + 1.0]].map(turn)));
                                }
                            }
                        }
                    }
                }
                for f in [-1.0 / l, 0.0, 1.0 / l, 3.0 / l] {
                    for up in [-1.5, 0.25, 1.0] {
                        b.push(D::Box3 { c: turn([0.0, 0.0, up]), y: turn([-f, 1.0, 0.0]), z: turn([0.0, 0.0, 1.0]), s: [2.0 * l, 1.0, 1.0] });
                        b.push(D::Box3 { c: turn([0.0, 0.5, up]), y: turn([-f, 0.6, 0.8]), z: turn([0.0, -0.8, 0.6]), s: [2.0 * l, 1.0, 0.5] });
                    }
                }
                // the same flat triangle gives no collider
                let flat = |d: &D| match d {
                    D::Face(t) => (0..3).any(|i| t[0][i] == t[1][i] && t[1][i] == t[2][i]),
                    D::Box3 { y, z, .. } => dot(*y, *z) != 0.0,
                    _ => false,
                };
                a.retain(|x| !flat(x));
                b.retain(|x| !flat(x));
                let mine: Vec<D> = a.into_iter().enumerate().filter(|(i, _)| i % 8 == part).map(|(_, d)| d).collect();
                all_pairs(c, &mine, &b);
                if c.stopped() {
                    return;
                }
            }
        }));
    }
    // objects with several colliders and containers of them
    gs.push(g("composed objects and containers", |c| {
        let prim: Vec<D> = vec![
            D::Aabb([0.0, 0.0, 0.0], [1.0, 1.0, 1.0]),
            D::Aabb([1.0, 0.0, 0.0], [2.0, 1.0, 1.0]),
            D::Aabb([3.0, 3.0, 3.0], [4.0, 5.0, 6.0]),
            D::Box3 { c: [2.0, 2.0, 2.0], y: [1.0, 1.0, 0.0], z: [0.0, 0.0, 1.0], s: [1.0, 2.0, 1.0] },
            D::Box3 { c: [0.5, 0.5, 0.5], y: [0.0, 1.0, 1.0], z: [0.0, -1.0, 1.0], s: [0.25, 3.0, 0.25] },
            D::Face([[0.0, 0.0, 3.0], [3.0, 0.0, 0.0], [0.0, 3.0, 0.0]]),
            D::Face([[0.25, 0.25, -1.0], [0.5, 0.25, 2.0], [4.5, 4.5, 4.5]]),
        ];
        let mut objs: Vec<Obj> = vec![];
        let n = prim.as_slice().iter().count();
        for i in 0..n {
            objs.push(Obj(vec![prim[i].clone()]));
            for j in 0..n {
                if i != j {
                    objs.push(Obj(vec![prim[i].clone(), prim[j].clone()]));
                }
            }
        }
        let m = objs.as_slice().iter().count();
        for i in 0..m {
            for j in 0..m {
                let (a, b) = (&objs[i], &objs[j]);
                c.state(&(i, j));
                c.case(
                    || format!("object {:?} with {:?}", a.0, b.0),
                    |c| {
                        c.trans(3);
                        let r = a.collides_with(b);
                        if let Some(t) = any_truth(&a.parts(), &b.parts()) {
                            ensure!(r == t, "reported {}, expected {}", r, t);
                        }
                        ensure!(r == b.collides_with(a), "not symmetric");
                        let one = b.0[0].build();
                        if let Some(t) = any_truth(&a.parts(), &b.0[..1]) {
                            ensure!(a.collides_with_collider(&one) == t, "with its first collider: expected {}", t);
                        }
                        Ok(())
                    },
                );
            }
        }
        let len = c.q(2, 3);
        for l in 0..=len {
            tuples(m, l, |t| {
                if l == 3 && t[0] > 8 {
                    return false;
                }
                let list: Vec<Obj> = t.iter().map(|i| objs[*i].clone()).collect();
                for q in objs.as_slice().iter().step_by(if l == 3 { 6 } else { 3 }) {
                    c.state(&(t.to_vec(), q.0.as_slice().iter().map(|d| d.key()).collect::<Vec<_>>()));
                    c.case(
                        || format!("objects {:?} with {:?}", t, q.0),
                        |c| {
                            c.trans(8);
                            let mut want = Some(false);
                            for o in list.as_slice() {
                                match any_truth(&o.parts(), &q.parts()) {
                                    Some(true) => {
                                        want = Some(true);
                                        break;
                                    }
                                    None => want = None,
                                    _ => {}
                                }
                            }
                            let boxes = list.as_slice().iter().any(|o| o.bounding_box().collides_with(&q.bounding_box()));
                            let deque: VecDeque<Obj> = list.as_slice().iter().cloned().collect();
                            let ll: LinkedList<Obj> = list.as_slice().iter().cloned().collect();
                            let around = wrapped(&list, (list.as_slice().iter().count() + 1) / 2);
                            let tree = AABBTree3D::new(list.clone(), 4, 1);
                            let cs: [(&str, &dyn IsColliderContainer3D); 5] = [("vector", &list), ("wrapped deque", &around), ("deque", &deque), ("list", &ll), ("tree", &tree)];
                            for (name, k) in cs.iter() {
                                let r = k.any_element_collides_with_collider(q);
                                ensure!(want.map_or(true, |w| w == r), "{}: reported {}, expected {:?}", name, r, want);
                                let r = k.any_element_collides_with_bounding(q);
                                ensure!(r == boxes, "{}: bounding boxes: reported {}, expected {}", name, r, boxes);
                            }
                            Ok(())
                        },
                    );
                }
                !c.stopped()
            });
        }
    }));
    // many of them, of which exactly one touches what is asked for
    for n in vec![8usize, 33, 129, 258, 513, 1025, 2050, 4099] {
        gs.push(g(format!("containers of {}", n), move |c| {
            if n > c.q(1025, 4099) || n == 513 && !c.thorough() {
                return;
            }
            for layout in 0..4usize {
                let side = (1..).find(|s: &usize| s * s * s >= n).unwrap();
                let at = |i: usize| -> [f64; 3] {
                    let f = |k: usize| 4.0 * k as f64;
                    match layout {
                        0 => [f(i), 0.0, 0.0],
                        1 => [0.0, f(n - i), -f(i)],
                        2 => [f(i % side), f(i / side % side), f(i / side / side)],
                        _ => [0.5, -0.25, f(i * 7 % n + (if n % 7 == 0 { i * 7 / n } else { 0 }))],
                    }
                };
                // even ones are boxes, odd ones triangles over half of the unit square
                let part = |i: usize| -> D {
                    let [x, y, z] = at(i);
                    if i % 2 == 0 {
                        D::Aabb([x, y, z], [x + 1.0, y + 1.0, z + 1.0])
                    } else {
                        D::Face([[x, y, z], [x + 1.0, y, z + 0.5], [x, y + 1.0, z + 1.0]])
                    }
                };
                let list: Vec<Obj> = (0..n).map(|i| Obj(vec![part(i)])).collect();
                let whole = Obj((0..n).map(part).collect());
                let deque = wrapped(&list, n / 2);
                let ll: LinkedList<Obj> = list.as_slice().iter().cloned().collect();
                let mut trees = vec![];
                for depth in [0usize, 1, 5, 12, 40] {
                    for bucket in [1usize, 3, 300] {
                        trees.push((format!("tree {} {}", depth, bucket), AABBTree3D::new(list.clone(), depth, bucket)));
                    }
                }
                let mut at_all: Vec<usize> = (0..n).filter(|i| n < 40 || *i < 3 || *i + 3 > n || (i + 1).is_power_of_two() || i.is_power_of_two() || i % (n / 7) == 0).collect();
                at_all.dedup();
                for i in at_all {
                    // around the lower corner (hit), the upper one (only boxes) and above everything (none)
                    for (which, d) in [[0.25, 0.25, 0.375], [0.875, 0.875, 0.5], [0.25, 0.25, 1.5]].iter().enumerate() {
                        let [x, y, z] = at(i);
                        let (l, h) = ([x + d[0] - 0.0625, y + d[1] - 0.0625, z + d[2] - 0.0625], [x + d[0] + 0.0625, y + d[1] + 0.0625, z + d[2] + 0.0625]);
                        let q = Obj(vec![D::Aabb(l, h)]);
                        let hit = which == 0 || which == 1 && i % 2 == 0;
                        let bounding = which < 2;
                        c.state(&(n, layout, i, which));
                        c.case(
                            || format!("{} objects, layout {}, query {} at {}", n, layout, which, i),
                            |c| {
                                c.trans(6 + 2 * trees.as_slice().iter().count());
                                let mut cs: Vec<(&str, &dyn IsColliderContainer3D)> = vec![("vector", &list), ("deque", &deque), ("list", &ll)];
                                for (name, t) in trees.as_slice().iter() {
                                    cs.push((name, t));
                                }
                                for (name, k) in cs.as_slice().iter() {
                                    let r = k.any_element_collides_with_collider(&q);
                                    ensure!(r == hit, "{}: reported {}, expected {}", name, r, hit);
                                    let r = k.any_element_collides_with_bounding(&q);
                                    ensure!(r == bounding, "{}: bounding boxes: reported {}, expected {}", name, r, bounding);
                                }
                                ensure!(whole.collides_with(&q) == hit, "one object of {} parts: expected {}", n, hit);
                                ensure!(q.collides_with(&whole) == hit, "with one object of {} parts: expected {}", n, hit);
                                Ok(())
                            },
                        );
                    }
                }
            }
        }));
    }
    mc::main(
        Spec {
            prop: "C33",
            level: "model_checking",
            rule: "all pairs of axis-aligned boxes, rotated boxes (frames over a direction lattice) and triangles over lattices, in both orders, also scaled by 2^-200 to 2^200 and moved, against polygon clipping with a margin (contacts within the margin are checked for symmetry only); all composed objects and containers over a set of primitives; states = distinct pairs, transitions = collision tests",
            assumptions: &["triangles with an area; contacts closer than 1e-6 count as touching"],
        },
        gs,
    )
}
