//! C34: rays against triangles, boxes, meshes and lists of boxed objects.
use mc::*;
use rust_3d::*;
use std::cmp::Ordering;

type I = [i64; 3];
fn p3(a: I, f: f64) -> Point3D {
    Point3D::new(a[0] as f64 * f, a[1] as f64 * f, a[2] as f64 * f)
}
fn isub(a: I, b: I) -> I {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn idot(a: I, b: I) -> i64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn icrs(a: I, b: I) -> I {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn line(o: I, d: I, f: f64) -> Line3D {
    Line3D::new(p3(o, f), Norm3D::new(p3(d, 1.0)).ok().unwrap())
}
/// position on the ray (numerator, positive denominator) of a hit
type T = (i64, i64);
fn cmp(a: T, b: T) -> Ordering {
    (a.0 as i128 * b.1 as i128).cmp(&(b.0 as i128 * a.1 as i128))
}
fn at(o: I, d: I, t: T, f: f64) -> [f64; 3] {
    let mut r = [0.0; 3];
    for k in 0..3 {
        r[k] = (o[k] as f64 + d[k] as f64 * t.0 as f64 / t.1 as f64) * f;
    }
    r
}
fn same(p: &Point3D, q: [f64; 3], scale: f64) -> bool {
    (p.x - q[0]).abs() <= 1e-9 * scale && (p.y - q[1]).abs() <= 1e-9 * scale && (p.z - q[2]).abs() <= 1e-9 * scale
}
/// Ok(Some(t)): crosses the interior at t > 0, Ok(None): does not meet the triangle ahead, Err: mere contact or degenerate
fn tri_truth(o: I, d: I, t: [I; 3]) -> std::result::Result<Option<T>, ()> {
    let n = icrs(isub(t[1], t[0]), isub(t[2], t[0]));
    if n == [0, 0, 0] {
        return Err(());
    }
    let b = idot(n, d);
    let a = idot(n, isub(t[0], o));
    if b == 0 {
        return if a == 0 { Err(()) } else { Ok(None) };
    }
    let (num, den) = if b < 0 { (-a, -b) } else { (a, b) };
    if num < 0 {
        return Ok(None);
    }
    // den * (o - x) + num * d at each corner
    let mut zero = num == 0;
    for k in 0..3 {
        let e = isub(t[(k + 1) % 3], t[k]);
        let w = isub(o, t[k]);
        let v = [w[0] * den + d[0] * num, w[1] * den + d[1] * num, w[2] * den + d[2] * num];
        let (e, v) = (e.map(|x| x as i128), v.map(|x| x as i128));
        let c = [e[1] * v[2] - e[2] * v[1], e[2] * v[0] - e[0] * v[2], e[0] * v[1] - e[1] * v[0]];
        match (0..3).map(|i| n[i] as i128 * c[i]).sum::<i128>().signum() {
            -1 => return Ok(None),
            0 => zero = true,
            _ => {}
        }
    }
    if zero {
        Err(())
    } else {
        Ok(Some((num, den)))
    }
}
/// the same for a box: interior met at some t > 0 and first crossing of its surface ahead
fn box_truth(o: I, d: I, lo: I, hi: I) -> std::result::Result<Option<T>, ()> {
    let mut near: Option<T> = None;
    let mut far: Option<T> = None;
    let mut touch = false;
    for k in 0..3 {
        if d[k] == 0 {
            if o[k] < lo[k] || o[k] > hi[k] {
                return Ok(None);
            }
            touch |= o[k] == lo[k] || o[k] == hi[k];
            continue;
        }
        let f = |x: i64| if d[k] > 0 { (x - o[k], d[k]) } else { (o[k] - x, -d[k]) };
        let (a, b) = if d[k] > 0 { (f(lo[k]), f(hi[k])) } else { (f(hi[k]), f(lo[k])) };
        if near.map_or(true, |n| cmp(a, n) == Ordering::Greater) {
            near = Some(a)
        }
        if far.map_or(true, |n| cmp(b, n) == Ordering::Less) {
            far = Some(b)
        }
    }
    let (near, far) = (near.unwrap(), far.unwrap());
    if far.0 < 0 || cmp(near, far) == Ordering::Greater {
        return Ok(None);
    }
    if touch || far.0 == 0 || cmp(near, far) == Ordering::Equal {
        return Err(());
    }
    Ok(Some(if near.0 >= 0 { near } else { far }))
}
fn on_box(p: &Point3D, lo: I, hi: I, f: f64, scale: f64) -> bool {
    let q = [p.x, p.y, p.z];
    (0..3).all(|k| q[k] >= lo[k] as f64 * f - 1e-9 * scale && q[k] <= hi[k] as f64 * f + 1e-9 * scale)
}
fn ahead(p: &Point3D, o: I, d: I, f: f64, scale: f64) -> bool {
    let q = [p.x - o[0] as f64 * f, p.y - o[1] as f64 * f, p.z - o[2] as f64 * f];
    let dl = (idot(d, d) as f64).sqrt();
    let t = (q[0] * d[0] as f64 + q[1] * d[1] as f64 + q[2] * d[2] as f64) / dl;
    t >= -1e-9 * scale && (0..3).all(|k| (q[k] - t * d[k] as f64 / dl).abs() <= 1e-9 * scale)
}
fn lat(l: &[i64]) -> Vec<I> {
    let n = l.len();
    (0..n * n * n).map(|i| [l[i % n], l[i / n % n], l[i / n / n]]).collect()
}
fn dirs(m: i64) -> Vec<I> {
    lat(&(-m..=m).collect::<Vec<_>>()).into_iter().filter(|d| *d != [0, 0, 0]).collect()
}
fn check_tri(c: &mut Ctx, o: I, d: I, t: [I; 3], f: f64) {
    c.state(&(o, d, t, f.to_bits()));
    c.case(
        || format!("ray from {:?} along {:?}, triangle {:?}, scaled {}", o, d, t, f),
        |c| {
            c.trans(1);
            let r = intersection_ray_triangle(&Ray3D::new(line(o, d, f)), &p3(t[0], f), &p3(t[1], f), &p3(t[2], f));
            match (tri_truth(o, d, t), r) {
                (Err(()), None) => c.note("contact", 1),
                (Err(()), Some(p)) => {
                    c.note("contact", 1);
                    // degenerate triangles span no plane; otherwise it is the contact point
                    ensure!(ahead(&p, o, d, f, f * 50.0), "{:?} is not on the ray", p)
                }
                (Ok(None), None) => c.note("miss", 1),
                (Ok(None), Some(p)) => return Err(format!("reported {:?} although it misses the triangle", p)),
                (Ok(Some(_)), None) => return Err("missed".into()),
                (Ok(Some(x)), Some(p)) => {
                    c.note("hit", 1);
                    let w = at(o, d, x, f);
                    ensure!(same(&p, w, f * 50.0), "reported {:?}, expected {:?}", p, w);
                }
            }
            Ok(())
        },
    );
}
fn check_box(c: &mut Ctx, o: I, d: I, lo: I, hi: I, f: f64) {
    c.state(&(o, d, lo, hi, f.to_bits()));
    c.case(
        || format!("ray from {:?} along {:?}, box {:?} {:?}, scaled {}", o, d, lo, hi, f),
        |c| {
            c.trans(1);
            let b = BoundingBox3D::new(&p3(lo, f), &p3(hi, f)).ok().unwrap();
            let r = intersection(&line(o, d, f), &b);
            if let Some(p) = &r {
                ensure!(ahead(p, o, d, f, f * 50.0), "{:?} is not on the ray", p);
                ensure!(on_box(p, lo, hi, f, f * 50.0), "{:?} is not on the box", p);
            }
            match (box_truth(o, d, lo, hi), r) {
                (Err(()), _) => c.note("contact", 1),
                (Ok(None), None) => c.note("miss", 1),
                (Ok(None), Some(p)) => return Err(format!("reported {:?} although it misses the box", p)),
                (Ok(Some(_)), None) => return Err("missed".into()),
                (Ok(Some(x)), Some(p)) => {
                    c.note("hit", 1);
                    let w = at(o, d, x, f);
                    ensure!(same(&p, w, f * 50.0), "reported {:?}, expected {:?}", p, w);
                }
            }
            Ok(())
        },
    );
}
/// object without or with a box
struct O(Option<BoundingBox3D>, usize);
impl HasBoundingBox3DMaybe for O {
    fn bounding_box_maybe(&self) -> Option<BoundingBox3D> {
        self.0.clone()
    }
}
fn main() {
    let mut gs = vec![];
    for part in 0..8usize {
        gs.push(g(format!("triangles {}", part), move |c| {
            let pts = lat(&[0, 2, 3][..c.q(2, 3)]);
            let n = pts.as_slice().iter().count();
            let os = lat(&[-1, 1, 2]);
            let ds = dirs(c.q(2, 2));
            tuples(n, 3, |t| {
                if (t[0] + t[1] * 3 + t[2]) % 8 != part {
                    return true;
                }
                let tri = [pts[t[0]], pts[t[1]], pts[t[2]]];
                for (i, o) in os.as_slice().iter().enumerate() {
                    if n > 8 && i % 3 != (t[0] + t[2]) % 3 {
                        continue;
                    }
                    for d in ds.as_slice() {
                        check_tri(c, *o, *d, tri, 1.0);
                    }
                }
                !c.stopped()
            });
        }));
        gs.push(g(format!("boxes {}", part), move |c| {
            let os = lat(&[-1, 0, 1, 2, 4]);
            let ds = dirs(c.q(2, 3));
            let iv = [(0, 1), (0, 3), (1, 2), (-1, 2), (2, 4)];
            let m = c.q(4, 5);
            for i in 0..m * m * m {
                if i % 8 != part {
                    continue;
                }
                let (x, y, z) = (iv[i % m], iv[i / m % m], iv[i / m / m]);
                for o in os.as_slice() {
                    for d in ds.as_slice() {
                        check_box(c, *o, *d, [x.0, y.0, z.0], [x.1, y.1, z.1], 1.0);
                    }
                }
                if c.stopped() {
                    return;
                }
            }
        }));
    }
    gs.push(g("grazing", |c| {
        // the ray comes down by 2^-k per unit; the triangle and the side of the box lie in a coordinate plane, every number is exact
        let tris: [[[f64; 2]; 3]; 4] = [[[-4.0, -4.0], [4.0, -4.0], [0.0, 8.0]], [[0.0, 8.0], [4.0, -4.0], [-4.0, -4.0]], [[-1.0, -1.0], [7.0, -1.0], [-1.0, 7.0]], [[-64.0, 8.0], [-1.0, -8.0], [64.0, 8.0]]];
        let inside = |t: &[[f64; 2]; 3], p: [f64; 2]| {
            let s: Vec<f64> = (0..3)
                .map(|i| {
                    let (a, b) = (t[i], t[(i + 1) % 3]);
                    (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
                })
                .collect();
            if s.as_slice().contains(&0.0) {
                None
            } else {
                Some((0..3).all(|i| s[i] > 0.0) || (0..3).all(|i| s[i] < 0.0))
            }
        };
        for k in 0..200i32 {
            let h = 2f64.powi(-k);
            for axis in 0..3usize {
                for (turn, way, side, steps) in [false, true].iter().flat_map(|t| [1.0, -1.0].iter().flat_map(move |w| [1.0, -1.0].iter().flat_map(move |s| [1.0, 2.0, 4.0, -1.0].iter().map(move |m| (*t, *w, *s, *m))))) {
                    let (a, b) = if turn { ((axis + 2) % 3, (axis + 1) % 3) } else { ((axis + 1) % 3, (axis + 2) % 3) };
                    let put = |p: [f64; 2], up: f64| {
                        let mut r = [0.0; 3];
                        r[a] = p[0];
                        r[b] = p[1];
                        r[axis] = up;
                        Point3D::new(r[0], r[1], r[2])
                    };
                    for (ti, t) in tris.iter().enumerate() {
                        for from in [[-2.0, 0.0], [1.0, 1.0], [-2.0, 3.0]] {
                            // reaches the plane after `steps` units along `way`
                            let hit = [from[0] + way * steps, from[1]];
                            let truth = if steps < 0.0 { Some(false) } else { inside(t, hit) };
                            let truth = match truth {
                                None => continue,
                                Some(x) => x,
                            };
                            c.state(&(k, axis, turn, (way * side * steps).to_bits(), ti, from[0].to_bits(), from[1].to_bits(), way > 0.0));
                            c.case(
                                || format!("triangle {:?} in plane {} turned {}, ray from {:?} at {} steps {}, slope 2^-{}", t, axis, turn, from, side, way * steps, k),
                                |c| {
                                    c.trans(1);
                                    let dir = Norm3D::new(put([way, 0.0], -side * h)).ok().unwrap();
                                    let r = intersection_ray_triangle(&Ray3D::new(Line3D::new(put(from, side * h * steps), dir)), &put(t[0], 0.0), &put(t[1], 0.0), &put(t[2], 0.0));
                                    match (truth, r) {
                                        (true, None) => Err("missed".to_string()),
                                        (false, Some(p)) => Err(format!("reported {:?} although it misses the triangle", p)),
                                        (true, Some(p)) => {
                                            c.note("hit", 1);
                                            let q = put(hit, 0.0);
                                            ensure!(same(&p, [q.x, q.y, q.z], 50.0), "reported {:?}, expected {:?}", p, q);
                                            Ok(())
                                        }
                                        _ => {
                                            c.note("miss", 1);
                                            Ok(())
                                        }
                                    }
                                },
                            );
                        }
                    }
                    // a box below the plane, touched nowhere but through its upper side
                    if steps > 0.0 {
                        let hit = [-2.0 + way * steps, 0.0];
                        for (lo, hi) in [([-8.0, -4.0], [8.0, 4.0]), ([-2.5, -1.0], [-0.5, 1.0]), ([1.0, -1.0], [64.0, 1.0])] {
                            let entered = hit[0] > lo[0] && hit[0] < hi[0];
                            // enters through another side, or stays above until it has passed
                            if !entered && (hit[0] - lo[0]) * way <= 0.0 {
                                continue;
                            }
                            c.state(&(k, axis, turn, (way * side * steps).to_bits(), (lo[0] as f64).to_bits(), "box", way > 0.0));
                            c.case(
                                || format!("box {:?} {:?} below plane {} turned {}, ray at {} steps {}, slope 2^-{}", lo, hi, axis, turn, side, way * steps, k),
                                |c| {
                                    c.trans(1);
                                    let dir = Norm3D::new(put([way, 0.0], -side * h)).ok().unwrap();
                                    let (p, q) = if side > 0.0 { (put(lo, -4.0), put(hi, 0.0)) } else { (put(lo, 0.0), put(hi, 4.0)) };
                                    let b = BoundingBox3D::new(&p, &q).ok().unwrap();
                                    match (entered, intersection(&Line3D::new(put([-2.0, 0.0], side * h * steps), dir), &b)) {
                                        (true, None) => Err("missed".to_string()),
                                        (false, Some(p)) => Err(format!("reported {:?} although it misses the box", p)),
                                        (true, Some(p)) => {
                                            let q = put(hit, 0.0);
                                            ensure!(same(&p, [q.x, q.y, q.z], 50.0), "reported {:?}, expected {:?}", p, q);
                                            c.note("hit", 1);
                                            Ok(())
                                        }
                                        _ => {
                                            c.note("miss", 1);
                                            Ok(())
                                        }
                                    }
                                },
                            );
                        }
                    }
                }
            }
            if c.stopped() {
                return;
            }
        }
    }));
    gs.push(g("other magnitudes", |c| {
        for f in [1e-3, 0.1, 1e5, 2f64.powi(-200), 2f64.powi(-100), 1e-30, 1e-12, 1e-9, 1e-6, 1e9, 1e30, 2f64.powi(200)] {
            let pts = [[0, 0, 0], [4, 1, 0], [1, 5, 2], [0, 3, -4], [-2, -2, 3]];
            for o in lat(&[-3, 1, 2]) {
                for d in dirs(2) {
                    tuples(5, 3, |t| {
                        if t[0] != t[1] && t[1] != t[2] && t[0] != t[2] {
                            let tri = [pts[t[0]], pts[t[1]], pts[t[2]]];
                            // contact cannot be told from a hit or miss in rounded coordinates
                            if tri_truth(o, d, tri).is_ok() {
                                check_tri(c, o, d, tri, f);
                            }
                        }
                        !c.stopped()
                    });
                    for (lo, hi) in [([0, 0, 0], [1, 2, 3]), ([-4, 1, 0], [5, 4, 7])] {
                        if box_truth(o, d, lo, hi).is_ok() {
                            check_box(c, o, d, lo, hi, f);
                        }
                    }
                }
            }
        }
    }));
    for part in 0..4usize {
        gs.push(g(format!("far rays {}", part), move |c| {
            // aimed at and next to small and long objects far away
            let tris = [[[0, 0, 0], [1, 0, 0], [0, 1, 1]], [[0, 0, 0], [400, 1, 0], [0, 2, 3]], [[-1, -1, -1], [1, -2, 0], [0, 300, 300]], [[5, 5, 5], [5, 6, 5], [5, 5, -200]]];
            let boxes = [([0, 0, 0], [1, 1, 1]), ([-2, 0, 3], [300, 1, 5]), ([-200, -200, 2], [200, 200, 3]), ([7, -1, -3], [8, 0, 500])];
            let m = c.q(2, 4);
            for (i, o) in lat(&[-1000, -31, 4, 777]).into_iter().enumerate() {
                if i % 4 != part {
                    continue;
                }
                for t in lat(&(-m..=m).collect::<Vec<_>>()) {
                    for k in [1, 50] {
                        let d = [k * t[0] - o[0], k * t[1] - o[1], k * t[2] - o[2]];
                        if d == [0, 0, 0] {
                            continue;
                        }
                        for sg in [1, -1] {
                            let d = d.map(|x| sg * x);
                            for tri in tris {
                                if tri_truth(o, d, tri).is_ok() {
                                    check_tri(c, o, d, tri, 30.0);
                                    check_tri(c, o, d, [tri[2], tri[1], tri[0]], 30.0);
                                }
                            }
                            for (lo, hi) in boxes {
                                if box_truth(o, d, lo, hi).is_ok() {
                                    check_box(c, o, d, lo, hi, 30.0);
                                }
                            }
                        }
                    }
                }
                if c.stopped() {
                    return;
                }
            }
        }));
    }
    for n in sizes(true) {
        gs.push(g(format!("large n={}", n), move |c| {
            if !c.size(n, HUGE) {
                return;
            }
            // boxes and triangles in a row, in several orders
            let rays: [(I, I); 6] = [([-5, 1, 1], [1, 0, 0]), ([4 * n as i64 + 9, 1, 1], [-1, 0, 0]), ([2 * n as i64 - 1, 1, 1], [1, 0, 0]), ([-5, -40, 1], [2, 1, 0]), ([-5, 1, 1], [4 * n as i64, 1, 0]), ([-9, 9, 9], [0, 1, 1])];
            let orders: Vec<(&str, Vec<usize>)> = [
                ("ascending", (0..n).collect()),
                ("descending", (0..n).rev().collect()),
                ("strided", (0..n).map(|i| i * 7 % n).collect::<Vec<usize>>()),
                ("nearest last", (1..n).chain([0]).collect()),
                ("nearest in the middle", (1..=n / 2).chain([0]).chain(n / 2 + 1..n).collect()),
            ]
            .to_vec();
            for (name, ord) in orders.as_slice() {
                for (o, d) in rays {
                    c.state(&(name, n, o, d));
                    c.case(
                        || format!("{} boxes and triangles, {}, ray {:?} {:?}", n, name, o, d),
                        |c| {
                            c.trans(5);
                            // every fifth object has no box, every third is out of reach
                            let bx: Vec<Option<(I, I)>> = ord.as_slice().iter().map(|k| {
                                let x = 4 * *k as i64;
                                let y = if k % 3 == 1 { 100 } else { 0 };
                                if k % 5 == 4 { None } else { Some(([x, y, -1 - *k as i64], [x + 2, y + 3, 3])) }
                            }).collect();
                            let mut hits: Vec<Option<T>> = vec![];
                            let mut meshed: Vec<[f64; 3]> = vec![];
                            let mut m = Mesh3D::<Point3D, PointCloud3D<Point3D>, Vec<usize>>::default();
                            let mut contact = false;
                            for (i, b) in bx.as_slice().iter().enumerate() {
                                match b {
                                    None => hits.push(None),
                                    Some((l, h)) => {
                                        match box_truth(o, d, *l, *h) {
                                            Err(()) => return Ok(()),
                                            Ok(x) => hits.push(x),
                                        }
                                        let t = [[l[0], l[1] - 1, l[2] - 1], [h[0], h[1] + 50, -7], [l[0] + 1, l[1] - 1, 30 + i as i64]];
                                        for p in t {
                                            m.add_vertex(p3(p, 1.0));
                                        }
                                        let k = m.num_vertices() - 3;
                                        m.try_add_connection(VId(k), VId(k + 1), VId(k + 2)).ok().unwrap();
                                        match tri_truth(o, d, t) {
                                            Err(()) => contact = true,
                                            Ok(Some(x)) => meshed.push(at(o, d, x, 1.0)),
                                            Ok(None) => {}
                                        }
                                    }
                                }
                            }
                            let sc = 50.0 + 10.0 * n as f64;
                            let ray = Ray3D::new(line(o, d, 1.0));
                            if !contact {
                                let mut r = vec![];
                                collect_intersections_ray_mesh(&ray, &m, &mut r);
                                ensure!(r.as_slice().iter().count() == meshed.as_slice().iter().count(), "{} intersections, expected {}", r.as_slice().iter().count(), meshed.as_slice().iter().count());
                                for (p, q) in r.as_slice().iter().zip(meshed.as_slice()) {
                                    ensure!(same(p, *q, sc), "{:?}, expected {:?}", p, q);
                                }
                            }
                            let mk = || -> Vec<O> { bx.as_slice().iter().enumerate().map(|(k, b)| O(b.map(|(l, h)| BoundingBox3D::new(&p3(l, 1.0), &p3(h, 1.0)).ok().unwrap()), k)).collect() };
                            let best = hits.as_slice().iter().flatten().cloned().min_by(|a, b| cmp(*a, *b));
                            c.note(if best.is_some() { "some hit" } else { "none hit" }, 1);
                            let ok = |p: Option<(Point3D, usize)>, name: &str| -> R {
                                match (best, p) {
                                    (None, None) => Ok(()),
                                    (Some(b), Some((p, k))) => {
                                        ensure!(same(&p, at(o, d, b, 1.0), sc) && hits[k].map_or(false, |h| cmp(h, b) == Ordering::Equal), "{}: object {} at {:?} is not the closest, {:?} is", name, k, p, at(o, d, b, 1.0));
                                        Ok(())
                                    }
                                    (b, p) => Err(format!("{}: found {:?}, expected {:?}", name, p, b)),
                                }
                            };
                            let v = mk();
                            ok(index_closest_intersecting(&ray, v.as_slice().iter()), "index")?;
                            ok(closest_intersecting(&ray, v.as_slice().iter()).map(|(p, x)| (p, x.1)), "reference")?;
                            let mut v = mk();
                            ok(closest_intersecting_mut(&ray, v.as_mut_slice().iter_mut()).map(|(p, x)| (p, x.1)), "mutable")?;
                            let mut seen = vec![];
                            for_each_intersecting(&ray, v.as_mut_slice().iter_mut(), &mut |p, x| seen.push((p.clone(), x.1)));
                            let want: Vec<usize> = (0..n).filter(|k| hits[*k].is_some()).collect();
                            ensure!(seen.as_slice().iter().map(|x| x.1).collect::<Vec<_>>() == want, "visited {:?}, expected {:?}", seen.as_slice().iter().map(|x| x.1).collect::<Vec<_>>(), want);
                            for (p, k) in seen.as_slice() {
                                ensure!(same(p, at(o, d, hits[*k].unwrap(), 1.0), sc), "visited {} with {:?}", k, p);
                            }
                            Ok(())
                        },
                    );
                }
            }
        }));
    }
    for n in [1000usize, 1025, 4097, 30_000, 65_535, 65_536, 65_537, HUGE] {
        gs.push(g(format!("mesh of {} faces", n), move |c| {
            // faces across the path of the ray, some of them out of reach
            for (o, d) in [([-5i64, 1, 1], [1i64, 0, 0]), ([n as i64 + 9, 1, 1], [-1, 0, 0]), ([-5, 1, 1], [n as i64, 1, 1]), ([-9, 9, 9], [0, 1, 1])] {
                for skip in [0usize, 1, 3] {
                    c.state(&(n, o, d, skip));
                    c.case(
                        || format!("{} faces, every {}th out of reach, ray {:?} {:?}", n, skip, o, d),
                        |c| {
                            c.trans(n);
                            let mut m = Mesh3D::<Point3D, PointCloud3D<Point3D>, Vec<usize>>::default();
                            let mut want = vec![];
                            for i in 0..n {
                                let y = if skip > 0 && i % skip == skip - 1 { 100 } else { -8 };
                                let x = (i * 7 % n) as i64;
                                let t = [[x, y, -8], [x, y + 33, -7], [x, y, 33]];
                                for p in t {
                                    m.add_vertex(p3(p, 1.0));
                                }
                                m.try_add_connection(VId(3 * i), VId(3 * i + 1), VId(3 * i + 2)).ok().unwrap();
                                match tri_truth(o, d, t) {
                                    Err(()) => return Ok(()),
                                    Ok(None) => {}
                                    Ok(Some(x)) => want.push(at(o, d, x, 1.0)),
                                }
                            }
                            c.note(if want.is_empty() { "none hit" } else { "some hit" }, 1);
                            let mut r = vec![];
                            collect_intersections_ray_mesh(&Ray3D::new(line(o, d, 1.0)), &m, &mut r);
                            ensure!(r.as_slice().iter().count() == want.as_slice().iter().count(), "{} intersections, expected {}", r.as_slice().iter().count(), want.as_slice().iter().count());
                            for (p, q) in r.as_slice().iter().zip(want.as_slice()) {
                                ensure!(same(p, *q, 50.0 + n as f64), "{:?}, expected {:?}", p, q);
                            }
                            Ok(())
                        },
                    );
                }
            }
        }));
    }
    gs.push(g("meshes", |c| {
        let pts = [[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4], [4, 4, 5]];
        let mut tr = vec![];
        tuples(5, 3, |t| {
            if t[0] != t[1] && t[1] != t[2] && t[0] != t[2] && (t[0] < t[1] || c.q(0, 1) == 1) {
                tr.push([t[0], t[1], t[2]]);
            }
            true
        });
        let n = tr.as_slice().iter().count();
        let rays: Vec<(I, I)> = [[-1, 1, 1], [1, 1, 1], [3, -2, 7], [2, 1, -3]].iter().flat_map(|o| [[3, 1, 1], [-1, 1, 2], [0, 0, 1], [1, 0, 1], [-2, 3, -5]].iter().map(move |d| (*o, *d))).collect();
        for len in 0..=c.q(2, 3) {
            tuples(n, len, |t| {
                if len == 3 && t[0] > 9 {
                    return false;
                }
                let mut m = Mesh3D::<Point3D, PointCloud3D<Point3D>, Vec<usize>>::default();
                for p in pts {
                    m.add_vertex(p3(p, 1.0));
                }
                for i in t {
                    m.try_add_connection(VId(tr[*i][0]), VId(tr[*i][1]), VId(tr[*i][2])).ok().unwrap();
                }
                for (o, d) in rays.as_slice() {
                    c.state(&(t.to_vec(), o, d));
                    c.case(
                        || format!("ray {:?} {:?} mesh {:?}", o, d, t.iter().map(|i| tr[*i]).collect::<Vec<_>>()),
                        |c| {
                            c.trans(1);
                            let before = Point3D::new(77.0, 0.0, 0.0);
                            let mut r = vec![before.clone()];
                            collect_intersections_ray_mesh(&Ray3D::new(line(*o, *d, 1.0)), &m, &mut r);
                            ensure!(r[0] == before, "earlier results changed");
                            let mut want = vec![];
                            for i in t {
                                match tri_truth(*o, *d, tr[*i].map(|k| pts[k])) {
                                    Err(()) => return Ok(()),
                                    Ok(None) => {}
                                    Ok(Some(x)) => want.push(at(*o, *d, x, 1.0)),
                                }
                            }
                            ensure!(r.as_slice().iter().count() == 1 + want.as_slice().iter().count(), "{} intersections, expected {:?}", r.as_slice().iter().count() - 1, want);
                            for (p, q) in r.as_slice()[1..].iter().zip(want.as_slice()) {
                                ensure!(same(p, *q, 50.0), "{:?}, expected {:?}", p, q);
                            }
                            Ok(())
                        },
                    );
                }
                !c.stopped()
            });
        }
    }));
    gs.push(g("closest of a list", |c| {
        let boxes: Vec<Option<(I, I)>> = vec![
            None,
            Some(([0, 0, 0], [1, 1, 1])),
            Some(([3, 0, 0], [4, 2, 1])),
            Some(([0, 0, 0], [5, 5, 5])),
            Some(([-4, -4, -4], [-3, 3, 3])),
            Some(([1, -2, 2], [2, 4, 3])),
            Some(([3, -1, -1], [6, 3, 2])),
            Some(([-9, -9, 6], [9, 9, 7])),
        ];
        let n = boxes.as_slice().iter().count();
        let os = [[-6, 1, 1], [1, 1, 1], [7, 1, 1], [0, -7, 2], [2, 2, 9]];
        for len in 0..=c.q(3, 4) {
            tuples(n, len, |t| {
                for o in os {
                    for d in dirs(c.q(1, 2)) {
                        // position 3 of the box corner coordinates makes rays from odd/even offsets contact sometimes: those are skipped below
                        c.state(&(t.to_vec(), o, d));
                        c.case(
                            || format!("ray {:?} {:?} boxes {:?}", o, d, t.iter().map(|i| boxes[*i]).collect::<Vec<_>>()),
                            |c| {
                                c.trans(4);
                                let ray = Ray3D::new(line(o, d, 1.0));
                                let mk = || -> Vec<O> { t.iter().enumerate().map(|(k, i)| O(boxes[*i].map(|(l, h)| BoundingBox3D::new(&p3(l, 1.0), &p3(h, 1.0)).ok().unwrap()), k)).collect() };
                                let mut hits: Vec<Option<T>> = vec![];
                                for i in t {
                                    hits.push(match boxes[*i] {
                                        None => None,
                                        Some((l, h)) => match box_truth(o, d, l, h) {
                                            Err(()) => return Ok(()),
                                            Ok(x) => x,
                                        },
                                    });
                                }
                                let best = hits.as_slice().iter().flatten().cloned().min_by(|a, b| cmp(*a, *b));
                                let ok = |p: Option<(Point3D, usize)>, name: &str| -> R {
                                    match (best, p) {
                                        (None, None) => Ok(()),
                                        (None, Some(x)) => Err(format!("{}: found {:?} although nothing is hit", name, x)),
                                        (Some(_), None) => Err(format!("{}: nothing found", name)),
                                        (Some(b), Some((p, k))) => {
                                            ensure!(same(&p, at(o, d, b, 1.0), 50.0), "{}: {:?} is not the closest, {:?} is", name, p, at(o, d, b, 1.0));
                                            ensure!(hits[k].map_or(false, |h| cmp(h, b) == Ordering::Equal), "{}: object {} is not the closest", name, k);
                                            Ok(())
                                        }
                                    }
                                };
                                let v = mk();
                                ok(index_closest_intersecting(&ray, v.as_slice().iter()), "index")?;
                                ok(closest_intersecting(&ray, v.as_slice().iter()).map(|(p, x)| (p, x.1)), "reference")?;
                                let mut v = mk();
                                ok(closest_intersecting_mut(&ray, v.as_mut_slice().iter_mut()).map(|(p, x)| (p, x.1)), "mutable")?;
                                let mut seen = vec![];
                                for_each_intersecting(&ray, v.as_mut_slice().iter_mut(), &mut |p, x| seen.push((p.clone(), x.1)));
                                let want: Vec<usize> = (0..t.len()).filter(|k| hits[*k].is_some()).collect();
                                ensure!(seen.as_slice().iter().map(|x| x.1).collect::<Vec<_>>() == want, "visited {:?}, expected {:?}", seen.as_slice().iter().map(|x| x.1).collect::<Vec<_>>(), want);
                                for (p, k) in seen.as_slice() {
                                    ensure!(same(p, at(o, d, hits[*k].unwrap(), 1.0), 50.0), "visited {} with {:?}", k, p);
                                }
                                Ok(())
                            },
                        );
                    }
                }
                !c.stopped()
            });
        }
    }));
    // objects whose distances differ by a tolerance of any size
    for axis in 0..3usize {
        gs.push(g(format!("close {}", axis), move |c| {
            for (h, l) in exact_ladders() {
                for step in [1usize, 5] {
                    for rot in 0..6usize {
                        for (dir, gap) in [1.0, -1.0].iter().cloned().flat_map(|d| [2.0, 4096.0, 1048576.0, 33554432.0].iter().map(move |g| (d, *g))) {
                            let start = if dir > 0.0 { l[0] - gap * h } else { l[0] + (gap + 6.0) * h };
                            let back = if dir > 0.0 { start + gap * h } else { start - (gap + 6.0) * h };
                            if back != l[0] || !(start * start).is_finite() {
                                continue;
                            }
                            let order: Vec<usize> = (0..6).map(|i| (i * step + rot) % 6).collect();
                            c.case(
                                || format!("boxes from {:?} in order {:?} along axis {} times {}, {} steps away", l, order, axis, dir, gap),
                                |c| {
                                    c.trans(4);
                                    let at = |x: f64, o: f64| {
                                        let mut p = [o; 3];
                                        p[axis] = x;
                                        Point3D::new(p[0], p[1], p[2])
                                    };
                                    let mk = || -> Vec<O> {
                                        order
                                            .as_slice()
                                            .iter()
                                            .map(|i| {
                                                let (a, b) = if dir > 0.0 { (l[*i], l[0] + 4.0 * h) } else { (l[0] - 4.0 * h, l[*i]) };
                                                O(Some(BoundingBox3D::new(&at(a, -1.0), &at(b, 2.0)).ok().unwrap()), *i)
                                            })
                                            .collect()
                                    };
                                    let mut d = [0.0; 3];
                                    d[axis] = dir;
                                    let line = Line3D::new(at(start, 0.0), Norm3D::new(Point3D::new(d[0], d[1], d[2])).unwrap());
                                    let ray = Ray3D::new(line);
                                    let best = if dir > 0.0 { 0 } else { 5 };
                                    let v = mk();
                                    let r = index_closest_intersecting(&ray, v.as_slice().iter()).map(|(_, k)| order[k]);
                                    ensure!(r == Some(best), "index: {:?} instead of {}", r, best);
                                    let r = closest_intersecting(&ray, v.as_slice().iter()).map(|(_, x)| x.1);
                                    ensure!(r == Some(best), "reference: {:?} instead of {}", r, best);
                                    let mut v = mk();
                                    let r = closest_intersecting_mut(&ray, v.as_mut_slice().iter_mut()).map(|(_, x)| x.1);
                                    ensure!(r == Some(best), "mutable: {:?} instead of {}", r, best);
                                    let mut seen = vec![];
                                    for_each_intersecting(&ray, v.as_mut_slice().iter_mut(), &mut |p, x| seen.push((p.clone(), x.1)));
                                    let ids: Vec<usize> = seen.as_slice().iter().map(|x| x.1).collect();
                                    ensure!(ids == order, "visited {:?} instead of {:?}", ids, order);
                                    for (p, i) in seen.as_slice() {
                                        let p = [p.x, p.y, p.z];
                                        ensure!(p[axis] == l[*i], "box {} met at {:?} instead of {:?}", i, p[axis], l[*i]);
                                    }
                                    c.state(&order);
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }
        }));
    }
    mc::main(
        Spec {
            prop: "C34",
            level: "model_checking",
            rule: "all rays (origin and direction lattice) against all lattice triangles and boxes, small meshes and all object lists up to the stated length, against exact integer predicates for hit, miss and position; mere contact is only required to lie on ray and box; states = distinct (ray, object), transitions = queries",
            assumptions: &[],
        },
        gs,
    )
}
