//! C11: bounding boxes are tight and their relations are exact.
use mc::*;
use rust_3d::*;

// ------------------------------------------------------------------ reference: list of intervals
type Iv = (f64, f64);
fn ivs(v: &[f64]) -> Vec<Iv> {
    let mut r = vec![];
    for i in 0..v.len() {
        for j in 0..v.len() {
            if v[i] < v[j] {
                r.push((v[i], v[j]));
            }
        }
    }
    r
}
struct Rel {
    inside: bool,
    has: bool,
    coll: bool,
    sqr: f64,
    merged: Vec<Iv>,
}
fn rel(a: &[Iv], b: &[Iv]) -> Rel {
    let z = || a.iter().zip(b);
    Rel {
        inside: z().all(|(a, b)| a.0 > b.0 && a.1 < b.1),
        has: z().all(|(a, b)| b.0 > a.0 && b.1 < a.1),
        coll: z().all(|(a, b)| a.0 < b.1 && b.0 < a.1),
        sqr: z()
            .map(|(a, b)| {
                let d = f64::max(0.0, f64::max(b.0 - a.1, a.0 - b.1));
                d * d
            })
            .sum(),
        merged: z().map(|(a, b)| (a.0.min(b.0), a.1.max(b.1))).collect(),
    }
}
fn b2(a: &[Iv]) -> BoundingBox2D {
    BoundingBox2D::new(&Point2D::new(a[0].0, a[1].0), &Point2D::new(a[0].1, a[1].1)).unwrap()
}
fn b3(a: &[Iv]) -> BoundingBox3D {
    BoundingBox3D::new(&Point3D::new(a[0].0, a[1].0, a[2].0), &Point3D::new(a[0].1, a[1].1, a[2].1)).unwrap()
}
fn i2(b: &BoundingBox2D) -> Vec<Iv> {
    vec![(b.min_p().x, b.max_p().x), (b.min_p().y, b.max_p().y)]
}
fn i3(b: &BoundingBox3D) -> Vec<Iv> {
    vec![(b.min_p().x, b.max_p().x), (b.min_p().y, b.max_p().y), (b.min_p().z, b.max_p().z)]
}
thread_local! {
    /// magnitude below which differences do not count
    static FLOOR: std::cell::Cell<f64> = std::cell::Cell::new(1.0);
}
fn rclose(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * (FLOOR.with(|f| f.get()) + a.abs().max(b.abs()))
}
/// runs with exact powers of two as unit, where nothing is to be rounded
fn scaled(c: &mut Ctx) {
    FLOOR.with(|f| f.set(0.0));
    let exps: Vec<i32> = if c.thorough() { (-480..=480).step_by(20).filter(|e| *e != 0).collect() } else { vec![-480, -300, -120, -60, -40, -30, -20, -10, 10, 20, 30, 40, 60, 120, 300, 480] };
    for e in exps {
        let k = 2f64.powi(e);
        let v: Vec<f64> = [-1.0, 0.0, 2.0, 3.0].iter().map(|x| x * k).collect();
        let off: Vec<f64> = [5.0, 6.0, 9.0].iter().map(|x| x * k).collect();
        let neg: Vec<f64> = [-9.0, -7.0, -6.0].iter().map(|x| x * k).collect();
        let q: Vec<f64> = [-9.5, -6.5, -2.0, -1.0, 0.0, 0.5, 2.0, 2.5, 4.0, 6.5].iter().map(|x| x * k).collect();
        for v in [v, off, neg] {
            all_boxes(&v, 2, &mut |a| {
                single2(c, a, &q);
                all_boxes(&v, 2, &mut |b| {
                    pair2(c, a, b);
                    !c.stopped()
                });
                !c.stopped()
            });
            let v: Vec<f64> = v[..3].to_vec();
            all_boxes(&v, 3, &mut |a| {
                single3(c, a, &q[3..8]);
                all_boxes(&v, 3, &mut |b| {
                    pair3(c, a, b);
                    !c.stopped()
                });
                !c.stopped()
            });
        }
    }
    FLOOR.with(|f| f.set(1.0));
}
fn large(c: &mut Ctx, n: usize) {
    for (name, pts) in patterns(n) {
        for k in [1.0, -1.0, 2f64.powi(-60), -2f64.powi(60)] {
            for off in [0.0, 1e6, -1e6] {
                // one point that sticks out at every interesting place
                for at in [None, Some(0), Some(1), Some(n / 2), Some(n - 2), Some(n - 1)] {
                    let mut v: Vec<Vec<f64>> = pts.as_slice().iter().map(|p| p.iter().map(|x| (*x as f64 + off) * k).collect()).collect();
                    for axis in 0..3 {
                        if let Some(i) = at {
                            v[i][axis] = if (i + axis) % 2 == 0 { 2e6 * k } else { -2e6 * k };
                        } else if axis > 0 {
                            continue;
                        }
                        c.case(
                            || format!("{} of {} points, * {} + {}, {:?} sticks out along {}", name, n, k, off, at, axis),
                            |c| {
                                c.trans(1);
                                let t = tight(&v);
                                let b = BoundingBox3D::from_into_iterator(v.iter().map(|p| Point3D::new(p[0], p[1], p[2]))).ok().map(|b| i3(&b));
                                ensure!(b == t, "{:?}, expected {:?}", b, t);
                                let pts: Vec<Point3D> = v.iter().map(|p| Point3D::new(p[0], p[1], p[2])).collect();
                                ensure!(BoundingBox3D::from_iterator(&pts).ok().map(|b| i3(&b)) == t, "from_iterator");
                                let pc = PointCloud3D::from(pts.clone());
                                ensure!(pc.bounding_box_maybe().map(|b| i3(&b)) == t, "point cloud");
                                let mut pf = PointCloud3Df32::<Point3D>::new();
                                for p in pts.as_slice() {
                                    pf.push(p.clone());
                                }
                                // (coordinates that are exact in single precision)
                                let exact = v.iter().all(|p| p.iter().all(|x| *x as f32 as f64 == *x));
                                ensure!(!exact || pf.bounding_box_maybe().map(|b| i3(&b)) == t, "f32 point cloud {:?}", pf.bounding_box_maybe());
                                ensure!(Polygon3D::from(pc).bounding_box_maybe().map(|b| i3(&b)) == t, "polygon");
                                let p2: Vec<Vec<f64>> = v.iter().map(|p| vec![p[0], p[1]]).collect();
                                let t = tight(&p2);
                                let pts: Vec<Point2D> = p2.iter().map(|p| Point2D::new(p[0], p[1])).collect();
                                ensure!(BoundingBox2D::from_iterator(&pts).ok().map(|b| i2(&b)) == t, "2D from_iterator");
                                ensure!(BoundingBox2D::from_into_iterator(pts.clone()).ok().map(|b| i2(&b)) == t, "2D from_into_iterator");
                                let pc = PointCloud2D::from(pts);
                                ensure!(pc.bounding_box_maybe().map(|b| i2(&b)) == t, "2D point cloud");
                                ensure!(Polygon2D::from(pc).bounding_box_maybe().map(|b| i2(&b)) == t, "2D polygon");
                                c.state(&(name, n, at, axis));
                                Ok(())
                            },
                        );
                        if let Some(i) = at {
                            v[i][axis] = (pts.as_slice()[i][axis] as f64 + off) * k
                        }
                    }
                }
            }
        }
    }
}

fn pair2(c: &mut Ctx, a: &[Iv], b: &[Iv]) {
    c.state(&a.iter().chain(b).map(|x| (x.0.to_bits(), x.1.to_bits())).collect::<Vec<_>>());
    c.case(
        || format!("{:?}/{:?}", a, b),
        |c| {
            c.trans(5);
            let (p, q) = (b2(a), b2(b));
            let r = rel(a, b);
            ensure!(p.is_inside(&q) == r.inside, "is_inside {}", !r.inside);
            ensure!(p.has_inside(&q) == r.has, "has_inside {}", !r.has);
            ensure!(p.collides_with(&q) == r.coll, "collides_with {}", !r.coll);
            let d = *HasDistanceTo::<BoundingBox2D>::sqr_distance(&p, &q);
            ensure!(rclose(d, r.sqr), "square distance {} not {}", d, r.sqr);
            let d = *HasDistanceTo::<BoundingBox2D>::distance(&p, &q);
            ensure!(rclose(d, r.sqr.sqrt()), "distance {} not {}", d, r.sqr.sqrt());
            ensure!(i2(&p.combine(&q)) == r.merged, "combined box {:?}", p.combine(&q));
            let mut m = p.clone();
            m.consume(q);
            ensure!(i2(&m) == r.merged, "consumed box {:?}", m);
            Ok(())
        },
    );
}
fn pair3(c: &mut Ctx, a: &[Iv], b: &[Iv]) {
    c.state(&a.iter().chain(b).map(|x| (x.0.to_bits(), x.1.to_bits())).collect::<Vec<_>>());
    c.case(
        || format!("{:?}/{:?}", a, b),
        |c| {
            c.trans(5);
            let (p, q) = (b3(a), b3(b));
            let r = rel(a, b);
            ensure!(p.is_inside(&q) == r.inside, "is_inside {}", !r.inside);
            ensure!(p.has_inside(&q) == r.has, "has_inside {}", !r.has);
            ensure!(p.collides_with(&q) == r.coll, "collides_with {}", !r.coll);
            let d = *HasDistanceTo::<BoundingBox3D>::sqr_distance(&p, &q);
            ensure!(rclose(d, r.sqr), "square distance {} not {}", d, r.sqr);
            let d = *HasDistanceTo::<BoundingBox3D>::distance(&p, &q);
            ensure!(rclose(d, r.sqr.sqrt()), "distance {} not {}", d, r.sqr.sqrt());
            ensure!(i3(&p.combine(&q)) == r.merged, "combined box {:?}", p.combine(&q));
            let mut m = p.clone();
            m.consume(q);
            ensure!(i3(&m) == r.merged, "consumed box {:?}", m);
            Ok(())
        },
    );
}
/// one box against all positions built from the values of `q`
fn single2(c: &mut Ctx, a: &[Iv], q: &[f64]) {
    c.case(
        || format!("{:?}", a),
        |c| {
            let b = b2(a);
            ensure!(i2(&b) == a, "min/max");
            ensure!(*b.size_x() == a[0].1 - a[0].0 && *b.size_y() == a[1].1 - a[1].0, "sizes");
            ensure!(b.sizes() == [b.size_x(), b.size_y()], "sizes()");
            let m = |i: Iv| (i.0 / 2.0) + (i.1 / 2.0);
            for ce in [b.center_bb(), Point2D::new(b.x(), b.y()), Point2D::new(b.position_nd(0).unwrap(), b.position_nd(1).unwrap())] {
                ensure!(rclose(ce.x, m(a[0])) && rclose(ce.y, m(a[1])), "center {:?}", ce);
            }
            ensure!(b.position_nd(2).is_none() && BoundingBox2D::n_dimensions() == 2, "third dimension");
            let mut co: Vec<_> = b.corners().iter().map(|p| (p.x.to_bits(), p.y.to_bits())).collect();
            let mut ex = vec![];
            for x in [a[0].0, a[0].1] {
                for y in [a[1].0, a[1].1] {
                    ex.push((x.to_bits(), y.to_bits()));
                }
            }
            co.sort();
            ex.sort();
            ensure!(co == ex, "corners {:?}", b.corners());
            ensure!(b.bounding_box() == b && b.bounding_box_maybe() == Some(b.clone()), "box of a box");
            for &x in q {
                ensure!(b.crossing_x_value(x) == (a[0].0 < x && x < a[0].1), "crossing_x_value({})", x);
                ensure!(b.crossing_y_value(x) == (a[1].0 < x && x < a[1].1), "crossing_y_value({})", x);
                for &y in q {
                    c.trans(1);
                    let p = Point2D::new(x, y);
                    let st = a[0].0 < x && x < a[0].1 && a[1].0 < y && y < a[1].1;
                    ensure!(b.contains(&p) == st, "contains({:?}) {}", p, !st);
                    let dx = f64::max(0.0, f64::max(a[0].0 - x, x - a[0].1));
                    let dy = f64::max(0.0, f64::max(a[1].0 - y, y - a[1].1));
                    let s = dx * dx + dy * dy;
                    ensure!(rclose(*b.sqr_distance(&p), s), "sqr_distance({:?}) {:?}", p, b.sqr_distance(&p));
                    ensure!(rclose(*b.distance(&p), s.sqrt()), "distance({:?}) {:?}", p, b.distance(&p));
                    let mut mv = b.clone();
                    mv.move_by(x, y);
                    ensure!(i2(&mv) == vec![(a[0].0 + x, a[0].1 + x), (a[1].0 + y, a[1].1 + y)], "moved by {:?}: {:?}", p, mv);
                }
            }
            for f in [0.5, 1.0, 2.0, 4.0] {
                let mut s = b.clone();
                s.scale(Positive::new(f).unwrap());
                let ex: Vec<Iv> = a.iter().map(|i| (m(*i) - f * (i.1 - i.0) / 2.0, m(*i) + f * (i.1 - i.0) / 2.0)).collect();
                ensure!(i2(&s).iter().zip(&ex).all(|(a, b)| rclose(a.0, b.0) && rclose(a.1, b.1)), "scaled by {}: {:?}", f, s);
            }
            Ok(())
        },
    );
}
fn single3(c: &mut Ctx, a: &[Iv], q: &[f64]) {
    c.case(
        || format!("{:?}", a),
        |c| {
            let b = b3(a);
            ensure!(i3(&b) == a, "min/max");
            ensure!(*b.size_x() == a[0].1 - a[0].0 && *b.size_y() == a[1].1 - a[1].0 && *b.size_z() == a[2].1 - a[2].0, "sizes");
            ensure!(b.sizes() == [b.size_x(), b.size_y(), b.size_z()], "sizes()");
            let m = |i: Iv| (i.0 / 2.0) + (i.1 / 2.0);
            let nd = |d| b.position_nd(d).unwrap();
            for ce in [b.center_bb(), Point3D::new(b.x(), b.y(), b.z()), Point3D::new(nd(0), nd(1), nd(2))] {
                ensure!(rclose(ce.x, m(a[0])) && rclose(ce.y, m(a[1])) && rclose(ce.z, m(a[2])), "center {:?}", ce);
            }
            ensure!(b.position_nd(3).is_none() && BoundingBox3D::n_dimensions() == 3, "fourth dimension");
            let bits = |p: &Point3D| (p.x.to_bits(), p.y.to_bits(), p.z.to_bits());
            let mut co: Vec<_> = b.corners().iter().map(bits).collect();
            let mut sat: Vec<_> = vec![];
            b.for_each_point(&mut |p: &Point3D| sat.push(bits(p)));
            let mut ex = vec![];
            for x in [a[0].0, a[0].1] {
                for y in [a[1].0, a[1].1] {
                    for z in [a[2].0, a[2].1] {
                        ex.push((x.to_bits(), y.to_bits(), z.to_bits()));
                    }
                }
            }
            co.sort();
            ex.sort();
            sat.sort();
            ensure!(co == ex, "corners {:?}", b.corners());
            ensure!(sat == ex, "collision corners {:?}", sat);
            ensure!(b.bounding_box() == b && b.bounding_box_maybe() == Some(b.clone()), "box of a box");
            for &x in q {
                ensure!(b.crossing_x_value(x) == (a[0].0 < x && x < a[0].1), "crossing_x_value({})", x);
                ensure!(b.crossing_y_value(x) == (a[1].0 < x && x < a[1].1), "crossing_y_value({})", x);
                ensure!(b.crossing_z_value(x) == (a[2].0 < x && x < a[2].1), "crossing_z_value({})", x);
                for &y in q {
                    for &z in q {
                        c.trans(1);
                        let p = Point3D::new(x, y, z);
                        let st = a[0].0 < x && x < a[0].1 && a[1].0 < y && y < a[1].1 && a[2].0 < z && z < a[2].1;
                        ensure!(b.contains(&p) == st, "contains({:?}) {}", p, !st);
                        let d = |i: Iv, x: f64| f64::max(0.0, f64::max(i.0 - x, x - i.1));
                        let s = d(a[0], x).powi(2) + d(a[1], y).powi(2) + d(a[2], z).powi(2);
                        ensure!(rclose(*b.sqr_distance(&p), s), "sqr_distance({:?}) {:?}", p, b.sqr_distance(&p));
                        ensure!(rclose(*b.distance(&p), s.sqrt()), "distance({:?}) {:?}", p, b.distance(&p));
                        let mut mv = b.clone();
                        mv.move_by(x, y, z);
                        let ex = vec![(a[0].0 + x, a[0].1 + x), (a[1].0 + y, a[1].1 + y), (a[2].0 + z, a[2].1 + z)];
                        ensure!(i3(&mv) == ex, "moved by {:?}: {:?}", p, mv);
                    }
                }
            }
            for f in [0.5, 1.0, 2.0, 4.0] {
                let mut s = b.clone();
                s.scale(Positive::new(f).unwrap());
                let ex: Vec<Iv> = a.iter().map(|i| (m(*i) - f * (i.1 - i.0) / 2.0, m(*i) + f * (i.1 - i.0) / 2.0)).collect();
                ensure!(i3(&s).iter().zip(&ex).all(|(a, b)| rclose(a.0, b.0) && rclose(a.1, b.1)), "scaled by {}: {:?}", f, s);
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ boxes of point sets
fn tight(pts: &[Vec<f64>]) -> Option<Vec<Iv>> {
    if pts.len() < 2 {
        return None;
    }
    let n = pts[0].len();
    let r: Vec<Iv> = (0..n)
        .map(|d| (pts.iter().map(|p| p[d]).fold(f64::INFINITY, f64::min), pts.iter().map(|p| p[d]).fold(f64::NEG_INFINITY, f64::max)))
        .collect();
    if r.iter().all(|i| i.0 < i.1) {
        Some(r)
    } else {
        None
    }
}
fn points2(c: &mut Ctx, p: &[Vec<f64>]) {
    c.state(&p.iter().map(|p| (p[0].to_bits(), p[1].to_bits())).collect::<Vec<_>>());
    c.case(
        || format!("{:?}", p),
        |c| {
            c.trans(6);
            let t = tight(p);
            let v: Vec<Point2D> = p.iter().map(|p| Point2D::new(p[0], p[1])).collect();
            let same = |b: Option<BoundingBox2D>| b.map(|b| i2(&b)) == t;
            let r = BoundingBox2D::from_iterator(&v);
            if let (Err(e), true) = (&r, v.len() < 2) {
                ensure!(matches!(e, ErrorKind::TooFewPoints), "error {:?}", e);
            }
            ensure!(same(r.ok()), "from_iterator {:?}", BoundingBox2D::from_iterator(&v));
            ensure!(same(BoundingBox2D::from_into_iterator(v.clone()).ok()), "from_into_iterator");
            let pc = PointCloud2D::from(v.clone());
            ensure!(same(pc.bounding_box_maybe()), "point cloud {:?}", pc.bounding_box_maybe());
            if v.len() == 2 {
                let l = LineSegment2D::new(v[0].clone(), v[1].clone());
                ensure!(same(l.bounding_box_maybe()), "segment {:?}", l.bounding_box_maybe());
                let conv = HasBoundingBox2DConverted::new(l);
                ensure!(same(conv.as_ref().map(|x| x.bounding_box())), "converted segment");
                ensure!(same(conv.and_then(|x| x.bounding_box_maybe())), "converted segment maybe");
                if let (Some(t), Ok(b)) = (&t, BoundingBox2D::new(&v[0], &v[1])) {
                    ensure!(&i2(&b) == t, "new {:?}", b);
                } else {
                    let ok = v[0].x < v[1].x && v[0].y < v[1].y;
                    ensure!(BoundingBox2D::new(&v[0], &v[1]).is_ok() == ok, "new({:?})", v);
                }
            }
            let po = Polygon2D::from(pc);
            ensure!(same(po.bounding_box_maybe()), "polygon {:?}", po.bounding_box_maybe());
            Ok(())
        },
    );
}
fn points3(c: &mut Ctx, p: &[Vec<f64>]) {
    c.state(&p.iter().map(|p| (p[0].to_bits(), p[1].to_bits(), p[2].to_bits())).collect::<Vec<_>>());
    c.case(
        || format!("{:?}", p),
        |c| {
            c.trans(8);
            let t = tight(p);
            let v: Vec<Point3D> = p.iter().map(|p| Point3D::new(p[0], p[1], p[2])).collect();
            let same = |b: Option<BoundingBox3D>| b.map(|b| i3(&b)) == t;
            let r = BoundingBox3D::from_iterator(&v);
            if let (Err(e), true) = (&r, v.len() < 2) {
                ensure!(matches!(e, ErrorKind::TooFewPoints), "error {:?}", e);
            }
            ensure!(same(r.ok()), "from_iterator {:?}", BoundingBox3D::from_iterator(&v));
            ensure!(same(BoundingBox3D::from_into_iterator(v.clone()).ok()), "from_into_iterator");
            let pc = PointCloud3D::from(v.clone());
            ensure!(same(pc.bounding_box_maybe()), "point cloud {:?}", pc.bounding_box_maybe());
            let mut pf = PointCloud3Df32::<Point3D>::new();
            for p in &v {
                pf.push(p.clone());
            }
            let single: Vec<Vec<f64>> = p.iter().map(|p| p.iter().map(|x| *x as f32 as f64).collect()).collect();
            ensure!(pf.bounding_box_maybe().map(|b| i3(&b)) == tight(&single), "f32 point cloud {:?}", pf.bounding_box_maybe());
            if v.len() == 2 {
                let l = LineSegment3D::new(v[0].clone(), v[1].clone());
                ensure!(same(l.bounding_box_maybe()), "segment {:?}", l.bounding_box_maybe());
                let conv = HasBoundingBox3DConverted::new(l);
                ensure!(same(conv.as_ref().map(|x| x.bounding_box())), "converted segment");
                ensure!(same(conv.and_then(|x| x.bounding_box_maybe())), "converted segment maybe");
                let ok = (0..3).all(|d| p[0][d] < p[1][d]);
                let b = BoundingBox3D::new(&v[0], &v[1]);
                ensure!(b.is_ok() == ok, "new({:?})", v);
                if let Ok(b) = b {
                    ensure!(Some(i3(&b)) == t, "new {:?}", b);
                }
            }
            if v.len() == 3 {
                let f = TriFace3D::new(v[0].clone(), v[1].clone(), v[2].clone());
                ensure!(f.is_ok() == t.is_some(), "triangle accepted {}", f.is_ok());
                if let Ok(f) = f {
                    ensure!(same(Some(f.bounding_box())) && same(f.bounding_box_maybe()), "triangle");
                    let co = Collider3D::Face(f);
                    ensure!(same(Some(co.bounding_box())) && same(co.bounding_box_maybe()), "triangle collider");
                }
                let mut m = Mesh3D::<Point3D, PointCloud3D<Point3D>, Vec<usize>>::default();
                m.add_face(v[0].clone(), v[1].clone(), v[2].clone());
                ensure!(same(m.bounding_box_maybe()), "mesh {:?}", m.bounding_box_maybe());
                let s = SearchableMesh::<_, _, Vec<usize>>::new(m);
                ensure!(same(s.bounding_box_maybe()), "searchable mesh {:?}", s.bounding_box_maybe());
            }
            let po = Polygon3D::from(pc);
            ensure!(same(po.bounding_box_maybe()), "polygon {:?}", po.bounding_box_maybe());
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ shapes
fn near(got: &[Iv], want: &[Iv]) -> bool {
    got.iter().zip(want).all(|(a, b)| rclose(a.0, b.0) && rclose(a.1, b.1))
}
const POS: [f64; 4] = [-2.0, 0.0, 0.1, 3.5];
const SIZ: [f64; 4] = [0.25, 0.3, 1.0, 7.0];
fn shapes2(c: &mut Ctx) {
    for &x in &POS {
        for &y in &POS {
            for &s in &SIZ {
                for &t in &SIZ {
                    c.state(&(x.to_bits(), y.to_bits(), s.to_bits(), t.to_bits()));
                    c.case(
                        || format!("center ({},{}) sizes {} {}", x, y, s, t),
                        |c| {
                            c.trans(4);
                            let ce = Point2D::new(x, y);
                            let ps = Positive::new(s).unwrap();
                            let want = vec![(x - s, x + s), (y - s, y + s)];
                            let ci = Circle { center: ce.clone(), radius: ps };
                            ensure!(near(&i2(&ci.bounding_box()), &want), "circle {:?}", ci.bounding_box());
                            ensure!(ci.bounding_box_maybe() == Some(ci.bounding_box()), "circle maybe");
                            let f = FilterCircle::new(ci);
                            ensure!(near(&i2(&f.bounding_box()), &want), "circle filter {:?}", f.bounding_box());
                            ensure!(f.bounding_box_maybe() == Some(f.bounding_box()), "circle filter maybe");
                            let bx = Box2D { center: ce, size_x: ps, size_y: Positive::new(t).unwrap() };
                            let want = vec![(x - s / 2.0, x + s / 2.0), (y - t / 2.0, y + t / 2.0)];
                            ensure!(near(&i2(&bx.bounding_box()), &want), "box {:?}", bx.bounding_box());
                            ensure!(bx.bounding_box_maybe() == Some(bx.bounding_box()), "box maybe");
                            ensure!(near(&[(bx.min_p().x, bx.max_p().x), (bx.min_p().y, bx.max_p().y)], &want), "min_p/max_p");
                            ensure!(*bx.sizes()[0] == s && *bx.sizes()[1] == t, "sizes");
                            let back = <Box2D as std::convert::From<BoundingBox2D>>::from(bx.bounding_box());
                            ensure!(near(&i2(&back.bounding_box()), &want), "box from its bounding box");
                            let f = FilterBox2D::new(bx);
                            ensure!(near(&i2(&f.bounding_box()), &want), "box filter {:?}", f.bounding_box());
                            ensure!(f.bounding_box_maybe() == Some(f.bounding_box()), "box filter maybe");
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}
fn shapes3(c: &mut Ctx) {
    for &x in &POS {
        for &y in &POS {
            for &z in &POS {
                for &s in &SIZ {
                    for &t in &SIZ {
                        for &u in &SIZ {
                            c.state(&[x.to_bits(), y.to_bits(), z.to_bits(), s.to_bits(), t.to_bits(), u.to_bits()]);
                            c.case(
                                || format!("center ({},{},{}) sizes {} {} {}", x, y, z, s, t, u),
                                |c| {
                                    c.trans(5);
                                    let ce = Point3D::new(x, y, z);
                                    let (ps, pt, pu) = (Positive::new(s).unwrap(), Positive::new(t).unwrap(), Positive::new(u).unwrap());
                                    let want = vec![(x - s, x + s), (y - s, y + s), (z - s, z + s)];
                                    let sp = Sphere { center: ce.clone(), radius: ps };
                                    ensure!(near(&i3(&sp.bounding_box()), &want), "sphere {:?}", sp.bounding_box());
                                    ensure!(sp.bounding_box_maybe() == Some(sp.bounding_box()), "sphere maybe");
                                    let f = FilterSphere::new(sp);
                                    ensure!(near(&i3(&f.bounding_box()), &want), "sphere filter {:?}", f.bounding_box());
                                    ensure!(f.bounding_box_maybe() == Some(f.bounding_box()), "sphere filter maybe");
                                    let h = |c: f64, s: f64| (c - s / 2.0, c + s / 2.0);
                                    let want = vec![h(x, s), h(y, t), h(z, u)];
                                    let bx = Box3D { center: ce.clone(), size_x: ps, size_y: pt, size_z: pu };
                                    ensure!(near(&i3(&bx.bounding_box()), &want), "box {:?}", bx.bounding_box());
                                    ensure!(bx.bounding_box_maybe() == Some(bx.bounding_box()), "box maybe");
                                    let (p, q) = (bx.min_p(), bx.max_p());
                                    ensure!(near(&[(p.x, q.x), (p.y, q.y), (p.z, q.z)], &want), "min_p/max_p");
                                    ensure!(bx.sizes() == [ps, pt, pu], "sizes");
                                    let back = <Box3D as std::convert::From<BoundingBox3D>>::from(bx.bounding_box());
                                    ensure!(near(&i3(&back.bounding_box()), &want), "box from its bounding box");
                                    let un = BoxUnaligned3D::new_from_bb(&bx.bounding_box());
                                    ensure!(near(&i3(&un.bounding_box()), &want), "unaligned box {:?}", un.bounding_box());
                                    ensure!(un.bounding_box_maybe() == Some(un.bounding_box()), "unaligned box maybe");
                                    let co = Collider3D::AABB(bx.bounding_box());
                                    ensure!(co.bounding_box() == bx.bounding_box(), "aabb collider");
                                    let f = FilterBox3D::new(bx);
                                    ensure!(near(&i3(&f.bounding_box()), &want), "box filter {:?}", f.bounding_box());
                                    ensure!(f.bounding_box_maybe() == Some(f.bounding_box()), "box filter maybe");
                                    // turned around z: the box must contain the eight corners and be no larger than the bounding sphere
                                    for k in (0..24).chain([-5, -23, -29, -77, 31, 101, 1001, -12345]) {
                                        let a = k as f64 * std::f64::consts::PI / 12.0;
                                        let un = BoxUnaligned3D::new_from_z_rotation(&ce, [ps, pt, pu], a);
                                        let hx = (a.cos().abs() * s + a.sin().abs() * t) / 2.0;
                                        let hy = (a.sin().abs() * s + a.cos().abs() * t) / 2.0;
                                        let b = i3(&un.bounding_box());
                                        let r = (s * s + t * t).sqrt() / 2.0;
                                        for (i, hh, top) in [(0, hx, r), (1, hy, r), (2, u / 2.0, u / 2.0)] {
                                            let m = [x, y, z][i];
                                            ensure!(b[i].0 <= m - hh + 1e-9 && b[i].1 >= m + hh - 1e-9, "turned by {}/12 pi: {:?} does not contain half size {} on axis {}", k, b, hh, i);
                                            // (a looser box than the bounding sphere's or the largest size would not be tight in any sense)
                                            let lim = top.max(s).max(t).max(u);
                                            ensure!(b[i].0 >= m - lim - 1e-9 && b[i].1 <= m + lim + 1e-9, "turned by {}/12 pi: {:?} far too large on axis {}", k, b, i);
                                        }
                                        let co = Collider3D::Box3(un.clone());
                                        ensure!(i3(&co.bounding_box()) == b, "unaligned collider");
                                    }
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }
        }
    }
}
/// boxes turned to any frame of the direction lattice: their bounding box holds all eight corners
fn turned3(c: &mut Ctx) {
    let r = if c.thorough() { 2i32 } else { 1 };
    let mut dirs = vec![];
    for x in -r..=r {
        for y in -r..=r {
            for z in -r..=r {
                if (x, y, z) != (0, 0, 0) {
                    dirs.push([x as f64, y as f64, z as f64]);
                }
            }
        }
    }
    for extra in &[[[0.6, 0.8, 0.0], [0.0, 0.0, 1.0]], [[0.0, 0.28, 0.96], [1.0, 0.0, 0.0]], [[2.0, -1.0, 2.0], [1.0, 2.0, 0.0]], [[3.0, -6.0, 2.0], [2.0, 3.0, 6.0]]] {
        frame3(c, extra[0], extra[1]);
        frame3(c, extra[1], extra[0].map(|v: f64| -v));
    }
    for &y in dirs.as_slice() {
        for &z in dirs.as_slice() {
            if (0..3).map(|k| y[k] * z[k]).sum::<f64>() == 0.0 {
                frame3(c, y, z);
            }
            if c.stopped() {
                return;
            }
        }
    }
}
fn frame3(c: &mut Ctx, y: [f64; 3], z: [f64; 3]) {
    let unit = |v: [f64; 3]| {
        let l = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
        v.map(|x| x / l)
    };
    let (uy, uz) = (unit(y), unit(z));
    let ux = [uz[1] * uy[2] - uz[2] * uy[1], uz[2] * uy[0] - uz[0] * uy[2], uz[0] * uy[1] - uz[1] * uy[0]];
    for ce in &[[0.0, 0.0, 0.0], [-4.0, 0.5, 100.0]] {
        for s in &[[1.0, 2.0, 0.5], [8.0, 0.125, 1.0], [0.25, 0.25, 3.0]] {
            c.state(&(y.map(f64::to_bits), z.map(f64::to_bits), ce.map(f64::to_bits), s.map(f64::to_bits)));
            c.case(
                || format!("y {:?} z {:?} sizes {:?} center {:?}", y, z, s, ce),
                |c| {
                    c.trans(2);
                    let un = BoxUnaligned3D {
                        center: Point3D::new(ce[0], ce[1], ce[2]),
                        y_dir: Norm3D::new(Point3D::new(y[0], y[1], y[2])).ok().unwrap(),
                        z_dir: Norm3D::new(Point3D::new(z[0], z[1], z[2])).ok().unwrap(),
                        size: s.map(|x| Positive::new(x).unwrap()),
                    };
                    let b = i3(&un.bounding_box());
                    let r = (s[0] * s[0] + s[1] * s[1] + s[2] * s[2]).sqrt() / 2.0;
                    for i in 0..3 {
                        let h = (s[0] * ux[i].abs() + s[1] * uy[i].abs() + s[2] * uz[i].abs()) / 2.0;
                        ensure!(b[i].0 <= ce[i] - h + 1e-9 && b[i].1 >= ce[i] + h - 1e-9, "{:?} does not hold half size {} on axis {}", b, h, i);
                        let lim = r.max(s[0]).max(s[1]).max(s[2]);
                        ensure!(b[i].0 >= ce[i] - lim - 1e-9 && b[i].1 <= ce[i] + lim + 1e-9, "{:?} far too large on axis {}", b, i);
                    }
                    ensure!(i3(&Collider3D::Box3(un.clone()).bounding_box()) == b && un.bounding_box_maybe() == Some(un.bounding_box()), "its other bounding boxes differ");
                    Ok(())
                },
            );
        }
    }
}
/// invalid corners, including NaN
fn invalid(c: &mut Ctx) {
    let v = [-1.0, -0.0, 0.0, 1.0, f64::NAN];
    tuples(v.len(), 6, |t| {
        let p: Vec<f64> = t.iter().map(|&i| v[i]).collect();
        c.case(
            || format!("{:?}", p),
            |c| {
                c.trans(2);
                let ok = p[0] < p[3] && p[1] < p[4] && p[2] < p[5];
                let b = BoundingBox3D::new(&Point3D::new(p[0], p[1], p[2]), &Point3D::new(p[3], p[4], p[5]));
                ensure!(b.is_ok() == ok, "3D box {:?}", b);
                let ok = p[0] < p[3] && p[1] < p[4];
                let b = BoundingBox2D::new(&Point2D::new(p[0], p[1]), &Point2D::new(p[3], p[4]));
                ensure!(b.is_ok() == ok, "2D box {:?}", b);
                Ok(())
            },
        )
    });
}

fn all_boxes(v: &[f64], n: usize, f: &mut dyn FnMut(&[Iv]) -> bool) {
    let iv = ivs(v);
    tuples(iv.len(), n, |t| {
        let a: Vec<Iv> = t.iter().map(|&i| iv[i]).collect();
        f(&a)
    });
}
const DY: [f64; 4] = [-1.0, 0.0, 2.0, 3.0];
const DY5: [f64; 5] = [-2.5, -1.0, 0.0, 1.0, 2.0];
const DEC: [f64; 7] = [-0.7, 0.1, 0.2, 0.3, 0.7, 1.1, 1e-20];
const BIG: [f64; 6] = [-1e16, -1.0, 0.0, 1e-17, 1.0, 1e16];
fn points(v: &[f64], dim: usize) -> Vec<Vec<f64>> {
    let mut r = vec![];
    tuples(v.len(), dim, |t| {
        r.push(t.iter().map(|&i| v[i]).collect());
        true
    });
    r
}
fn main() {
    let mut gs = vec![];
    for (n, v) in [("dyadic", DY5.to_vec()), ("decimal", DEC.to_vec()), ("magnitudes", BIG.to_vec())] {
        gs.push(g(format!("pairs2-{}", n), move |c| {
            all_boxes(&v, 2, &mut |a| {
                all_boxes(&v, 2, &mut |b| {
                    pair2(c, a, b);
                    !c.stopped()
                });
                !c.stopped()
            });
        }));
    }
    // all pairs of 3D boxes over 4 values per axis; decimals and magnitudes vary two axes at a time
    for part in 0..6 {
        gs.push(g(format!("pairs3-dyadic-{}", part), move |c| {
            let v: Vec<f64> = c.q(DY.to_vec(), DY5.to_vec());
            let mut i = 0;
            all_boxes(&v, 3, &mut |a| {
                i += 1;
                if i % 6 == part {
                    all_boxes(&v, 3, &mut |b| {
                        pair3(c, a, b);
                        !c.stopped()
                    });
                }
                !c.stopped()
            });
        }));
    }
    for (n, v) in [("decimal", DEC.to_vec()), ("magnitudes", BIG.to_vec())] {
        for ax in 0..3 {
            let v = v.clone();
            gs.push(g(format!("pairs3-{}-{}", n, ax), move |c| {
                all_boxes(&v, 2, &mut |a2| {
                    let a: Vec<Iv> = (0..3).map(|d| a2[(d == ax) as usize]).collect();
                    all_boxes(&v, 2, &mut |b2| {
                        let b: Vec<Iv> = (0..3).map(|d| b2[(d == ax) as usize]).collect();
                        pair3(c, &a, &b);
                        !c.stopped()
                    });
                    !c.stopped()
                });
            }));
        }
    }
    gs.push(g("single2", |c| {
        all_boxes(&DY5, 2, &mut |a| {
            single2(c, a, &[-4.0, -2.5, -1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0]);
            !c.stopped()
        });
        all_boxes(&DEC, 2, &mut |a| {
            single2(c, a, &DEC);
            !c.stopped()
        });
    }));
    gs.push(g("single3", |c| {
        all_boxes(&DY5, 3, &mut |a| {
            single3(c, a, &[-4.0, -2.5, -1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0]);
            !c.stopped()
        });
    }));
    gs.push(g("points2", |c| {
        let pts = points(&[-1.5, 0.0, 2.0], 2);
        for n in 0..=c.q(5, 6) {
            tuples(pts.len(), n, |t| {
                let p: Vec<_> = t.iter().map(|&i| pts[i].clone()).collect();
                points2(c, &p);
                !c.stopped()
            });
        }
    }));
    gs.push(g("points3", |c| {
        let pts = points(&[-1.5, 2.0], 3);
        for n in 0..=c.q(5, 6) {
            tuples(pts.len(), n, |t| {
                let p: Vec<_> = t.iter().map(|&i| pts[i].clone()).collect();
                points3(c, &p);
                !c.stopped()
            });
        }
        let pts = points(&[-1.5, 0.0, 2.0], 3);
        for n in 2..=c.q(3, 4) {
            tuples(pts.len(), n, |t| {
                let p: Vec<_> = t.iter().map(|&i| pts[i].clone()).collect();
                points3(c, &p);
                !c.stopped()
            });
        }
    }));
    for n in sizes(true) {
        gs.extend(parts(format!("large {}", n), if n > 1000 { 8 } else { 1 }, move |c| {
            if c.size(n, HUGE) {
                large(c, n)
            }
        }));
    }
    // a tolerance of any size in any relation joins or separates some of these
    for ax in 0..3usize {
        gs.push(g(format!("close {}", ax), move |c| {
            for l in ladders() {
                let v = ivs(&l);
                let at = |o: Iv, x: Iv, n: usize| -> Vec<Iv> { (0..n).map(|d| if d == ax { x } else { o }).collect() };
                for &x in v.iter() {
                    for &y in v.iter() {
                        for (o, u) in [((-1.0, 2.0), (-1.0, 2.0)), ((-1.0, 2.0), (0.0, 1.0))] {
                            if ax < 2 {
                                pair2(c, &at(o, x, 2), &at(u, y, 2));
                            }
                            pair3(c, &at(o, x, 3), &at(u, y, 3));
                        }
                    }
                }
                let shift: Vec<f64> = l.iter().map(|x| x * 0.5).collect();
                for o in 0..l.len() {
                    for p in 0..l.len() {
                        let (a, b) = (l[o], l[p]);
                        c.case(
                            || format!("min {} max {} along {}", a, b, ax),
                            |c| {
                                c.trans(2);
                                let f = |d: usize, v: f64, r: f64| if d == ax { v } else { r };
                                let q = BoundingBox3D::new(&Point3D::new(f(0, a, -1.0), f(1, a, -1.0), f(2, a, -1.0)), &Point3D::new(f(0, b, 2.0), f(1, b, 2.0), f(2, b, 2.0)));
                                ensure!(q.is_ok() == (a < b), "3D box {:?}", q);
                                if ax < 2 {
                                    let q = BoundingBox2D::new(&Point2D::new(f(0, a, -1.0), f(1, a, -1.0)), &Point2D::new(f(0, b, 2.0), f(1, b, 2.0)));
                                    ensure!(q.is_ok() == (a < b), "2D box {:?}", q);
                                }
                                Ok(())
                            },
                        );
                        let t = |v: f64, r: f64, n: usize| -> Vec<f64> { (0..n).map(|d| if d == ax { v } else { r }).collect() };
                        for s in [shift[0], l[(o + p) % l.len()]] {
                            if ax < 2 {
                                points2(c, &[t(a, 0.0, 2), t(b, 1.0, 2), t(s, 0.5, 2)]);
                            }
                            points3(c, &[t(a, 0.0, 3), t(b, 1.0, 3), t(s, 0.5, 3)]);
                        }
                    }
                }
                if c.stopped() {
                    return;
                }
            }
        }));
    }
    gs.push(g("scaled", scaled));
    gs.push(g("shapes2", shapes2));
    gs.push(g("shapes3", shapes3));
    gs.push(g("turned boxes", turned3));
    gs.push(g("invalid", invalid));
    gs.push(g("default", |c| {
        c.case(
            || "default".into(),
            |_| {
                ensure!(i2(&BoundingBox2D::default()) == vec![(-0.5, 0.5); 2], "2D default");
                ensure!(i3(&BoundingBox3D::default()) == vec![(-0.5, 0.5); 3], "3D default");
                Ok(())
            },
        );
    }));
    mc::main(
        Spec {
            prop: "C11",
            level: "model_checking",
            rule: "all boxes / box pairs / point tuples over the listed per-axis values; a state is a distinct box pair or point tuple, a transition one query compared with the per-axis interval definition",
            assumptions: &["Touching boxes do not collide, touching positions are not contained (strict comparisons, as implemented consistently for every relation)", "distances and centers are compared to 1e-12 relative precision"],
        },
        gs,
    );
}
