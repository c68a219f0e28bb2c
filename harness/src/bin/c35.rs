//! C35: equality, hashing and ordering are consistent; deduplication reproduces its input.
use mc::*;
use rust_3d::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

const V: [f64; 6] = [0.0, -0.0, 1.0, -1.5, 1e-300, 2.0];

fn h(x: &impl Hash) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
/// hash fed through a hasher that only records the written bytes
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn rec(x: &impl Hash) -> Vec<u8> {
    let mut r = Rec::default();
    x.hash(&mut r);
    r.0
}
/// `vals`: value and a reference form; two values must be equal exactly when their reference forms are
fn eq_hash<T: PartialEq + Eq + Hash + Debug, K: PartialEq>(c: &mut Ctx, vals: &[(T, K)]) {
    for (i, a) in vals.iter().enumerate() {
        for (j, b) in vals.iter().enumerate() {
            c.state(&(i, j));
            c.case(
                || format!("{:?} {:?}", a.0, b.0),
                |c| {
                    c.trans(2);
                    let e = a.0 == b.0;
                    ensure!(e == (a.1 == b.1), "equality is {}", e);
                    ensure!((a.0 != b.0) == !e, "!= disagrees with ==");
                    if e {
                        ensure!(h(&a.0) == h(&b.0) && rec(&a.0) == rec(&b.0), "equal values hash differently");
                    }
                    Ok(())
                },
            );
        }
    }
}
fn order<T: Debug>(c: &mut Ctx, vals: &[T], what: &str, cmp: impl Fn(&T, &T) -> Option<Ordering>, eq: impl Fn(&T, &T) -> bool) {
    let n = vals.len();
    let m: Vec<Vec<Option<Ordering>>> = vals.iter().map(|a| vals.iter().map(|b| cmp(a, b)).collect()).collect();
    for i in 0..n {
        c.case(
            || format!("{} {:?}", what, vals[i]),
            |c| {
                for j in 0..n {
                    c.trans(n);
                    let o = m[i][j];
                    ensure!(o.is_some(), "{:?} not comparable", vals[j]);
                    ensure!(m[j][i] == o.map(|o| o.reverse()), "order of {:?} depends on the side: {:?} {:?}", vals[j], o, m[j][i]);
                    if eq(&vals[i], &vals[j]) {
                        ensure!(o == Some(Ordering::Equal), "equal to {:?} but ordered {:?}", vals[j], o);
                    }
                    for k in 0..n {
                        if m[j][k].unwrap() != Ordering::Greater && o.unwrap() != Ordering::Greater {
                            ensure!(m[i][k].unwrap() != Ordering::Greater, "not transitive over {:?}, {:?}", vals[j], vals[k]);
                            if m[j][k].unwrap() == Ordering::Less || o.unwrap() == Ordering::Less {
                                ensure!(m[i][k].unwrap() == Ordering::Less, "strictness lost over {:?}, {:?}", vals[j], vals[k]);
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    }
}
fn all<T: PartialEq + Eq + Hash + Debug + PartialOrd + Ord, K: PartialEq>(c: &mut Ctx, vals: Vec<(T, K)>) {
    eq_hash(c, &vals);
    let v: Vec<T> = vals.into_iter().map(|x| x.0).collect();
    order(c, &v, "cmp", |a, b| Some(a.cmp(b)), |a, b| a == b);
    order(c, &v, "partial_cmp", |a, b| a.partial_cmp(b), |a, b| a == b);
}
fn coords(n: usize, v: &[f64]) -> Vec<Vec<f64>> {
    let mut r = vec![];
    tuples(v.len(), n, |t| {
        r.push(t.iter().map(|&i| v[i]).collect());
        true
    });
    r
}
fn p2(v: &[f64]) -> Point2D {
    Point2D::new(v[0], v[1])
}
fn p3(v: &[f64]) -> Point3D {
    Point3D::new(v[0], v[1], v[2])
}
const S: [f64; 3] = [0.0, -0.0, 1.0];
const POS: [f64; 3] = [0.5, 1.0, 3.0];
fn pos(x: f64) -> Positive {
    Positive::new(x).unwrap()
}
/// removing duplicates
fn dedup<T: Eq + Hash + Clone + Debug>(c: &mut Ctx, vals: &[T], max: usize) {
    for n in 0..=max {
        tuples(vals.len(), n, |t| {
            c.state(&t.to_vec());
            let inp: Vec<T> = t.iter().map(|&i| vals[i].clone()).collect();
            c.case(
                || format!("dedup {:?}", inp),
                |c| {
                    c.trans(n);
                    let (packed, ids) = pack_dupes_indexed(inp.as_slice().iter());
                    ensure!(ids.len() == n, "{} indices for {} values", ids.len(), n);
                    for (i, x) in inp.as_slice().iter().enumerate() {
                        ensure!(packed.get(ids[i]) == Some(x), "index {} refers to {:?}", i, packed.get(ids[i]));
                    }
                    for i in 0..packed.len() {
                        for j in 0..i {
                            ensure!(packed[i] != packed[j], "duplicate kept: {:?}", packed);
                        }
                        ensure!(ids.as_slice().contains(&i), "entry {} of {:?} is not used", i, packed);
                    }
                    Ok(())
                },
            );
            !c.stopped()
        });
    }
}
fn main() {
    let mut gs = vec![];
    gs.push(g("Point2D", |c| all(c, coords(2, &V).iter().map(|v| (p2(v), v.clone())).collect())));
    gs.push(g("Point3D", |c| all(c, coords(3, &V[..c.q(5, 6)]).iter().map(|v| (p3(v), v.clone())).collect())));
    gs.push(g("Norm2D", |c| {
        all(
            c,
            coords(2, &V[..4])
                .iter()
                .filter_map(|v| {
                    let n = <Norm2D as IsNormalized2D>::new(p2(v)).ok()?;
                    let k = (n.x(), n.y());
                    Some((n, k))
                })
                .collect(),
        )
    }));
    gs.push(g("Norm3D", |c| {
        all(
            c,
            coords(3, &V[..4])
                .iter()
                .filter_map(|v| {
                    let n = <Norm3D as IsNormalized3D>::new(p3(v)).ok()?;
                    let k = (n.x(), n.y(), n.z());
                    Some((n, k))
                })
                .collect(),
        )
    }));
    gs.push(g("numbers", |c| {
        let v: Vec<_> = V.iter().filter_map(|x| Some((Positive::new(*x)?, *x))).collect();
        eq_hash(c, &v);
        order(c, &v.iter().map(|x| x.0).collect::<Vec<_>>(), "partial_cmp", |a, b| a.partial_cmp(b), |a, b| a == b);
        let v: Vec<_> = V.iter().filter_map(|x| Some((NonNegative::new(*x)?, *x))).collect();
        eq_hash(c, &v);
        order(c, &v.iter().map(|x| x.0).collect::<Vec<_>>(), "partial_cmp", |a, b| a.partial_cmp(b), |a, b| a == b);
        let d: Vec<f64> = V.to_vec();
        order(c, &d.iter().map(|x| Rad(*x)).collect::<Vec<_>>(), "partial_cmp", |a, b| a.partial_cmp(b), |a, b| a == b);
        order(c, &d.iter().map(|x| Deg(*x)).collect::<Vec<_>>(), "partial_cmp", |a, b| a.partial_cmp(b), |a, b| a == b);
    }));
    gs.push(g("ids", |c| {
        let u = [0usize, 1, 255, 256, usize::MAX];
        all(c, u.iter().map(|x| (VId(*x), *x)).collect());
        all(c, u.iter().map(|x| (FId(*x), *x)).collect());
        all(c, u.iter().map(|x| (EId(*x), *x)).collect());
        all(c, u.iter().map(|x| (SId(*x), *x)).collect());
        let mut f = vec![];
        tuples(3, 3, |t| {
            f.push((Face3::new(VId(t[0]), VId(t[1]), VId(t[2])), t.to_vec()));
            true
        });
        all(c, f);
        let mut f = vec![];
        let b = [0u8, 1, 255];
        tuples(3, 3, |t| {
            f.push((Rgb::new(b[t[0]], b[t[1]], b[t[2]]), t.to_vec()));
            true
        });
        all(c, f);
    }));
    gs.push(g("Circle", |c| {
        all(
            c,
            coords(2, &V[..4]).iter().flat_map(|v| POS.map(|r| (Circle { center: p2(v), radius: pos(r) }, (v.clone(), r)))).collect(),
        )
    }));
    gs.push(g("Sphere", |c| {
        all(
            c,
            coords(3, &S).iter().flat_map(|v| POS.map(|r| (Sphere { center: p3(v), radius: pos(r) }, (v.clone(), r)))).collect(),
        )
    }));
    gs.push(g("Box2D", |c| {
        let mut r = vec![];
        for v in coords(2, &V[..4]) {
            for s in coords(2, &POS) {
                r.push((Box2D { center: p2(&v), size_x: pos(s[0]), size_y: pos(s[1]) }, (v.clone(), s)));
            }
        }
        all(c, r)
    }));
    gs.push(g("Box3D", |c| {
        let mut r = vec![];
        for v in coords(3, &S) {
            for s in coords(3, &POS[..2]) {
                r.push((Box3D { center: p3(&v), size_x: pos(s[0]), size_y: pos(s[1]), size_z: pos(s[2]) }, (v.clone(), s)));
            }
        }
        all(c, r)
    }));
    gs.push(g("Filters", |c| {
        all(
            c,
            coords(2, &S).iter().flat_map(|v| POS.map(|r| (FilterCircle::new(Circle { center: p2(v), radius: pos(r) }), (v.clone(), r)))).collect(),
        );
        all(
            c,
            coords(3, &S).iter().flat_map(|v| POS.map(|r| (FilterSphere::new(Sphere { center: p3(v), radius: pos(r) }), (v.clone(), r)))).collect(),
        );
        all(
            c,
            coords(2, &S)
                .iter()
                .flat_map(|v| POS.map(|r| (FilterBox2D::new(Box2D { center: p2(v), size_x: pos(r), size_y: pos(1.0) }), (v.clone(), r))))
                .collect(),
        );
        all(
            c,
            coords(3, &S)
                .iter()
                .flat_map(|v| POS.map(|r| (FilterBox3D::new(Box3D { center: p3(v), size_x: pos(1.0), size_y: pos(1.0), size_z: pos(r) }), (v.clone(), r))))
                .collect(),
        );
    }));
    gs.push(g("BoundingBox2D", |c| {
        all(
            c,
            coords(4, &[-1.0, 0.0, -0.0, 1.0])
                .iter()
                .filter_map(|v| Some((BoundingBox2D::new(&p2(&v[..2]), &p2(&v[2..])).ok()?, v.clone())))
                .collect(),
        )
    }));
    gs.push(g("BoundingBox3D", |c| {
        all(
            c,
            coords(6, &[-1.0, 0.0, 1.0])
                .iter()
                .filter_map(|v| Some((BoundingBox3D::new(&p3(&v[..3]), &p3(&v[3..])).ok()?, v.clone())))
                .collect(),
        )
    }));
    gs.push(g("lines", |c| {
        let mut l2 = vec![];
        let mut l3 = vec![];
        let mut s2 = vec![];
        let mut s3 = vec![];
        let mut pl = vec![];
        for v in coords(4, &S) {
            s2.push((LineSegment2D::new(p2(&v[..2]), p2(&v[2..])), v.clone()));
            if let Ok(n) = <Norm2D as IsNormalized2D>::new(p2(&v[2..])) {
                let k = (v[..2].to_vec(), n.x(), n.y());
                l2.push((Line2D::new(p2(&v[..2]), n), k));
            }
        }
        for v in coords(6, &S) {
            if v[1] == 1.0 {
                continue;
            }
            if v[2] == 0.0 {
                s3.push((LineSegment3D::new(p3(&v[..3]), p3(&v[3..])), v.clone()));
            }
            if let Ok(n) = <Norm3D as IsNormalized3D>::new(p3(&v[3..])) {
                let k = (v[..3].to_vec(), n.x(), n.y(), n.z());
                if v[0] != 0.0 {
                    pl.push((<Plane3D<Point3D, Norm3D> as IsPlane3D<_, _>>::new(p3(&v[..3]), Norm3D::norm_x(), n.clone()), k.clone()));
                }
                if v[2] == 0.0 {
                    l3.push((Line3D::new(p3(&v[..3]), n), k));
                }
            }
        }
        eq_hash(c, &s2);
        eq_hash(c, &s3);
        all(c, l2.iter().map(|(l, k)| (Ray2D::new(l.clone()), k.clone())).collect());
        all(c, l3.iter().map(|(l, k)| (Ray3D::new(l.clone()), k.clone())).collect());
        all(c, l2);
        all(c, l3);
        all(c, pl);
    }));
    gs.push(g("clouds", |c| {
        let mut v2 = vec![];
        let mut v3 = vec![];
        for n in 0..3 {
            for v in coords(2 * n, &S) {
                v2.push((PointCloud2D::from(v.chunks(2).map(p2).collect::<Vec<_>>()), v.clone()));
            }
        }
        for n in 0..3 {
            for v in coords(3 * n, &S[1..]) {
                v3.push((PointCloud3D::from(v.chunks(3).map(p3).collect::<Vec<_>>()), v.clone()));
            }
        }
        for v in coords(3, &S) {
            v3.push((PointCloud3D::from(vec![p3(&v)]), v.clone()));
        }
        all(c, v2.iter().map(|(p, k)| (Polygon2D::from(p.clone()), k.clone())).collect());
        all(c, v3.iter().map(|(p, k)| (Polygon3D::from(p.clone()), k.clone())).collect());
        all(c, v2);
        all(c, v3);
    }));
    gs.push(g("meshes", |c| {
        let mut r = vec![];
        for v in coords(3, &S) {
            for f in 0..4usize {
                let mut m = Mesh3D::<Point3D, Vec<Point3D>, Vec<usize>>::default();
                m.add_face(p3(&v), Point3D::new(2.0, 0.0, 0.0), Point3D::new(0.0, 3.0, 0.0));
                if f & 1 > 0 {
                    m.try_add_connection(VId(0), VId(2), VId(1)).unwrap();
                }
                if f & 2 > 0 {
                    m.try_add_connection(VId(1), VId(2), VId(0)).unwrap();
                }
                r.push((m, (v.clone(), f)));
            }
        }
        all(c, r);
    }));
    // a tolerance in any comparison joins some of the values of a ladder and is not transitive
    for kind in 0..4 {
        gs.push(g(format!("close {}", kind), move |c| {
            for l in ladders() {
                let lp: Vec<f64> = l.as_slice().iter().map(|x| x.abs() + 0.5).collect();
                let on = |base: [f64; 6], k: usize, x: f64| {
                    let mut b = base;
                    b[k] = x;
                    b
                };
                for k in 0..3 {
                    for rest in [0.0f64, 3.0] {
                        let v: Vec<[f64; 6]> = l.as_slice().iter().map(|x| on([rest; 6], k, *x)).collect();
                        let it = || v.as_slice().iter().map(|v| (v.to_vec(), v.to_vec()));
                        match kind {
                            0 => {
                                if k < 2 {
                                    all(c, it().map(|(v, k)| (p2(&v), k)).collect());
                                }
                                all(c, it().map(|(v, k)| (p3(&v), k)).collect());
                                all(c, it().map(|(v, k)| (PointCloud3D::from(vec![p3(&v)]), k)).collect());
                                all(c, it().map(|(v, k)| (Polygon3D::from(PointCloud3D::from(vec![p3(&v), p3(&v)])), k)).collect());
                                if k < 2 {
                                    all(c, it().map(|(v, k)| (PointCloud2D::from(vec![p2(&v)]), k)).collect());
                                    all(c, it().map(|(v, k)| (Polygon2D::from(PointCloud2D::from(vec![p2(&v), p2(&v)])), k)).collect());
                                }
                            }
                            1 => {
                                all(c, it().map(|(v, k)| (Sphere { center: p3(&v), radius: pos(1.0) }, k)).collect());
                                all(c, it().map(|(v, k)| (FilterSphere::new(Sphere { center: p3(&v), radius: pos(1.0) }), k)).collect());
                                all(c, it().map(|(v, k)| (Box3D { center: p3(&v), size_x: pos(1.0), size_y: pos(2.0), size_z: pos(1.0) }, k)).collect());
                                if k < 2 {
                                    all(c, it().map(|(v, k)| (Circle { center: p2(&v), radius: pos(1.0) }, k)).collect());
                                    all(c, it().map(|(v, k)| (Box2D { center: p2(&v), size_x: pos(1.0), size_y: pos(2.0) }, k)).collect());
                                }
                                let it = || lp.as_slice().iter().map(|x| (pos(*x), *x));
                                let (a, b) = (pos(1.0), pos(2.0));
                                match k {
                                    0 => {
                                        all(c, it().map(|(r, k)| (Sphere { center: p3(&[rest; 3]), radius: r }, k)).collect());
                                        all(c, it().map(|(r, k)| (Circle { center: p2(&[rest; 2]), radius: r }, k)).collect());
                                        all(c, it().map(|(r, k)| (FilterCircle::new(Circle { center: p2(&[rest; 2]), radius: r }), k)).collect());
                                        all(c, it().map(|(r, k)| (Box3D { center: p3(&[rest; 3]), size_x: r, size_y: a, size_z: b }, k)).collect());
                                        all(c, it().map(|(r, k)| (Box2D { center: p2(&[rest; 2]), size_x: r, size_y: a }, k)).collect());
                                    }
                                    1 => {
                                        all(c, it().map(|(r, k)| (Box3D { center: p3(&[rest; 3]), size_x: a, size_y: r, size_z: b }, k)).collect());
                                        all(c, it().map(|(r, k)| (Box2D { center: p2(&[rest; 2]), size_x: a, size_y: r }, k)).collect());
                                        all(c, it().map(|(r, k)| (FilterBox2D::new(Box2D { center: p2(&[rest; 2]), size_x: a, size_y: r }), k)).collect());
                                    }
                                    _ => {
                                        all(c, it().map(|(r, k)| (Box3D { center: p3(&[rest; 3]), size_x: a, size_y: b, size_z: r }, k)).collect());
                                        all(c, it().map(|(r, k)| (FilterBox3D::new(Box3D { center: p3(&[rest; 3]), size_x: a, size_y: b, size_z: r }), k)).collect());
                                    }
                                }
                            }
                            2 => {
                                let far = [-1e7f64, 1e7];
                                all(c, it().map(|(v, k)| (BoundingBox3D::new(&p3(&[far[0]; 3]), &p3(&v)).unwrap(), k)).collect());
                                all(c, it().map(|(v, k)| (BoundingBox3D::new(&p3(&v), &p3(&[far[1]; 3])).unwrap(), k)).collect());
                                if k < 2 {
                                    all(c, it().map(|(v, k)| (BoundingBox2D::new(&p2(&[far[0]; 2]), &p2(&v)).unwrap(), k)).collect());
                                    all(c, it().map(|(v, k)| (BoundingBox2D::new(&p2(&v), &p2(&[far[1]; 2])).unwrap(), k)).collect());
                                    eq_hash(c, &it().map(|(v, k)| (LineSegment2D::new(p2(&v), p2(&far)), k)).collect::<Vec<_>>());
                                    eq_hash(c, &it().map(|(v, k)| (LineSegment2D::new(p2(&far), p2(&v)), k)).collect::<Vec<_>>());
                                    all(c, it().map(|(v, k)| (Line2D::new(p2(&v), Norm2D::norm_y()), k)).collect());
                                    all(c, it().map(|(v, k)| (Ray2D::new(Line2D::new(p2(&v), Norm2D::norm_y())), k)).collect());
                                }
                                let at = p3(&[0.5, 0.25, 7.0]);
                                eq_hash(c, &it().map(|(v, k)| (LineSegment3D::new(p3(&v), at.clone()), k)).collect::<Vec<_>>());
                                eq_hash(c, &it().map(|(v, k)| (LineSegment3D::new(at.clone(), p3(&v)), k)).collect::<Vec<_>>());
                                all(c, it().map(|(v, k)| (Line3D::new(p3(&v), Norm3D::norm_y()), k)).collect());
                                all(c, it().map(|(v, k)| (Ray3D::new(Line3D::new(p3(&v), Norm3D::norm_y())), k)).collect());
                                all(c, it().map(|(v, k)| (<Plane3D<Point3D, Norm3D> as IsPlane3D<_, _>>::new(p3(&v), Norm3D::norm_x(), Norm3D::norm_y()), k)).collect());
                            }
                            _ => {
                                // directions that differ by little
                                let n3: Vec<(Norm3D, Vec<u64>)> = it().filter_map(|(v, _)| <Norm3D as IsNormalized3D>::new(p3(&[v[0], v[1] + 1.0, v[2] - 2.0])).ok()).map(|n| { let k = vec![n.x().to_bits(), n.y().to_bits(), n.z().to_bits()]; (n, k) }).collect();
                                eq_hash(c, &n3);
                                order(c, &n3.as_slice().iter().map(|n| n.0.clone()).collect::<Vec<_>>(), "cmp", |a, b| Some(a.cmp(b)), |a, b| a == b);
                                order(c, &n3.as_slice().iter().map(|n| n.0.clone()).collect::<Vec<_>>(), "partial_cmp", |a, b| a.partial_cmp(b), |a, b| a == b);
                                if k < 2 {
                                    let n2: Vec<(Norm2D, Vec<u64>)> = it().filter_map(|(v, _)| <Norm2D as IsNormalized2D>::new(p2(&[v[0] - 2.0, v[1] + 1.0])).ok()).map(|n| { let k = vec![n.x().to_bits(), n.y().to_bits()]; (n, k) }).collect();
                                    eq_hash(c, &n2);
                                    order(c, &n2.as_slice().iter().map(|n| n.0.clone()).collect::<Vec<_>>(), "cmp", |a, b| Some(a.cmp(b)), |a, b| a == b);
                                }
                                let ns: Vec<(Positive, f64)> = lp.as_slice().iter().map(|x| (pos(*x), *x)).collect();
                                eq_hash(c, &ns);
                                order(c, &ns.as_slice().iter().map(|x| x.0).collect::<Vec<_>>(), "partial_cmp", |a, b| a.partial_cmp(b), |a, b| a == b);
                                let ns: Vec<(NonNegative, f64)> = l.as_slice().iter().filter_map(|x| Some((NonNegative::new(*x)?, *x))).collect();
                                eq_hash(c, &ns);
                                order(c, &ns.as_slice().iter().map(|x| x.0).collect::<Vec<_>>(), "partial_cmp", |a, b| a.partial_cmp(b), |a, b| a == b);
                                order(c, &l.as_slice().iter().map(|x| Rad(*x)).collect::<Vec<_>>(), "partial_cmp", |a, b| a.partial_cmp(b), |a, b| a == b);
                                order(c, &l.as_slice().iter().map(|x| Deg(*x)).collect::<Vec<_>>(), "partial_cmp", |a, b| a.partial_cmp(b), |a, b| a == b);
                                let m: Vec<_> = it()
                                    .map(|(v, k)| {
                                        let mut m = Mesh3D::<Point3D, Vec<Point3D>, Vec<usize>>::default();
                                        m.add_face(p3(&v), Point3D::new(2.0, 0.0, 0.0), Point3D::new(0.0, 3.0, 0.0));
                                        (m, k)
                                    })
                                    .collect();
                                all(c, m);
                                let pts: Vec<Point3D> = it().map(|(v, _)| p3(&v)).collect();
                                dedup(c, &pts, 2);
                            }
                        }
                        if c.stopped() {
                            return;
                        }
                    }
                }
            }
        }));
    }
    for n in sizes(std::env::args().any(|a| a == "thorough")) {
        gs.push(g(format!("dedup of {}", n), move |c| {
            for (name, pts) in patterns(n) {
                c.state(&(n, name));
                c.case(
                    || format!("dedup {} {}", n, name),
                    |c| {
                        c.trans(n);
                        let inp: Vec<Point3D> = pts.as_slice().iter().map(|p| Point3D::new(p[0] as f64, p[1] as f64, p[2] as f64)).collect();
                        let (packed, ids) = pack_dupes_indexed(inp.as_slice().iter());
                        let places: std::collections::BTreeSet<[i64; 3]> = pts.as_slice().iter().cloned().collect();
                        ensure!(packed.as_slice().iter().count() == places.len(), "{} kept of {} places", packed.as_slice().iter().count(), places.len());
                        ensure!(ids.as_slice().iter().count() == n, "{} indices for {} values", ids.as_slice().iter().count(), n);
                        for (i, x) in inp.as_slice().iter().enumerate() {
                            ensure!(packed.as_slice().get(ids[i]) == Some(x), "index {} refers to {:?}", i, packed.as_slice().get(ids[i]));
                        }
                        Ok(())
                    },
                );
            }
        }));
    }
    gs.push(g("dedup", |c| {
        let n = c.q(6, 8);
        dedup(c, &[Point3D::new(0.0, 0.0, 0.0), Point3D::new(-0.0, 0.0, -0.0), Point3D::new(1.0, 0.0, 0.0), Point3D::new(0.0, 1.0, 0.0)], n);
        dedup(c, &[0u8, 1, 2, 3, 4], n);
        dedup(c, &[Point2D::new(0.0, 1.0), Point2D::new(1.0, 0.0), Point2D::new(-0.0, 1.0)], n);
    }));
    mc::main(
        Spec {
            prop: "C35",
            level: "model_checking",
            rule: "all pairs (equality, hash) and all triples (order) of values of every comparable geometric type over coordinates including both zeros; all value sequences up to the length bound for deduplication; a state is a distinct pair or sequence, a transition one comparison",
            assumptions: &["Finite coordinates", "Ord of positions compares distances to the origin, so it is only required to be a total preorder that treats equal values as equal"],
        },
        gs,
    );
}
