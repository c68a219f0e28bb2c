//! C01: k-d tree queries against a linear scan, exhaustively over small clouds.
use mc::*;
use rust_3d::*;

/// point tuples over a coordinate alphabet; identical points are kept
fn ref_dist(a: &Point3D, b: &Point3D) -> f64 {
    ((a.x - b.x).powi(2) + (a.y - b.y).powi(2) + (a.z - b.z).powi(2)).sqrt()
}
fn key(p: &Point3D) -> (u64, u64, u64) {
    (p.x.to_bits(), p.y.to_bits(), p.z.to_bits())
}
fn sorted(v: &[Point3D]) -> Vec<(u64, u64, u64)> {
    let mut r: Vec<_> = v.iter().map(key).collect();
    r.sort();
    r
}
fn check_cloud(c: &mut Ctx, pts: &[Point3D], searches: &[Point3D], ks: &[usize], radii: &[f64], boxes: &[[f64; 3]]) {
    let name = |what: &str| format!("{} on {:?}", what, pts.iter().map(|p| (p.x, p.y, p.z)).collect::<Vec<_>>());
    let mut tree = KdTree::default();
    let mut built = false;
    let mut pc = PointCloud3D::new();
    for p in pts {
        pc.push(p.clone());
    }
    c.case(
        || name("build"),
        |_| {
            tree.build(pc).map_err(|e| format!("build failed {:?}", e))?;
            ensure!(tree.size() == pts.len(), "size {} != {}", tree.size(), pts.len());
            ensure!(sorted(&tree.to_pointcloud().data) == sorted(pts), "points differ");
            built = true;
            Ok(())
        },
    );
    if !built {
        return;
    }
    c.state(&sorted(pts));
    for s in searches {
        let mut d: Vec<f64> = pts.iter().map(|p| ref_dist(p, s)).collect();
        d.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for &k in ks {
            c.case(
                || name(&format!("knearest {:?} k={}", (s.x, s.y, s.z), k)),
                |c| {
                    let mut r = Vec::new();
                    tree.knearest(s, k, &mut r);
                    c.trans(1);
                    let got: Vec<f64> = r.iter().map(|p| ref_dist(p, s)).collect();
                    ensure!(got == d[..k.min(d.len())], "distances {:?}, expected {:?}", got, &d[..k.min(d.len())]);
                    // multiplicity: result is a sub-multiset of the input
                    let mut pool = sorted(pts);
                    for p in &r {
                        match pool.iter().position(|q| *q == key(p)) {
                            Some(i) => {
                                pool.remove(i);
                            }
                            None => return Err(format!("{:?} returned more often than present", p)),
                        }
                    }
                    c.state(&(k, got.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
                    if k == 1 {
                        let n = tree.nearest(s).ok_or("no nearest")?;
                        ensure!(ref_dist(&n, s) == d[0], "nearest {:?} at {} expected {}", n, ref_dist(&n, s), d[0]);
                    }
                    Ok(())
                },
            );
        }
        for &r in radii {
            c.case(
                || name(&format!("in_sphere {:?} r={}", (s.x, s.y, s.z), r)),
                |c| {
                    let mut res = Vec::new();
                    let sp = Sphere { center: s.clone(), radius: Positive::new(r).unwrap() };
                    tree.in_sphere(&sp, &mut res);
                    c.trans(1);
                    let exp: Vec<Point3D> = pts.iter().filter(|p| ref_dist(p, s) <= r).cloned().collect();
                    ensure!(sorted(&res) == sorted(&exp), "got {:?} expected {:?}", res, exp);
                    c.state(&(1u8, sorted(&res)));
                    Ok(())
                },
            );
        }
        for b in boxes {
            c.case(
                || name(&format!("in_box {:?} size={:?}", (s.x, s.y, s.z), b)),
                |c| {
                    let mut res = Vec::new();
                    let bx = Box3D {
                        center: s.clone(),
                        size_x: Positive::new(b[0]).unwrap(),
                        size_y: Positive::new(b[1]).unwrap(),
                        size_z: Positive::new(b[2]).unwrap(),
                    };
                    tree.in_box(&bx, &mut res);
                    c.trans(1);
                    let exp: Vec<Point3D> = pts
                        .iter()
                        .filter(|p| (p.x - s.x).abs() <= 0.5 * b[0] && (p.y - s.y).abs() <= 0.5 * b[1] && (p.z - s.z).abs() <= 0.5 * b[2])
                        .cloned()
                        .collect();
                    ensure!(sorted(&res) == sorted(&exp), "got {:?} expected {:?}", res, exp);
                    c.state(&(2u8, sorted(&res)));
                    Ok(())
                },
            );
        }
    }
}
fn grid(xs: &[f64], ys: &[f64], zs: &[f64]) -> Vec<Point3D> {
    let mut v = vec![];
    for &x in xs {
        for &y in ys {
            for &z in zs {
                v.push(Point3D::new(x, y, z));
            }
        }
    }
    v
}
fn main() {
    let mut groups = vec![];
    groups.push(g("empty", |c| {
        c.case(
            || "empty cloud".into(),
            |_| {
                let mut t: KdTree<Point3D> = KdTree::default();
                ensure!(t.build(PointCloud3D::new()).is_err(), "empty cloud accepted");
                ensure!(t.size() == 0 && t.to_pointcloud().len() == 0, "not empty");
                ensure!(IsKNearestSearchable::nearest(&t, &Point3D::new(0.0, 0.0, 0.0)).is_none(), "nearest of nothing");
                let mut r = vec![];
                t.knearest(&Point3D::new(0.0, 0.0, 0.0), 3, &mut r);
                t.in_sphere(&Sphere { center: Point3D::new(0.0, 0.0, 0.0), radius: Positive::new(9.0).unwrap() }, &mut r);
                t.in_box(&Box3D { center: Point3D::new(0.0, 0.0, 0.0), size_x: Positive::one(), size_y: Positive::one(), size_z: Positive::one() }, &mut r);
                ensure!(r.is_empty(), "points from nowhere");
                Ok(())
            },
        );
    }));
    // ordered tuples: every insertion order, three dimensions
    for n in 1..=4usize {
        groups.push(g(format!("ordered-3d-n{}", n), move |c| {
            let dom = grid(&[0.0, 2.0], &[0.0, 2.0], &[0.0, 3.0]);
            let searches = [Point3D::new(0.0, 0.0, 0.0), Point3D::new(1.0, 0.5, 1.0), Point3D::new(2.0, 2.5, -1.0)];
            tuples(dom.len(), n, |t| {
                let pts: Vec<Point3D> = t.iter().map(|&i| dom[i].clone()).collect();
                check_cloud(c, &pts, &searches, &[1, 2, 3, 5], &[2.0, 3.0], &[[4.0, 2.0, 6.0], [1.0, 5.0, 2.0]]);
                !c.stopped()
            });
        }));
    }
    // lines of points along each axis: deep trees, all k, every insertion order (domain coordinates chosen to make ties)
    for axis in 0..3usize {
        for n in [3usize, 5, 6] {
            groups.push(g(format!("axis{}-n{}", axis, n), move |c| {
                let vals = [0.0, 1.0, 3.0, 4.0];
                let m = if c.thorough() { n + 1 } else { n };
                tuples(vals.len(), m, |t| {
                    let pts: Vec<Point3D> = t
                        .iter()
                        .enumerate()
                        .map(|(j, &i)| {
                            let mut v = [0.0; 3];
                            v[axis] = vals[i];
                            v[(axis + 1) % 3] = [0.0, 1.0][j % 2];
                            Point3D::new(v[0], v[1], v[2])
                        })
                        .collect();
                    let mut s = vec![];
                    for q in [2.0, 3.5] {
                        let mut v = [0.5; 3];
                        v[axis] = q;
                        s.push(Point3D::new(v[0], v[1], v[2]));
                    }
                    check_cloud(c, &pts, &s, &[1, 2, 3, 4], &[1.0, 1.5], &[[2.0, 2.0, 2.0], [3.0, 1.0, 1.0]]);
                    !c.stopped()
                });
            }));
        }
    }
    // planes: multisets of a 3x3 grid with all query positions on a finer grid
    for plane in 0..3usize {
        groups.push(g(format!("plane{}", plane), move |c| {
            let v = [0.0, 1.0, 2.0];
            let dom: Vec<Point3D> = match plane {
                0 => grid(&v, &v, &[0.0]),
                1 => grid(&v, &[0.0], &v),
                _ => grid(&[0.0], &v, &v),
            };
            let q = [-1.0, 0.5, 1.0, 2.0];
            let searches: Vec<Point3D> = match plane {
                0 => grid(&q, &q, &[0.5]),
                1 => grid(&q, &[0.5], &q),
                _ => grid(&[0.5], &q, &q),
            };
            for n in 1..=c.q(4, 6) {
                multisets(dom.len(), n, |t| {
                    let pts: Vec<Point3D> = t.iter().map(|&i| dom[i].clone()).collect();
                    check_cloud(c, &pts, &searches, &[1, 2, 3], &[0.5, 1.5], &[[1.0, 2.0, 1.0], [3.0, 1.0, 2.0]]);
                    !c.stopped()
                });
            }
        }));
    }
    // larger clouds: permutations of fixed point sets (every insertion order of 6/7 distinct points)
    groups.push(g("orders", |c| {
        let base = [(0.0, 5.0, 1.0), (1.0, 4.0, 1.0), (2.0, 3.0, -2.0), (2.0, 0.0, 2.0), (-1.0, 2.0, 0.0), (3.0, 1.0, 1.0), (0.5, 0.5, 7.0)];
        let n = c.q(6, 7);
        let searches = [Point3D::new(1.0, 2.0, 0.0), Point3D::new(0.0, 0.0, 0.0), Point3D::new(3.0, 4.0, 2.0)];
        permutations(n, |p| {
            let pts: Vec<Point3D> = p.iter().map(|&i| Point3D::new(base[i].0, base[i].1, base[i].2)).collect();
            check_cloud(c, &pts, &searches, &[1, 2, 3, 4, 5], &[2.5, 4.0], &[[4.0, 4.0, 4.0], [6.0, 3.0, 2.0]]);
            !c.stopped()
        });
    }));
    // points, searches and sizes that differ by a tolerance of any size along one axis
    for axis in 0..3usize {
        groups.push(g(format!("close {}", axis), move |c| {
            for (h, l) in exact_ladders() {
                let at = |x: f64| {
                    let mut p = [0.0; 3];
                    p[axis] = x;
                    Point3D::new(p[0], p[1], p[2])
                };
                for step in [1usize, 5] {
                    let pts: Vec<Point3D> = (0..12).map(|i| at(l[(i * step + 2) % 6])).collect();
                    let searches: Vec<Point3D> = (0..6).map(|i| at(l[i])).collect();
                    let mut size = [4.0; 3];
                    let boxes: Vec<[f64; 3]> = [0.25, 0.5, 0.75, 1.0, 1.5]
                        .iter()
                        .map(|k| {
                            size[axis] = 2.0 * k * h;
                            size
                        })
                        .collect();
                    check_cloud(c, &pts, &searches, &[1, 3, 5, 12], &[0.25 * h, 0.5 * h, 0.75 * h, h, 1.5 * h], &boxes);
                    if c.stopped() {
                        return;
                    }
                }
            }
        }));
    }
    for scale in [1.0, 2f64.powi(-300), 2f64.powi(300)] {
        for pattern in 0..patterns(7).len() {
            groups.insert(0, g(format!("large, scaled by {:e}, {}", scale, patterns(7)[pattern].0), move |c| {
            let all = sizes(c.thorough());
            let all: Vec<usize> = if scale == 1.0 { all } else { all.into_iter().filter(|n| [7, 33, 129, 1025].contains(n)).collect() };
            for n in all {
                for (name, p) in patterns(n).into_iter().skip(pattern).take(1) {
                    c.note(name, 1);
                    let pts: Vec<Point3D> = p.iter().map(|p| Point3D::new(p[0] as f64 * scale, p[1] as f64 * scale, p[2] as f64 * scale)).collect();
                    let (first, mid, last) = (&pts[0], &pts[n / 2], &pts[n - 1]);
                    let searches = [
                        first.clone(),
                        Point3D::new(mid.x + 0.5 * scale, mid.y, mid.z - 0.25 * scale),
                        Point3D::new(0.5 * (first.x + last.x), 0.5 * (first.y + last.y), 0.5 * (first.z + last.z)),
                        Point3D::new(-3.0 * scale, n as f64 * scale, 0.0),
                    ];
                    let w = n as f64 * scale;
                    let ks = [1, 2, 10, n / 2, n - 1, n, n + 1];
                    check_cloud(c, &pts, &searches, if n >= HUGE { &ks[..3] } else { &ks }, &[scale, 2.5 * scale, 0.25 * w, 4.0 * w], &[[2.0 * scale, 4.0 * scale, 6.0 * scale], [w, 2.0 * scale, w], [0.5 * w, w, 2.0 * w]]);
                    if c.stopped() {
                        return;
                    }
                }
            }
            }));
        }
    }
    main_(groups)
}
fn main_(groups: Vec<Group>) {
    mc::main(
        Spec {
            prop: "C01",
            level: "model_checking",
            rule: "every cloud (ordered tuple / multiset / permutation over a small coordinate grid) x every query of the alphabet on the real tree, compared with a linear scan; states = distinct clouds and distinct query results",
            assumptions: &["coordinates from a small grid including ties; finite values only", "linear scan reference in the harness"],
        },
        groups,
    )
}
