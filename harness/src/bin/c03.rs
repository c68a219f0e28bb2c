//! C03: octree keeps every distinct point.
use mc::*;
use rust_3d::*;
use std::collections::BTreeSet;

type K = (u64, u64, u64);
fn key(p: &Point3D) -> K {
    ((p.x + 0.0).to_bits(), (p.y + 0.0).to_bits(), (p.z + 0.0).to_bits())
}
fn check(c: &mut Ctx, pts: &[Point3D]) {
    c.case(
        || format!("{} points {:?}", pts.len(), pts.iter().take(12).map(|p| (p.x, p.y, p.z)).collect::<Vec<_>>()),
        |c| {
            let mut pc = PointCloud3D::new();
            for p in pts {
                pc.push(p.clone());
            }
            let distinct: BTreeSet<K> = pts.iter().map(key).collect();
            let rng = |f: fn(&Point3D) -> f64| {
                let v: Vec<f64> = pts.iter().map(f).collect();
                (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
            };
            let (rx, ry, rz) = (rng(|p| p.x), rng(|p| p.y), rng(|p| p.z));
            let flat = pts.is_empty() || rx.0 == rx.1 || ry.0 == ry.1 || rz.0 == rz.1;
            let mut t = OcTree::default();
            c.trans(1);
            match t.build(pc) {
                Err(e) => {
                    ensure!(flat, "build failed with {:?} for a proper cloud", e);
                    return Ok(());
                }
                Ok(()) => ensure!(!flat, "flat cloud accepted"),
            }
            ensure!(t.size() == distinct.len(), "size {} expected {}", t.size(), distinct.len());
            let all = t.to_pointcloud();
            let got: BTreeSet<K> = all.data.iter().map(key).collect();
            ensure!(all.len() == distinct.len() && got == distinct, "points {:?} expected {:?}", all.data, distinct.len());
            let neg = t.collect(-1);
            ensure!(neg.len() == distinct.len() && neg.data.iter().map(key).collect::<BTreeSet<_>>() == distinct, "collect(-1) differs");
            c.state(&distinct);
            if pts.iter().any(|p| p.x.abs().max(p.y.abs()).max(p.z.abs()) > 1e150) {
                return Ok(()); // centers of huge coordinates may overflow
            }
            let mut last = 0;
            let mut lens = vec![];
            let ds: Vec<i8> = (0..12).chain([50, 126, 127]).collect();
            for d in ds {
                let r = t.collect(d);
                c.trans(1);
                ensure!(r.len() >= last, "collect({}) returns {} points, less than a smaller limit ({})", d, r.len(), last);
                ensure!(r.len() <= distinct.len() && r.len() >= 1, "collect({}) returns {} of {}", d, r.len(), distinct.len());
                for p in &r.data {
                    let e = 1e-9 * (rx.1 - rx.0).max(ry.1 - ry.0).max(rz.1 - rz.0).max(rx.1.abs()).max(ry.1.abs()).max(rz.1.abs()).max(rx.0.abs()).max(ry.0.abs()).max(rz.0.abs());
                    ensure!(
                        p.x >= rx.0 - e && p.x <= rx.1 + e && p.y >= ry.0 - e && p.y <= ry.1 + e && p.z >= rz.0 - e && p.z <= rz.1 + e,
                        "collect({}) returned {:?} outside the cloud", d, p
                    );
                }
                if r.len() == distinct.len() {
                    // full resolution: either the points themselves or centers of single points, which coincide
                    let got: BTreeSet<K> = r.data.iter().map(key).collect();
                    ensure!(got == distinct, "collect({}) full size but different points {:?}", d, r.data);
                }
                last = r.len();
                lens.push(r.len());
            }
            c.state(&lens);
            Ok(())
        },
    );
}
fn grid(v: &[f64]) -> Vec<Point3D> {
    let mut r = vec![];
    for &x in v {
        for &y in v {
            for &z in v {
                r.push(Point3D::new(x, y, z));
            }
        }
    }
    r
}
fn main() {
    let mut gs = vec![];
    for n in 0..=4usize {
        gs.push(g(format!("grid3-n{}", n), move |c| {
            let d = grid(&[0.0, 1.0, 2.0]);
            multisets(d.len(), n, |t| {
                check(c, &t.iter().map(|&i| d[i].clone()).collect::<Vec<_>>());
                !c.stopped()
            });
        }));
    }
    gs.push(g("ordered-n4", |c| {
        let d = grid(&[-1.0, 1.0]);
        for n in 2..=c.q(4, 5) {
            tuples(d.len(), n, |t| {
                check(c, &t.iter().map(|&i| d[i].clone()).collect::<Vec<_>>());
                !c.stopped()
            });
        }
    }));
    // a frame that fixes the bounding box plus every subset of a finer set of positions (split planes of depth 1 and 2, off-plane)
    gs.push(g("frame", |c| {
        let mut d = vec![];
        for x in [0.0, 1.0, 2.0, 3.0, 4.0] {
            d.push(Point3D::new(x, x, x));
            d.push(Point3D::new(x, 2.0, 1.0));
            if c.thorough() {
                d.push(Point3D::new(2.0, x, 3.5));
            }
        }
        for m in 0..1u32 << d.len() {
            let mut pts = vec![Point3D::new(0.0, 0.0, 0.0), Point3D::new(4.0, 4.0, 4.0)];
            pts.extend((0..d.len()).filter(|i| m >> i & 1 == 1).map(|i| d[i].clone()));
            check(c, &pts);
            if c.stopped() {
                return;
            }
        }
    }));
    // close together: neighbouring doubles, tiny offsets, both zeros
    gs.push(g("close", |c| {
        let up = |x: f64| f64::from_bits(x.to_bits() + 1);
        let vals = [0.0, -0.0, 5e-324, 1e-300, 1.0, up(1.0), up(up(1.0)), 2.0, 1e10];
        let n = vals.len();
        for len in 2..=c.q(3, 4) {
            multisets(n * n, len, |t| {
                let pts: Vec<Point3D> = t.iter().map(|&i| Point3D::new(vals[i % n], vals[i / n], vals[(i / n + i) % n])).collect();
                check(c, &pts);
                !c.stopped()
            });
        }
    }));
    gs.push(g("neighbours", |c| {
        let up = |x: f64| f64::from_bits(x.to_bits() + 1);
        for b in [1.0, 3.0, 1e-308, 1e100] {
            let d = grid(&[b, up(b)]);
            for m in 0..256u32 {
                check(c, &(0..8).filter(|i| m >> i & 1 == 1).map(|i| d[i].clone()).collect::<Vec<_>>());
            }
        }
    }));
    // the whole range of doubles: sums and differences of coordinates overflow or vanish
    for part in 0..4usize {
        gs.push(g(format!("huge {}", part), move |c| {
            let m = f64::MAX;
            let vals = match part {
                0 => [0.6 * m, 0.7 * m, 0.71 * m, m],
                1 => [-m, -0.7 * m, 0.6 * m, m],
                2 => [-m, 0.0, 5e-324, m],
                _ => [-1e-310, 5e-324, 1e-310, 2e-310],
            };
            let d = grid(&vals);
            multisets(d.len(), c.q(3, 4), |t| {
                check(c, &t.iter().map(|&i| d[i].clone()).collect::<Vec<_>>());
                !c.stopped()
            });
            // a corner frame and every pair that differs in one coordinate only
            for axis in 0..3usize {
                for i in 0..d.len() {
                    for v in vals {
                        let (mut p, q) = ([d[i].x, d[i].y, d[i].z], d[i].clone());
                        p[axis] = v;
                        check(c, &[d[0].clone(), d[d.len() - 1].clone(), q, Point3D::new(p[0], p[1], p[2])]);
                    }
                }
            }
        }));
    }
    for scale in [1.0, 2f64.powi(-300), 2f64.powi(300)] {
        gs.push(g(format!("large, scaled by {:e}", scale), move |c| {
            for n in sizes(c.thorough()) {
                for (name, p) in patterns(n) {
                    c.note(name, 1);
                    check(c, &p.iter().map(|p| Point3D::new(p[0] as f64 * scale, p[1] as f64 * scale, p[2] as f64 * scale)).collect::<Vec<_>>());
                    if c.stopped() {
                        return;
                    }
                }
            }
        }));
    }
    gs.push(g("rejected", |c| {
        for bad in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
            for pos in 0..3 {
                for axis in 0..3 {
                    c.case(
                        || format!("non-finite {} at point {} axis {}", bad, pos, axis),
                        |_| {
                            let mut pts = vec![Point3D::new(0.0, 0.0, 0.0), Point3D::new(1.0, 1.0, 1.0), Point3D::new(2.0, 3.0, 4.0)];
                            match axis {
                                0 => pts[pos].x = bad,
                                1 => pts[pos].y = bad,
                                _ => pts[pos].z = bad,
                            }
                            let mut pc = PointCloud3D::new();
                            for p in pts {
                                pc.push(p)
                            }
                            let mut t = OcTree::default();
                            let _ = t.build(pc); // must return
                            Ok(())
                        },
                    );
                }
            }
        }
    }));
    mc::main(
        Spec {
            prop: "C03",
            level: "model_checking",
            rule: "every point multiset/tuple/subset over small grids and over a set of nearly coincident doubles, every depth limit, against a set model; states = distinct point sets and distinct per-depth count profiles",
            assumptions: &["finite coordinates from fixed alphabets"],
        },
        gs,
    )
}
