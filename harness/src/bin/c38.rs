//! C38: sorting point collections.
use mc::*;
use rust_3d::*;

const V: [f64; 4] = [0.0, -1.5, 2.0, -0.0];
fn key(p: &[f64], dim: usize) -> Vec<f64> {
    let n = p.len();
    (0..n).map(|i| p[(dim + i) % n]).collect()
}
fn le(a: &[f64], b: &[f64]) -> bool {
    for (x, y) in a.iter().zip(b) {
        if x < y {
            return true;
        }
        if x > y {
            return false;
        }
    }
    true
}
fn bits(v: &[Vec<f64>]) -> Vec<Vec<u64>> {
    let mut r: Vec<Vec<u64>> = v.iter().map(|p| p.iter().map(|x| x.to_bits()).collect()).collect();
    r.sort();
    r
}
fn expect(inp: &[Vec<f64>], out: &[Vec<f64>], dim: usize) -> R {
    ensure!(bits(inp) == bits(out), "sorting by {} is not a permutation: {:?}", dim, out);
    for w in out.windows(2) {
        ensure!(le(&key(&w[0], dim), &key(&w[1], dim)), "sorting by {}: {:?} before {:?} in {:?}", dim, w[0], w[1], out);
    }
    Ok(())
}
fn c2(v: &[Point2D]) -> Vec<Vec<f64>> {
    v.iter().map(|p| vec![p.x, p.y]).collect()
}
fn c3(v: &[Point3D]) -> Vec<Vec<f64>> {
    v.iter().map(|p| vec![p.x, p.y, p.z]).collect()
}
fn check2(c: &mut Ctx, pts: &[Point2D]) {
    c.state(&c2(pts).iter().map(|p| (p[0].to_bits(), p[1].to_bits())).collect::<Vec<_>>());
    c.case(
        || format!("{:?}", pts),
        |c| {
            let inp = c2(pts);
            let pc = PointCloud2D::from(pts.to_vec());
            ensure!(PointCloud2D::<Point2D>::n_dimensions() == 2, "n_dimensions");
            for dim in 0..2usize {
                c.trans(3);
                let mut a = pc.clone();
                ensure!(a.sort_dim(dim).is_ok(), "sort_dim({}) failed", dim);
                expect(&inp, &c2(&a.data), dim)?;
                let mut b = pc.clone();
                let mut v = pts.to_vec();
                if dim == 0 {
                    b.sort_x();
                    sort_vec_2d_x(&mut v);
                } else {
                    b.sort_y();
                    sort_vec_2d_y(&mut v);
                }
                expect(&inp, &c2(&b.data), dim)?;
                expect(&inp, &c2(&v), dim)?;
            }
            for dim in [2usize, 3].iter().cloned().chain(far(2)) {
                let mut a = pc.clone();
                ensure!(a.sort_dim(dim).is_err(), "unknown dimension {} accepted", dim);
                ensure!(c2(&a.data) == inp, "rejected sort changed the order");
            }
            Ok(())
        },
    );
}
fn check3(c: &mut Ctx, pts: &[Point3D]) {
    c.state(&c3(pts).iter().map(|p| (p[0].to_bits(), p[1].to_bits(), p[2].to_bits())).collect::<Vec<_>>());
    c.case(
        || format!("{:?}", pts),
        |c| {
            let inp = c3(pts);
            let pc = PointCloud3D::from(pts.to_vec());
            ensure!(PointCloud3D::<Point3D>::n_dimensions() == 3, "n_dimensions");
            for dim in 0..3usize {
                c.trans(3);
                let mut a = pc.clone();
                ensure!(a.sort_dim(dim).is_ok(), "sort_dim({}) failed", dim);
                expect(&inp, &c3(&a.data), dim)?;
                let mut b = pc.clone();
                let mut v = pts.to_vec();
                match dim {
                    0 => {
                        b.sort_x();
                        sort_vec_3d_x(&mut v)
                    }
                    1 => {
                        b.sort_y();
                        sort_vec_3d_y(&mut v)
                    }
                    _ => {
                        b.sort_z();
                        sort_vec_3d_z(&mut v)
                    }
                }
                expect(&inp, &c3(&b.data), dim)?;
                expect(&inp, &c3(&v), dim)?;
            }
            for dim in [3usize, 4].iter().cloned().chain(far(3)) {
                let mut a = pc.clone();
                ensure!(a.sort_dim(dim).is_err(), "unknown dimension {} accepted", dim);
                ensure!(c3(&a.data) == inp, "rejected sort changed the order");
            }
            Ok(())
        },
    );
}
fn main() {
    let mut gs = vec![];
    for n in 1..=2usize {
        gs.push(g(format!("2D values={}", n + 2), move |c| {
            let k = n + 2;
            for len in 0..=c.q(if n == 1 { 5usize } else { 4 }, if n == 1 { 6 } else { 5 }) {
                tuples(k * k, len, |t| {
                    let v: Vec<Point2D> = t.iter().map(|i| Point2D::new(V[i % k], V[i / k])).collect();
                    check2(c, &v);
                    !c.stopped()
                });
            }
        }));
        gs.push(g(format!("3D values={}", n + 1), move |c| {
            let k = n + 1;
            for len in 0..=c.q(if n == 1 { 5usize } else { 3 }, if n == 1 { 7 } else { 4 }) {
                tuples(k * k * k, len, |t| {
                    let v: Vec<Point3D> = t.iter().map(|i| Point3D::new(V[i % k], V[i / k % k], V[i / k / k])).collect();
                    check3(c, &v);
                    !c.stopped()
                });
            }
        }));
    }
    // all lattice points at once in all rotations and interleavings (beyond the small-sort threshold of the standard sort)
    gs.push(g("large", |c| {
        for k in [3usize, 4] {
            let n = k * k * k;
            for step in (1..n).filter(|s| (1..=*s).filter(|d| s % d == 0 && n % d == 0).max() == Some(1)) {
                for rot in 0..n {
                    let v: Vec<Point3D> = (0..n).map(|i| (i * step + rot) % n).map(|i| Point3D::new((i % k) as f64, (i / k % k) as f64, (i / k / k) as f64)).collect();
                    check3(c, &v);
                    let v: Vec<Point2D> = (0..n).map(|i| (i * step + rot) % n).map(|i| Point2D::new((i % k) as f64, (i / k) as f64)).collect();
                    check2(c, &v);
                }
            }
        }
    }));
    // values that differ by a tolerance of any size along one axis, the other axes in different orders
    for axis in 0..3usize {
        gs.push(g(format!("close {}", axis), move |c| {
            for l in ladders() {
                for step in [1usize, 5] {
                    for others in 0..3usize {
                        for rot in 0..l.as_slice().iter().count() {
                            let v: Vec<Point3D> = (0..6)
                                .map(|i| (i * step + rot) % 6)
                                .map(|i| {
                                    let o = [5 - i, 0, i * 7 % 5][others] as f64;
                                    let mut p = [o, o, o];
                                    p[axis] = l[i];
                                    Point3D::new(p[0], p[1], p[2])
                                })
                                .collect();
                            check3(c, &v);
                            if axis < 2 {
                                let v: Vec<Point2D> = v.into_iter().map(|p| Point2D::new(p.x, p.y)).collect();
                                check2(c, &v);
                            }
                        }
                    }
                }
            }
        }));
    }
    mc::main(
        Spec {
            prop: "C38",
            level: "model_checking",
            rule: "every list of points over small value sets (both zeros included) sorted along every dimension through every entry point; the result must be a bitwise permutation ordered lexicographically from the sorted dimension on; states = distinct lists, transitions = sorts",
            assumptions: &["finite coordinates"],
        },
        gs,
    )
}
