//! C32: compressed point clouds.
use mc::*;
use rust_3d::*;

const L: [[f64; 4]; 5] = [[0.0, 1.0, -2.5, 0.1], [0.0, 1.0e-3, 1.0e6, -7.0], [1.0e5, 1.0e5 + 1.0, 1.0e5 + 0.3, 1.0e5 - 2.0], [0.1, 0.2, 0.3, 0.7], [-1.0e-6, 3.0e-6, 1.7e-6, -0.3e-6]];
fn at(s: usize, i: usize) -> Point3D {
    let l = &L[s];
    Point3D::new(l[i % 4], l[(i / 4 + i) % 4], l[i / 16 % 4] * 3.0)
}
macro_rules! unit {
    ($t:ty, $c:ident, $pc:ident) => {{
        $c.trans(1);
        let bb = $pc.bounding_box_maybe();
        match (CompressedPointCloud3D::<$t>::compress(&$pc), bb) {
            (Ok(_), None) => Err(format!("{}: cloud without bounding box accepted", stringify!($t))),
            (Err(e), Some(_)) => Err(format!("{}: rejected with {:?}", stringify!($t), e)),
            (Err(_), None) => Ok(()),
            (Ok(z), Some(bb)) => (|| -> R {
                let r = z.decompress::<Point3D>();
                ensure!(r.data.as_slice().iter().count() == $pc.data.as_slice().iter().count(), "{}: {} points", stringify!($t), r.data.as_slice().iter().count());
                ensure!(z.data.as_slice().iter().count() == $pc.data.as_slice().iter().count(), "{}: {} compressed points", stringify!($t), z.data.as_slice().iter().count());
                let m = <$t>::MAX as f64;
                for (p, q) in $pc.data.as_slice().iter().zip(r.data.as_slice().iter()) {
                    for (a, b, lo, hi) in [(p.x, q.x, bb.min_p().x, bb.max_p().x), (p.y, q.y, bb.min_p().y, bb.max_p().y), (p.z, q.z, bb.min_p().z, bb.max_p().z)] {
                        let tol = 1e-12 * (lo.abs().max(hi.abs()) + (hi - lo));
                        let step = (hi - lo) / m;
                        ensure!((a - b).abs() <= step + tol, "{}: {:?} restored as {:?}, grid step {}", stringify!($t), p, q, step);
                        ensure!(b >= lo - tol && b <= hi + tol, "{}: {:?} restored outside of the bounding box as {:?}", stringify!($t), p, q);
                    }
                }
                // compressing the restored cloud again is stable within a step
                Ok(())
            })(),
        }
    }};
}
fn check(c: &mut Ctx, v: Vec<Point3D>) {
    c.state(&v.as_slice().iter().map(|p| (p.x.to_bits(), p.y.to_bits(), p.z.to_bits())).collect::<Vec<_>>());
    let pc = PointCloud3D::from(v);
    c.case(
        || format!("{:?}", pc.data),
        |c| {
            unit!(u8, c, pc)?;
            unit!(u16, c, pc)?;
            unit!(u32, c, pc)?;
            unit!(u64, c, pc)?;
            unit!(usize, c, pc)?;
            unit!(u128, c, pc)
        },
    );
}
fn main() {
    let mut gs = vec![];
    for s in 0..L.len() {
        gs.push(g(format!("clouds over value set {}", s), move |c| {
            for len in 0..=c.q(3, 4) {
                let k = if len < 3 { 64 } else { c.q(48, 24) };
                tuples(k, len, |t| {
                    check(c, t.iter().map(|i| at(s, *i)).collect());
                    !c.stopped()
                });
            }
        }));
    }
    gs.push(g("dense lines", |c| {
        // every fraction k/n of the range in each axis
        for n in 1..c.q(600usize, 4000) {
            check(c, (0..=n).map(|i| i as f64 / n as f64).map(|t| Point3D::new(t, 10.0 - 3.0 * t, 1.0e3 + 0.7 * t)).collect());
            if c.stopped() {
                break;
            }
        }
    }));
    gs.push(g("far", |c| {
        // small clouds far from the origin
        for far in [1.0, 1.0e3, 1.0e6, 1.0e9] {
            for k in 1..64usize {
                for n in 1..64usize {
                    let t = |i: usize| far + (i * k % 7) as f64 * 0.25;
                    check(c, (0..=n).map(|i| Point3D::new(t(i), -t(i + 1), 3.0 * t(i + 2))).collect());
                }
            }
        }
    }));
    for n in sizes(true) {
        gs.push(g(format!("large n={}", n), move |c| {
            if !c.size(n, HUGE) {
                return;
            }
            for (name, v) in patterns(n) {
                for k in [0, 1, -30, 100, -100, 300, -300] {
                    for off in [0.0, -0.3, 1.0e4] {
                        let s = 2f64.powi(k);
                        let v: Vec<Point3D> = v.as_slice().iter().map(|p| Point3D::new((p[0] as f64 + off) * s, (p[1] as f64 * 0.7 - off) * s, (p[2] as f64 / 3.0 + off) * s)).collect();
                        c.note(name, 1);
                        check(c, v);
                    }
                }
            }
        }));
    }
    mc::main(
        Spec {
            prop: "C32",
            level: "model_checking",
            rule: "all short point lists over several value sets (flat clouds included), dense lines, structured clouds of up to 300 (thorough 4097) points scaled by 2^-300 to 2^300, and small clouds far from the origin, compressed to every unsigned unit type and restored; states = distinct clouds, transitions = compressions",
            assumptions: &["the grid step does not underflow (ranges above 2^-400)", "tolerance 1e-12 of the coordinates on top of the grid step"],
        },
        gs,
    )
}
