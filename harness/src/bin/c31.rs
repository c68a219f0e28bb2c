//! C31: generated and interpolated 2D curves.
use mc::*;
use rust_3d::*;
use std::f64::consts::PI;

const L: [f64; 5] = [0.0, 1.0, -2.5, 0.1, 300.0];
fn at(i: usize, k: usize) -> Point2D {
    Point2D::new(L[i % k], L[i / k % k])
}
fn near(p: &Point2D, x: f64, y: f64, scale: f64) -> bool {
    (p.x - x).abs() <= 1e-9 * scale && (p.y - y).abs() <= 1e-9 * scale
}
/// position at the given arc length: (segment start, segment end, proportion)
fn locate(b: &[Point2D], s: f64) -> Vec<(usize, f64)> {
    let mut r = vec![];
    let mut acc = 0.0;
    let total: f64 = b.windows(2).map(|w| ((w[0].x - w[1].x).powi(2) + (w[0].y - w[1].y).powi(2)).sqrt()).sum();
    let tol = 1e-9 * total.max(1e-300);
    for j in 0..b.len() - 1 {
        let l = ((b[j].x - b[j + 1].x).powi(2) + (b[j].y - b[j + 1].y).powi(2)).sqrt();
        if s >= acc - tol && s <= acc + l + tol {
            r.push((j, if l > 0.0 { ((s - acc) / l).max(0.0).min(1.0) } else { 0.0 }));
        }
        acc += l;
    }
    r
}
fn check_base(c: &mut Ctx, b: &[Point2D], ns: &[usize]) {
    c.state(&b.iter().map(|p| (p.x.to_bits(), p.y.to_bits())).collect::<Vec<_>>());
    let pc = PointCloud2D::from(b.to_vec());
    let scale = b.iter().fold(1.0e-300f64, |m, p| m.max(p.x.abs()).max(p.y.abs()));
    for &n in ns {
        c.case(
            || format!("n={} {:?}", n, b),
            |c| {
                c.trans(3);
                let lin = interpolation_linear(&pc, n);
                let cos = interpolate_cosine(&pc, n);
                let bez = interpolate_bezier(&pc, n);
                if b.len() < 2 {
                    ensure!(lin.is_err() && cos.is_err() && bez.is_err(), "curve through less than two points accepted");
                    return Ok(());
                }
                let (lin, cos, bez) = match (lin, cos, bez) {
                    (Ok(a), Ok(b), Ok(c)) => (a.data, b.data, c.data),
                    _ => return Err("curve rejected".into()),
                };
                for (name, v) in [("linear", &lin), ("cosine", &cos), ("bezier", &bez)] {
                    ensure!(<Vec<Point2D>>::len(v) == n, "{}: {} points", name, <Vec<Point2D>>::len(v));
                    ensure!(v.as_slice().iter().all(|p| p.x.is_finite() && p.y.is_finite()), "{}: not finite: {:?}", name, v);
                    if n > 0 {
                        ensure!(near(&v[0], b[0].x, b[0].y, scale), "{} starts at {:?}", name, v[0]);
                    }
                    if n > 1 && name != "bezier" {
                        let l = &b[b.len() - 1];
                        ensure!(near(&v[n - 1], l.x, l.y, scale * 100.0), "{} ends at {:?}", name, v[n - 1]);
                    }
                }
                let total: f64 = b.windows(2).map(|w| ((w[0].x - w[1].x).powi(2) + (w[0].y - w[1].y).powi(2)).sqrt()).sum();
                for i in 0..n {
                    let s = if n > 1 { total * i as f64 / (n - 1) as f64 } else { 0.0 };
                    let at = locate(b, s);
                    let on = |f: &dyn Fn(usize, f64) -> (f64, f64), p: &Point2D| at.as_slice().iter().any(|(j, t)| {
                        let (x, y) = f(*j, *t);
                        near(p, x, y, scale * 100.0)
                    });
                    let l = |j: usize, t: f64| (b[j].x + t * (b[j + 1].x - b[j].x), b[j].y + t * (b[j + 1].y - b[j].y));
                    let e = |j: usize, t: f64| {
                        let u = (1.0 - (t * PI).cos()) / 2.0;
                        (b[j].x + t * (b[j + 1].x - b[j].x), b[j].y * (1.0 - u) + b[j + 1].y * u)
                    };
                    ensure!(on(&l, &lin[i]), "linear point {} is {:?}, arc length {} of {}", i, lin[i], s, total);
                    ensure!(on(&e, &cos[i]), "cosine point {} is {:?}, arc length {} of {}", i, cos[i], s, total);
                    // de Casteljau
                    let t = i as f64 / n as f64;
                    let mut w: Vec<(f64, f64)> = b.iter().map(|p| (p.x, p.y)).collect();
                    for k in (1..b.len()).rev() {
                        for j in 0..k {
                            w[j] = (w[j].0 + t * (w[j + 1].0 - w[j].0), w[j].1 + t * (w[j + 1].1 - w[j].1));
                        }
                    }
                    ensure!(near(&bez[i], w[0].0, w[0].1, scale), "bezier point {} is {:?}, expected {:?}", i, bez[i], w[0]);
                }
                Ok(())
            },
        );
    }
}
fn main() {
    let mut gs = vec![];
    let ns = [0usize, 1, 2, 3, 4, 5, 7, 10, 50, 101];
    for k in 2..=4usize {
        gs.push(g(format!("base points values={}", k), move |c| {
            let max = match k {
                2 => c.q(6, 8),
                3 => c.q(5, 6),
                _ => c.q(4, 5),
            };
            for len in 0..=max {
                tuples(k * k, len, |t| {
                    let b: Vec<Point2D> = t.iter().map(|i| at(*i, k)).collect();
                    check_base(c, &b, &ns);
                    !c.stopped()
                });
            }
        }));
    }
    gs.push(g("all point counts", |c| {
        let all: Vec<usize> = (0..c.q(300, 1500)).collect();
        for t in [vec![0, 1, 3], vec![0, 6, 12, 18], vec![4, 4], vec![3, 8, 8, 13], vec![24, 1, 17, 5, 9]] {
            let b: Vec<Point2D> = t.as_slice().iter().map(|i| at(*i, 5)).collect();
            check_base(c, &b, &all);
        }
    }));
    for n in [1500usize, 2999, 3000, 3001, 4097, HUGE] {
        gs.push(g(format!("many points n={}", n), move |c| {
            for t in [vec![0, 1, 3], vec![0, 6, 12, 18, 3, 9], vec![4, 4], vec![3, 8, 8, 13], vec![24, 1, 17, 5, 9]] {
                let b: Vec<Point2D> = t.as_slice().iter().map(|i| at(*i, 5)).collect();
                check_base(c, &b, &[n]);
            }
        }));
    }
    gs.push(g("many base points", |c| {
        for len in (6..60).chain([100, 200, 400, 1000, 1031, 1100, c.q(1500, 3000)]) {
            for pat in 0..3usize {
                let b: Vec<Point2D> = (0..len).map(|i| at(i * (2 * pat + 1), 3)).collect();
                check_base(c, &b, &[2, 5, 50]);
            }
        }
    }));
    for n in sizes(true) {
        gs.extend(parts(format!("large n={}", n), if n > 1000 { 8 } else { 1 }, move |c| {
            if !c.size(n, 4097) {
                return;
            }
            for (name, v) in patterns(n) {
                c.note(name, 1);
                for k in [0, 40, -40, 200, -200] {
                    let s = 2f64.powi(k);
                    let b: Vec<Point2D> = v.as_slice().iter().map(|p| Point2D::new(p[0] as f64 * s, (p[1] as f64 + 0.3 * p[2] as f64) * s)).collect();
                    check_base(c, &b, &[1, 2, 3, 10, 33, 128]);
                }
            }
        }));
    }
    gs.push(g("scaled", move |c| {
        for len in 2..=c.q(4, 5) {
            tuples(9, len, |t| {
                for k in [-300, -100, -20, 20, 100, 300] {
                    let s = 2f64.powi(k);
                    let b: Vec<Point2D> = t.iter().map(|i| at(*i, 3)).map(|p| Point2D::new(p.x * s, p.y * s)).collect();
                    check_base(c, &b, &[1, 2, 3, 7]);
                }
                !c.stopped()
            });
        }
    }));
    gs.push(g("shapes of any size", move |c| {
        for k in (-300..=300).step_by(c.q(20, 5)) {
            let s = 2f64.powi(k);
            for (x, y) in [(0.0f64, 0.0f64), (1.0, -3.0), (-1.0e3, 0.25)] {
                let m = Point2D::new(x * s, y * s);
                for (a, b) in [(1.0f64, 1.0f64), (0.25, 9.0), (1.0e3, 3.0), (1.0e-3, 1.0e3)] {
                    for n in (0..c.q(12, 40)).chain([100, 257, 1000]).chain(if k % 100 == 0 { vec![1025, 3001, 4097, HUGE] } else { vec![] }) {
                        for (from, to) in [(0.0f64, 2.0 * PI), (0.5, 1.0), (3.0, -3.0), (100.0, 104.0), (-50.0, 50.0), (1.0e-6, 2.0e-6)] {
                            c.state(&(k, x.to_bits(), a.to_bits(), n, from.to_bits()));
                            c.case(
                                || format!("shapes around {:?} {} x {} n={} from {} to {}", m, a * s, b * s, n, from, to),
                                |c| {
                                    c.trans(4);
                                    let (pa, pb) = (Positive::new(a * s).unwrap(), Positive::new(b * s).unwrap());
                                    let sc = s * (a + b + x.abs() + y.abs()) * (1.0 + from.abs().max(to.abs()));
                                    let r = rectangle(&m, pa, pb).data;
                                    let want = [(-0.5, -0.5), (0.5, -0.5), (0.5, 0.5), (-0.5, 0.5)];
                                    ensure!(r.as_slice().iter().count() == 4, "rectangle of {:?}", r);
                                    for (p, w) in r.as_slice().iter().zip(want) {
                                        ensure!(near(p, m.x + w.0 * a * s, m.y + w.1 * b * s, sc), "rectangle {:?}", r);
                                    }
                                    let e = ellipse(&m, n, pa, pb).data;
                                    let ar = arc(&m, n, pa, Rad(from), Rad(to)).data;
                                    let iv = involut_circle(&m, n, pb, Rad(from), Rad(to)).data;
                                    for (name, v) in [("ellipse", &e), ("arc", &ar), ("involute", &iv)] {
                                        ensure!(v.as_slice().iter().count() == n, "{}: {} points", name, v.as_slice().iter().count());
                                    }
                                    for i in 0..n {
                                        let f = if n > 1 { i as f64 / (n - 1) as f64 } else { 0.0 };
                                        let t = 2.0 * PI * f;
                                        ensure!(near(&e[i], m.x + a * s * t.cos(), m.y + b * s * t.sin(), sc), "ellipse point {} is {:?}", i, e[i]);
                                        let t = from + (to - from) * f;
                                        ensure!(near(&ar[i], m.x + 0.5 * a * s * t.cos(), m.y + 0.5 * a * s * t.sin(), sc), "arc point {} is {:?}", i, ar[i]);
                                        ensure!(near(&iv[i], m.x + 0.5 * b * s * (t.cos() + t * t.sin()), m.y + 0.5 * b * s * (t.sin() - t * t.cos()), sc), "involute point {} is {:?}", i, iv[i]);
                                    }
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }
        }
    }));
    gs.push(g("shapes", move |c| {
        let sizes: [f64; 4] = [0.5, 1.0, 3.0, 0.1];
        let angles: [f64; 7] = [0.0, 1.0, -1.0, PI, 2.0 * PI, 7.5, 0.3];
        for ctr in 0..c.q(9usize, 25) {
            let m = at(ctr, if ctr < 9 { 3 } else { 5 });
            for a in sizes {
                for b in sizes {
                    for &n in &ns {
                        c.state(&(ctr, a.to_bits(), b.to_bits(), n));
                        c.case(
                            || format!("rectangle/ellipse around {:?} {} x {} n={}", m, a, b, n),
                            |c| {
                                c.trans(2);
                                let (pa, pb) = (Positive::new(a).unwrap(), Positive::new(b).unwrap());
                                let r = rectangle(&m, pa, pb).data;
                                let want = [(-0.5, -0.5), (0.5, -0.5), (0.5, 0.5), (-0.5, 0.5)];
                                ensure!(r.as_slice().iter().count() == 4, "rectangle of {:?}", r);
                                for (p, w) in r.as_slice().iter().zip(want) {
                                    ensure!(near(p, m.x + w.0 * a, m.y + w.1 * b, 1.0 + m.x.abs() + m.y.abs()), "rectangle {:?}", r);
                                }
                                let e = ellipse(&m, n, pa, pb).data;
                                ensure!(e.as_slice().iter().count() == n, "ellipse of {} points", e.as_slice().iter().count());
                                for (i, p) in e.as_slice().iter().enumerate() {
                                    let t = if n > 1 { 2.0 * PI * i as f64 / (n - 1) as f64 } else { 0.0 };
                                    ensure!(near(p, m.x + a * t.cos(), m.y + b * t.sin(), 1.0 + m.x.abs() + m.y.abs()), "ellipse point {} of {} is {:?}", i, n, p);
                                }
                                Ok(())
                            },
                        );
                    }
                }
                for s in angles {
                    for e in angles {
                        for &n in &ns {
                            c.state(&(ctr, a.to_bits(), s.to_bits(), e.to_bits(), n));
                            c.case(
                                || format!("arc/involute around {:?} diameter {} from {} to {} n={}", m, a, s, e, n),
                                |c| {
                                    c.trans(2);
                                    let d = Positive::new(a).unwrap();
                                    let arc = arc(&m, n, d, Rad(s), Rad(e)).data;
                                    let inv = involut_circle(&m, n, d, Rad(s), Rad(e)).data;
                                    ensure!(arc.as_slice().iter().count() == n && inv.as_slice().iter().count() == n, "{} / {} points", arc.as_slice().iter().count(), inv.as_slice().iter().count());
                                    for i in 0..n {
                                        let t = if n > 1 { s + (e - s) * i as f64 / (n - 1) as f64 } else { s };
                                        let sc = 10.0 + m.x.abs() + m.y.abs();
                                        ensure!(near(&arc[i], m.x + 0.5 * a * t.cos(), m.y + 0.5 * a * t.sin(), sc), "arc point {} is {:?}", i, arc[i]);
                                        ensure!(near(&inv[i], m.x + 0.5 * a * (t.cos() + t * t.sin()), m.y + 0.5 * a * (t.sin() - t * t.cos()), sc), "involute point {} is {:?}", i, inv[i]);
                                    }
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }
        }
    }));
    mc::main(
        Spec {
            prop: "C31",
            level: "model_checking",
            rule: "all lists of base points over small value sets (coincident points included, scaled by 2^-300 to 2^300) and structured lists of up to 300 (thorough 4097) x point counts from 0 on, every curve point compared with the curve definition (arc length, eased arc length, de Casteljau); all shapes over sizes (2^-300 to 2^300), centers, angle pairs and point counts; states = distinct requests, transitions = generated curves",
            assumptions: &["coordinates whose squares neither overflow nor underflow, tolerance 1e-9 relative to the largest coordinate"],
        },
        gs,
    )
}
