//! C10: Douglas-Peucker respects its tolerance.
use mc::*;
use rust_3d::*;

type P = (i64, i64);
fn dist(p: P, a: P, b: P) -> f64 {
    let (dx, dy) = ((b.0 - a.0) as f64, (b.1 - a.1) as f64);
    let l = dx.hypot(dy);
    let (px, py) = ((p.0 - a.0) as f64, (p.1 - a.1) as f64);
    if l == 0.0 {
        px.hypot(py)
    } else {
        (dx * py - dy * px).abs() / l
    }
}
/// is there a way to read `out` as a subsequence of `inp` with both ends kept and all dropped points within eps
fn explained(inp: &[P], out: &[P], eps: f64) -> bool {
    let n = inp.len();
    if inp.is_empty() || out.is_empty() {
        return inp.is_empty() && out.is_empty();
    }
    let mut at = vec![false; n];
    at[0] = inp[0] == out[0];
    for o in &out[1..] {
        let mut next = vec![false; n];
        for i in 0..n {
            if at[i] {
                for j in i + 1..n {
                    if inp[j] == *o && inp[i + 1..j].iter().all(|p| dist(*p, inp[i], inp[j]) <= eps + 1e-9) {
                        next[j] = true
                    }
                }
            }
        }
        at = next;
    }
    at[n - 1]
}
fn check(c: &mut Ctx, pts: &[P], scale: f64) {
    for eps in [0.0, 0.3, 0.5, 0.75, 1.0, 1.5, 2.5] {
        c.case(
            || format!("{:?} * {} eps={}", pts, scale, eps * scale),
            |c| {
                c.trans(1);
                let mut pc = PointCloud2D::new();
                for p in pts {
                    pc.push(Point2D::new(p.0 as f64 * scale, p.1 as f64 * scale));
                }
                let r = douglas_peucker_2d(pc, eps * scale);
                let out: Vec<P> = r.data.as_slice().iter().map(|p| ((p.x / scale).round() as i64, (p.y / scale).round() as i64)).collect();
                ensure!(out.len() <= pts.len(), "more points than before: {:?}", out);
                ensure!(explained(pts, &out, eps), "result {:?} is not a simplification within the tolerance", out);
                let n = pts.len();
                if n >= 2 && pts[1..n - 1].iter().all(|p| dist(*p, pts[0], pts[n - 1]) <= eps - 1e-9) {
                    ensure!(out == vec![pts[0], pts[n - 1]], "everything is within the tolerance but {:?} is kept", out);
                }
                c.state(&(pts, out));
                Ok(())
            },
        );
    }
}
/// polylines of any length whose points are all different
fn curves(n: usize) -> Vec<(&'static str, Vec<P>)> {
    let m = n as i64;
    let f = |g: &dyn Fn(i64) -> P| -> Vec<P> { (0..m).map(g).collect() };
    vec![
        ("straight", f(&|i| (i, 0))),
        ("upright", f(&|i| (0, -i))),
        ("slanted", f(&|i| (2 * i, -3 * i))),
        ("zigzag", f(&|i| (i, i % 2))),
        ("wide zigzag", f(&|i| ((i % 2) * 5, i))),
        ("stairs", f(&|i| ((i + 1) / 2, i / 2))),
        ("parabola", f(&|i| (i - m / 2, (i - m / 2) * (i - m / 2)))),
        ("sideways parabola", f(&|i| ((i - m / 3) * (i - m / 3), i))),
        ("spike late", f(&|i| (i, if i == m - 2 { 7 } else { 0 }))),
        ("spike early", f(&|i| (i, if i == 1 { -7 } else { 0 }))),
        ("small and large spike", f(&|i| (i, if i == m / 4 { 1 } else if i == m / 4 * 3 { 40 } else { 0 }))),
        ("steps", f(&|i| (i, i / 16 * 2))),
        ("residues", f(&|i| (i, (i * i * 7) % 11))),
        ("spiral", {
            let mut v = vec![(0i64, 0i64)];
            let (mut d, mut run) = ((1i64, 0i64), 1);
            while v.len() < n {
                for _ in 0..2 {
                    for _ in 0..run {
                        let l = v[v.len() - 1];
                        v.push((l.0 + d.0, l.1 + d.1));
                    }
                    d = (-d.1, d.0);
                }
                run += 1;
            }
            v.truncate(n);
            v
        }),
        ("there and back", f(&|i| if i < m / 2 { (i, 0) } else { (m - i, 1) })),
    ]
}
fn large(c: &mut Ctx, n: usize) {
    for (name, pts) in curves(n) {
        for (scale, off) in [(1.0, (0i64, 0i64)), (2f64.powi(-60), (0, 0)), (2f64.powi(60), (0, 0)), (1.0, (1 << 20, -(1 << 21)))] {
            for eps in [0.0, 0.3, 0.75, 1.5, 3.5, 20.0, 1e6] {
                for closed in [false, true] {
                    // only curves that are not split point by point
                    if n >= HUGE && (closed || scale != 1.0 || off.0 != 0 || ![0.3, 3.5].contains(&eps) || !["straight", "slanted", "spike late", "spike early", "small and large spike", "parabola"].contains(&name)) {
                        continue;
                    }
                    let mut pts: Vec<P> = pts.as_slice().iter().map(|p| (p.0 + off.0, p.1 + off.1)).collect();
                    if closed {
                        pts.push(pts[0]);
                    }
                    c.case(
                        || format!("{} of {} points, closed={}, * {} offset {:?} eps={}", name, n, closed, scale, off, eps),
                        |c| {
                            c.trans(n);
                            let mut pc = PointCloud2D::new();
                            for p in &pts {
                                pc.push(Point2D::new(p.0 as f64 * scale, p.1 as f64 * scale));
                            }
                            let r = douglas_peucker_2d(pc, eps * scale);
                            let out: Vec<P> = r.data.as_slice().iter().map(|p| ((p.x / scale).round() as i64, (p.y / scale).round() as i64)).collect();
                            let n = pts.len();
                            ensure!(out.len() >= 2 && out[0] == pts[0] && out[out.len() - 1] == pts[n - 1], "ends {:?}", out);
                            // all points but the closing one are different: their places are unique
                            let mut at = 0;
                            for (i, o) in out.iter().enumerate().skip(1) {
                                let j = if i == out.len() - 1 { n - 1 } else { (at + 1..n - 1).find(|j| pts[*j] == *o).ok_or_else(|| format!("{:?} is not a later point", o))? };
                                ensure!(j > at, "order");
                                for p in &pts[at + 1..j] {
                                    let d = dist(*p, pts[at], pts[j]);
                                    ensure!(d <= eps + 1e-6, "{:?} was dropped, {} away from the line through {:?} and {:?}", p, d, pts[at], pts[j]);
                                }
                                at = j;
                            }
                            if pts[1..n - 1].iter().all(|p| dist(*p, pts[0], pts[n - 1]) <= eps - 1e-6) {
                                ensure!(out.len() == 2, "everything is within the tolerance but {:?} is kept", out);
                            }
                            c.state(&(name, n, out));
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}
fn main() {
    let mut gs = vec![];
    for n in sizes(true) {
        gs.extend(parts(format!("large {}", n), if n > 1000 { 8 } else { 1 }, move |c| {
            if c.size(n, HUGE) {
                large(c, n)
            }
        }));
    }
    gs.push(g("empty", |c| check(c, &[], 1.0)));
    for first in 0..9usize {
        gs.push(g(format!("3x3 first={}", first), move |c| {
            let p = |i: usize| ((i % 3) as i64, (i / 3) as i64);
            for len in 1..=c.q(6usize, 7) {
                tuples(9, len - 1, |t| {
                    let v: Vec<P> = std::iter::once(first).chain(t.iter().cloned()).map(p).collect();
                    check(c, &v, 1.0);
                    !c.stopped()
                });
            }
        }));
    }
    for first in 0..4usize {
        gs.push(g(format!("graphs first={}", first), move |c| {
            // long polylines over a function graph: x = 0, 1, 2, ..
            for len in 1..=c.q(8usize, 10) {
                tuples(4, len - 1, |t| {
                    let v: Vec<P> = std::iter::once(first).chain(t.iter().cloned()).enumerate().map(|(x, y)| (x as i64, y as i64 - 1)).collect();
                    check(c, &v, 0.25);
                    !c.stopped()
                });
            }
        }));
        gs.push(g(format!("4x4 first={}", first), move |c| {
            let p = |i: usize| ((i % 4) as i64 * 2 - 3, (i / 4) as i64 - 2);
            for len in 1..=c.q(5usize, 6) {
                tuples(16, len - 1, |t| {
                    let v: Vec<P> = std::iter::once(first * 5).chain(t.iter().cloned()).map(p).collect();
                    check(c, &v, 8.0);
                    !c.stopped()
                });
            }
        }));
    }
    for e in [-240, -120, -60, -40, -30, -20, 20, 30, 60, 120, 240] {
        gs.push(g(format!("scaled by 2^{}", e), move |c| {
            for len in 1..=c.q(5usize, 6) {
                tuples(4, len, |t| {
                    let v: Vec<P> = t.iter().cloned().enumerate().map(|(x, y)| (x as i64 * 2, y as i64 - 1)).collect();
                    check(c, &v, 2f64.powi(e));
                    !c.stopped()
                });
            }
        }));
    }
    mc::main(
        Spec {
            prop: "C10",
            level: "model_checking",
            rule: "every polyline over small grids x tolerances through the real simplification; the result must be explainable as a subsequence that keeps both ends with every dropped point within the tolerance of the line through its kept neighbours; states = distinct (polyline, result)",
            assumptions: &["tolerances >= 0", "rounding slack 1e-9"],
        },
        gs,
    )
}
