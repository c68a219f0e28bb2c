//! C09: convex hull against the definition.
use mc::*;
use rust_3d::*;

type P = (i64, i64);
fn ccw(a: P, b: P, c: P) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
fn on_segment(a: P, b: P, p: P) -> bool {
    ccw(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}
fn in_triangle(a: P, b: P, c: P, p: P) -> bool {
    let (x, y, z) = (ccw(a, b, p), ccw(b, c, p), ccw(c, a, p));
    ccw(a, b, c) != 0 && ((x >= 0 && y >= 0 && z >= 0) || (x <= 0 && y <= 0 && z <= 0))
}
/// extreme points by definition: not a convex combination of the others
fn extreme(pts: &[P]) -> Vec<P> {
    let mut d: Vec<P> = pts.to_vec();
    d.sort();
    d.dedup();
    let n = d.len();
    (0..n)
        .filter(|&i| {
            for a in 0..n {
                for b in a + 1..n {
                    if a != i && b != i {
                        if on_segment(d[a], d[b], d[i]) {
                            return false;
                        }
                        for c in b + 1..n {
                            if c != i && in_triangle(d[a], d[b], d[c], d[i]) {
                                return false;
                            }
                        }
                    }
                }
            }
            true
        })
        .map(|i| d[i])
        .collect()
}
fn pt(p: P, scale: f64) -> Point2D {
    Point2D::new(p.0 as f64 * scale, p.1 as f64 * scale)
}
fn check(c: &mut Ctx, pts: &[P], exp: &[P], scale: f64) {
    c.case(
        || format!("{} points {:?} * {}", pts.len(), &pts[..pts.len().min(30)], scale),
        |c| {
            c.trans(1);
            let v: Vec<Point2D> = pts.iter().map(|p| pt(*p, scale)).collect();
            let h: Vec<Point2D> = convex_hull_2d(&v);
            let mut got: Vec<P> = vec![];
            for q in h.as_slice().iter() {
                let p = ((q.x() / scale).round() as i64, (q.y() / scale).round() as i64);
                ensure!(pt(p, scale).x == q.x() && pt(p, scale).y == q.y() && pts.contains(&p), "hull point {:?} is not an input point", q);
                got.push(p)
            }
            let mut s = got.clone();
            s.sort();
            ensure!(s == exp, "hull {:?} expected the vertices {:?}", got, exp);
            let n = got.len();
            if n >= 3 {
                for i in 0..n {
                    let (a, b) = (got[i], got[(i + 1) % n]);
                    for p in pts {
                        ensure!(ccw(a, b, *p) >= 0, "{:?} lies outside of edge {:?} {:?} of {:?}", p, a, b, got);
                    }
                    ensure!(ccw(a, b, got[(i + 2) % n]) > 0, "hull {:?} is not strictly convex", got);
                }
            }
            // other container
            let mut pc = PointCloud2D::new();
            for p in v.iter() {
                pc.push(p.clone());
            }
            let h2: Vec<Point2D> = convex_hull_2d(&pc);
            ensure!(h2 == h, "hull of the same points in another container differs");
            Ok(())
        },
    );
}
/// the extreme points of larger sets, by walking around
fn wrap(pts: &[P]) -> Vec<P> {
    let mut d: Vec<P> = pts.to_vec();
    d.sort();
    d.dedup();
    if d.len() < 3 {
        return d;
    }
    let start = d[0];
    let mut r = vec![start];
    loop {
        let cur = r[r.len() - 1];
        let mut next = if cur == d[0] { d[1] } else { d[0] };
        for p in &d {
            let o = ccw(cur, next, *p);
            let dist = |q: P| (q.0 - cur.0).pow(2) + (q.1 - cur.1).pow(2);
            if *p != cur && (o < 0 || (o == 0 && dist(*p) > dist(next))) {
                next = *p
            }
        }
        if next == start {
            break;
        }
        r.push(next)
    }
    r.sort();
    r
}
fn main() {
    let mut gs = vec![];
    for n in sizes(true) {
        gs.extend(parts(format!("large {}", n), if n > 1000 { 8 } else { 1 }, move |c| {
            if !c.size(n, HUGE) {
                return;
            }
            let mut all: Vec<(&str, Vec<P>)> = patterns(n).into_iter().map(|(s, p)| (s, p.iter().map(|p| (p[0], p[1])).collect())).collect();
            all.extend(patterns(n).into_iter().map(|(s, p)| (s, p.iter().map(|p| (p[2], p[0])).collect::<Vec<P>>())));
            let m = n as i64;
            all.push(("parabola", (0..m).map(|i| (i - m / 2, (i - m / 2) * (i - m / 2))).collect()));
            all.push(("parabola from above", (0..m).map(|i| ((i * 7) % m - m / 3, -((i * 7) % m - m / 3).pow(2))).collect()));
            all.push(("cross", (0..m).map(|i| [(i, 0), (0, i), (-i, 0), (0, -i)][i as usize % 4]).collect()));
            all.push(("frame", (0..m).map(|i| [(i, 0), (m, i), (m - i, m), (0, m - i)][i as usize % 4]).collect()));
            if n >= HUGE {
                // few corners only: the reference walks around the hull
                all.retain(|a| !a.0.contains("parabola"));
            }
            for (name, p) in all {
                c.note(name, 1);
                let e = wrap(&p);
                c.state(&e);
                if n <= 33 {
                    c.case(
                        || format!("oracles {:?}", p),
                        |_| {
                            ensure!(e == extreme(&p), "oracles differ {:?} {:?}", e, extreme(&p));
                            Ok(())
                        },
                    );
                }
                let mut r = p.clone();
                r.reverse();
                let mut o: Vec<P> = p.iter().step_by(2).chain(p.iter().skip(1).step_by(2)).cloned().collect();
                check(c, &p, &e, 1.0);
                check(c, &r, &e, 2f64.powi(-40));
                check(c, &o, &e, 2f64.powi(40));
                o.rotate_left(n / 3);
                check(c, &o, &e, 2f64.powi(-300));
                o.extend(p.iter().take(n / 2));
                check(c, &o, &e, 2f64.powi(300));
            }
        }));
    }
    // every ordered list, duplicates included
    for first in 0..9usize {
        gs.push(g(format!("lists first={}", first), move |c| {
            let p = |i: usize| ((i % 3) as i64 - 1, (i / 3) as i64 - 1);
            for len in 1..=c.q(6usize, 7) {
                tuples(9, len - 1, |t| {
                    let v: Vec<P> = std::iter::once(first).chain(t.iter().cloned()).map(p).collect();
                    let e = extreme(&v);
                    c.state(&e);
                    check(c, &v, &e, 1.0);
                    !c.stopped()
                });
            }
        }));
    }
    gs.push(g("empty", |c| check(c, &[], &[], 1.0)));
    // every subset of a 4x4 grid, several orders
    for part in 0..8usize {
        gs.push(g(format!("subsets 4x4 part {}", part), move |c| {
            for m in (part..1 << 16).step_by(8) {
                if c.stopped() {
                    return;
                }
                let v: Vec<P> = (0..16usize).filter(|i| m >> i & 1 == 1).map(|i| ((i % 4) as i64 - 2, (i / 4) as i64 - 1)).collect();
                let e = extreme(&v);
                c.state(&e);
                check(c, &v, &e, 0.5);
                check(c, &v, &e, [2f64.powi(-33), 2f64.powi(-500), 2f64.powi(500)][m % 3]);
                let r: Vec<P> = v.iter().rev().cloned().collect();
                check(c, &r, &e, 1000.25);
                if !v.is_empty() {
                    let mut r = v.clone();
                    r.rotate_left(v.len() / 2);
                    r.push(v[v.len() - 1]);
                    r.insert(0, v[v.len() / 3]);
                    check(c, &r, &e, 3.0);
                }
            }
        }));
    }
    // larger sets: every sub-collection of 5 or 6 points of a 5x5 grid
    for part in 0..8usize {
        gs.push(g(format!("subsets 5x5 part {}", part), move |c| {
            if !c.thorough() {
                return;
            }
            let mut i = 0usize;
            for k in 4..=7 {
                fn rec(from: usize, k: usize, cur: &mut Vec<P>, f: &mut dyn FnMut(&[P])) {
                    if k == 0 {
                        return f(cur);
                    }
                    for i in from..25 {
                        cur.push(((i % 5) as i64, (i / 5) as i64));
                        rec(i + 1, k - 1, cur, f);
                        cur.pop();
                    }
                }
                rec(0, k, &mut vec![], &mut |v| {
                    i += 1;
                    if i % 8 == part {
                        let e = extreme(v);
                        c.state(&e);
                        let mut r = v.to_vec();
                        r.rotate_left(i % v.len());
                        check(c, &r, &e, 1.0);
                    }
                });
            }
        }));
    }
    mc::main(
        Spec {
            prop: "C09",
            level: "model_checking",
            rule: "every ordered list with duplicates over a 3x3 grid and every subset of larger grids in several orders and magnitudes, families of up to thousands of points; the real hull against the set of extreme points by definition, orientation and containment; states = distinct expected hulls, transitions = hull computations",
            assumptions: &["integer grid coordinates times constants, so the orientation test is exact"],
        },
        gs,
    )
}
