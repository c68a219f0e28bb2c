//! C28: spatial x/y clustering never misses an object.
use mc::*;
use rust_3d::*;

#[derive(Clone, Debug)]
struct Obj(usize, BoundingBox3D);
impl HasBoundingBox3D for Obj {
    fn bounding_box(&self) -> BoundingBox3D {
        self.1.clone()
    }
}
impl HasBoundingBox3DMaybe for Obj {
    fn bounding_box_maybe(&self) -> Option<BoundingBox3D> {
        Some(self.1.clone())
    }
}
/// corners of the objects
const GRIDS: [[f64; 5]; 3] = [[0.0, 1.0, 2.0, 3.0, 4.0], [0.1, 0.2, 0.3, 0.7, 1.1], [-1000.0, -0.5, 0.25, 3.0, 1.0e5]];
fn intervals() -> Vec<(usize, usize)> {
    (0..5).flat_map(|a| (a + 1..5).map(move |b| (a, b))).collect()
}
fn objs(grid: usize, t: &[usize]) -> Vec<Obj> {
    let iv = intervals();
    let l = &GRIDS[grid];
    t.iter()
        .enumerate()
        .map(|(i, k)| {
            let (x, y) = (iv[k % iv.len()], iv[k / iv.len() % iv.len()]);
            Obj(i, BoundingBox3D::new(&Point3D::new(l[x.0], l[y.0], -1.0), &Point3D::new(l[x.1], l[y.1], 5.0)).unwrap())
        })
        .collect()
}
fn check(c: &mut Ctx, o: Vec<Obj>, nx: u16, ny: u16, probes: &[f64]) {
    check_at(c, o, nx, ny, probes, &[])
}
/// objects of every size class, at the corners of all of them
fn large(c: &mut Ctx, n: usize) {
    for (name, pts) in patterns(n) {
        let m = pts.iter().flatten().map(|x| x.abs()).max().unwrap_or(1);
        for k in [1.0, 2f64.powi(-40), -2f64.powi(40)] {
            for (nx, ny) in [(1u16, 1u16), (2, 9), (33, 1), (16, 16), (257, 3), (1, 2000), (2000, 1), (1, 65535), (65535, 1)] {
                if n >= HUGE && (k != 1.0 || ![(2, 9), (33, 1), (1, 2000)].contains(&(nx, ny))) {
                    continue;
                }
                if nx.max(ny) == 65535 && (n != 7 && n != 100 || k != 1.0 || name == "block") {
                    continue;
                }
                let o: Vec<Obj> = pts
                    .iter()
                    .enumerate()
                    .map(|(i, p)| {
                        // sizes from half a unit to (rarely, last of all) everything
                        let (w, h) = if i == n - 1 && n % 2 == 1 { (2 * m, 2 * m) } else { ((i as i64 % 7 + 1) * (m / 50 + 1), ((i as i64 * 3) % 5 + 1) * (m / 70 + 1)) };
                        let q = |p: i64, s: i64| (p as f64 * k - 0.5 * k.abs() * s as f64, p as f64 * k + 0.5 * k.abs() * s as f64);
                        let (x, y, z) = (q(p[0], w), q(p[1], h), q(p[2], 1 + i as i64 % 3));
                        Obj(i, BoundingBox3D::new(&Point3D::new(x.0, y.0, z.0), &Point3D::new(x.1, y.1, z.1)).unwrap())
                    })
                    .collect();
                let mut at = vec![];
                for b in o.as_slice().iter().step_by(n / 40 + 1).chain(o.as_slice().last()) {
                    let (a, b) = (b.1.min_p(), b.1.max_p());
                    at.extend([(a.x, a.y), (b.x, b.y), (a.x, b.y), (0.5 * (a.x + b.x), 0.5 * (a.y + b.y)), (b.x + 0.25 * k.abs(), a.y - 0.25 * k.abs()), (a.x - 9.0 * k.abs() * m as f64, b.y)]);
                }
                c.note(name, 1);
                check_at(c, o, nx, ny, &[], &at);
            }
        }
    }
}
fn check_at(c: &mut Ctx, o: Vec<Obj>, nx: u16, ny: u16, probes: &[f64], at: &[(f64, f64)]) {
    c.state(&o.as_slice().iter().map(|x| format!("{:?}", x.1)).collect::<Vec<_>>());
    c.case(
        || format!("{}x{} cells over {} objects {:?}", nx, ny, o.as_slice().iter().count(), o.as_slice().iter().take(5).chain(o.as_slice().iter().skip(5).last()).map(|x| (x.1.min_p(), x.1.max_p())).collect::<Vec<_>>()),
        |c| {
            let cl = match Cluster::new(o.clone(), nx, ny) {
                Ok(cl) => {
                    ensure!(!o.is_empty(), "cluster of nothing");
                    cl
                }
                Err(_) => {
                    ensure!(o.is_empty(), "clustering rejected");
                    return Ok(());
                }
            };
            let (mut lo, mut hi) = ([f64::MAX; 2], [f64::MIN; 2]);
            for x in o.as_slice() {
                for (k, (a, b)) in [(x.1.min_p().x, x.1.max_p().x), (x.1.min_p().y, x.1.max_p().y)].into_iter().enumerate() {
                    lo[k] = lo[k].min(a);
                    hi[k] = hi[k].max(b);
                }
            }
            let cell = [(hi[0] - lo[0]) / nx as f64, (hi[1] - lo[1]) / ny as f64];
            let positions: Vec<(f64, f64)> = if at.is_empty() { probes.iter().flat_map(|x| probes.iter().map(move |y| (*x, *y))).collect() } else { at.to_vec() };
            for (x, y) in positions.as_slice() {
                {
                    c.trans(1);
                    let mut seen = vec![0u32; o.as_slice().iter().count()];
                    cl.for_each_candidate(*x, *y, &mut |h: &Obj| seen[h.0] += 1);
                    for h in o.as_slice() {
                        let (a, b) = (h.1.min_p(), h.1.max_p());
                        ensure!(seen[h.0] <= 1, "object {} reported {} times at {},{}", h.0, seen[h.0], x, y);
                        let inside = *x >= a.x && *x <= b.x && *y >= a.y && *y <= b.y;
                        ensure!(!inside || seen[h.0] == 1, "object {} contains {},{} but is no candidate", h.0, x, y);
                        // candidates are limited to the cell of the position
                        if seen[h.0] == 1 && *x >= lo[0] && *x <= hi[0] && *y >= lo[1] && *y <= hi[1] {
                            let tol = 1.0 + 1e-9;
                            let far = a.x - *x > tol * cell[0] || *x - b.x > tol * cell[0] || a.y - *y > tol * cell[1] || *y - b.y > tol * cell[1];
                            ensure!(!far, "object {} is more than a cell away from {},{}", h.0, x, y);
                        }
                    }
                }
            }
            Ok(())
        },
    );
}
fn main() {
    let mut gs = vec![];
    let counts: [(u16, u16); 8] = [(1, 1), (2, 2), (1, 4), (3, 2), (7, 7), (4, 1), (10, 3), (64, 64)];
    for grid in 0..GRIDS.len() {
        for (ci, (nx, ny)) in counts.into_iter().enumerate() {
            gs.push(g(format!("grid {} cells {}x{}", grid, nx, ny), move |c| {
                let l = &GRIDS[grid];
                let mut probes: Vec<f64> = l.to_vec();
                probes.extend(l.windows(2).map(|w| 0.5 * (w[0] + w[1])));
                probes.extend([l[0] - 0.5, l[4] + 0.5]);
                for len in 0..=2 {
                    if nx == 64 && len == 2 {
                        for a in (0..100).step_by(c.q(9, 3)) {
                            for b in 0..100 {
                                check(c, objs(grid, &[a, b]), nx, ny, &probes);
                            }
                        }
                        continue;
                    }
                    tuples(100, len, |t| {
                        check(c, objs(grid, t), nx, ny, &probes);
                        !c.stopped()
                    });
                }
                // three objects: the third from a subset
                if ci < 5 {
                    for a in (0..100).step_by(c.q(9, 3)) {
                        for b in (0..100).step_by(c.q(7, 2)) {
                            for d in (0..100).step_by(c.q(11, 5)) {
                                check(c, objs(grid, &[a, b, d]), nx, ny, &probes);
                            }
                        }
                    }
                }
            }));
        }
    }
    // object borders that differ by a tolerance of any size
    for axis in 0..2usize {
        gs.push(g(format!("close {}", axis), move |c| {
            for l in ladders() {
                for wide in [false, true] {
                    let mut o: Vec<Obj> = vec![];
                    for i in 0..6usize {
                        for j in i + 1..6 {
                            let (a, b) = ((l[i], l[j]), ([0.0, 2.0, -3.0][i % 3], [2.5, 3.0, 4.0][j % 3]));
                            let (x, y) = if axis == 0 { (a, b) } else { (b, a) };
                            o.push(Obj(o.as_slice().iter().count(), BoundingBox3D::new(&Point3D::new(x.0, y.0, -1.0), &Point3D::new(x.1, y.1, 5.0)).unwrap()));
                        }
                    }
                    if wide {
                        let n = o.as_slice().iter().count();
                        o.push(Obj(n, BoundingBox3D::new(&Point3D::new(-20.0, -20.0, -1.0), &Point3D::new(50.0, 50.0, 5.0)).unwrap()));
                    }
                    let at: Vec<(f64, f64)> = l.iter().flat_map(|x| [-4.0, 0.0, 2.0, 2.25, 4.0].iter().map(move |y| if axis == 0 { (*x, *y) } else { (*y, *x) })).collect();
                    for (nx, ny) in [(1u16, 1u16), (3, 3), (7, 10), (64, 2), (5, 300)] {
                        check_at(c, o.clone(), nx, ny, &[], &at);
                    }
                }
            }
        }));
    }
    gs.push(g("many objects and cells", |c| {
        for (nx, ny) in [(1u16, 1u16), (5, 5), (100, 3), (300, 300), (1000, 1)] {
            for n in [10usize, 60, 200] {
                let o: Vec<Obj> = (0..n)
                    .map(|i| {
                        let (x, y) = ((i * 37 % 101) as f64 * 0.1, (i * 53 % 97) as f64 * 0.1);
                        Obj(i, BoundingBox3D::new(&Point3D::new(x, y, 0.0), &Point3D::new(x + 0.05 * (1 + i % 4) as f64, y + 0.3, 1.0)).unwrap())
                    })
                    .collect();
                let probes: Vec<f64> = (-2..110).map(|i| i as f64 * 0.1).collect();
                check(c, o, nx, ny, &probes);
            }
        }
    }));
    for n in sizes(true) {
        gs.extend(parts(format!("large {}", n), if n > 1000 { 8 } else { 1 }, move |c| {
            if c.size(n, HUGE) {
                large(c, n)
            }
        }));
    }
    mc::main(
        Spec {
            prop: "C28",
            level: "model_checking",
            rule: "all lists of up to two boxes (and a lattice of triples) over interval grids x cell counts x all query positions on, between and outside of the box borders, compared with the containment test; states = distinct object lists, transitions = queries",
            assumptions: &["finite boxes of moderate size"],
        },
        gs,
    )
}
