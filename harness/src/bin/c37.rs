//! C37: polygons, polylines and segments as ordered views of their points.
use mc::*;
use rust_3d::*;

type V = Vec<f64>;
const L: [f64; 4] = [0.0, 1.0, -2.5, 0.1];
fn at3(i: usize) -> Point3D {
    Point3D::new(L[i % 4], L[i / 4 % 4], L[i / 16 % 4])
}
fn at2(i: usize) -> Point2D {
    Point2D::new(L[i % 4], L[i / 4 % 4])
}
fn d(a: &V, b: &V) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt()
}
fn p3(p: &Point3D) -> V {
    vec![p.x, p.y, p.z]
}
fn p2(p: &Point2D) -> V {
    vec![p.x, p.y]
}
fn mean(v: &[V], dim: usize) -> Option<V> {
    if v.is_empty() {
        return None;
    }
    Some((0..dim).map(|i| v.iter().map(|p| p[i]).sum::<f64>() / v.len() as f64).collect())
}
const FAR: [usize; 6] = [1 << 32, (1 << 32) + 1, 1 << 63, usize::MAX / 2, usize::MAX - 1, usize::MAX];
/// compares a polygon with the list of vertices it should hold
fn check<T, P: Clone>(p: &T, pc: &[V], f: fn(&P) -> V, len: f64, cog: Option<V>, dim: usize, s: f64) -> R
where
    T: IsPolygon<P>,
{
    let n = pc.len();
    ensure!(p.num_segments() == n && p.num_vertices() == n, "{} segments, {} vertices, expected {}", p.num_segments(), p.num_vertices(), n);
    for i in (0..n + 3).chain(FAR) {
        let id = p.segment_vertex_ids(SId(i)).map(|(a, b)| (a.0, b.0));
        let want = if i < n { Some((i, if i + 1 == n { 0 } else { i + 1 })) } else { None };
        ensure!(id == want, "segment {} joins {:?}, expected {:?}", i, id, want);
        let v = p.segment_vertices(SId(i)).map(|(a, b)| (f(&a), f(&b)));
        let want = want.map(|(a, b)| (pc[a].clone(), pc[b].clone()));
        ensure!(v == want, "segment {} has {:?}, expected {:?}", i, v, want);
        let v = p.vertex(VId(i)).map(|a| f(&a));
        ensure!(v == pc.get(i).cloned(), "vertex {} is {:?}, expected {:?}", i, v, pc.get(i));
    }
    let want: f64 = (0..n).map(|i| d(&pc[i], &pc[(i + 1) % n])).sum();
    ensure!(close(len / s, want / s, 1e-11), "length {} expected {}", len, want);
    let m = mean(pc, dim);
    ensure!(cog.is_some() == m.is_some(), "center of gravity {:?} expected {:?}", cog, m);
    if let (Some(a), Some(b)) = (cog, m) {
        ensure!(a.iter().zip(&b).all(|(x, y)| close(*x / s, *y / s, 1e-11)), "center of gravity {:?} expected {:?}", a, b);
    }
    Ok(())
}
/// compares all views of the points with their definition, s is the magnitude of the coordinates
fn lists(c: &mut Ctx, v2: Vec<Point2D>, v3: Vec<Point3D>, s: f64) {
    c.state(&v3.iter().map(|p| (p.x.to_bits(), p.y.to_bits(), p.z.to_bits())).collect::<Vec<_>>());
    c.case(
        || format!("{:?} {:?}", v2, v3),
        |c| {
            c.trans(4);
            let m2: Vec<V> = v2.iter().map(p2).collect();
            let m3: Vec<V> = v3.iter().map(p3).collect();
            let (c2, c3) = (PointCloud2D::from(v2.clone()), PointCloud3D::from(v3.clone()));
            let open = |m: &[V]| m.windows(2).map(|w| d(&w[0], &w[1])).sum::<f64>();
            ensure!(close(c2.length() / s, open(&m2) / s, 1e-11), "2D polyline length {}", c2.length());
            ensure!(close(c3.length() / s, open(&m3) / s, 1e-11), "3D polyline length {}", c3.length());
            let eq = |a: Option<V>, b: Option<V>| match (a, b) {
                (None, None) => true,
                (Some(a), Some(b)) => a.iter().zip(&b).all(|(x, y)| close(*x / s, *y / s, 1e-11)),
                _ => false,
            };
            ensure!(eq(c2.center_of_gravity().map(|p| p2(&p)), mean(&m2, 2)), "2D center of gravity {:?}", c2.center_of_gravity());
            ensure!(eq(c3.center_of_gravity().map(|p| p3(&p)), mean(&m3, 3)), "3D center of gravity {:?}", c3.center_of_gravity());
            let (g2, g3) = (Polygon2D::from(c2), Polygon3D::from(c3));
            check(&g2, &m2, p2, g2.length(), g2.center_of_gravity().map(|x| p2(&x)), 2, s)?;
            check(&g3, &m3, p3, g3.length(), g3.center_of_gravity().map(|x| p3(&x)), 3, s)?;
            // a mesh has the center of gravity of its vertices
            let mut m: Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>> = Default::default();
            v3.iter().for_each(|p| {
                m.add_vertex(p.clone());
            });
            ensure!(eq(m.center_of_gravity().map(|p| p3(&p)), mean(&m3, 3)), "mesh center of gravity");
            if let [a, b] = &v2[..] {
                let l = LineSegment2D::new(a.clone(), b.clone());
                ensure!(close(l.length() / s, open(&m2) / s, 1e-11), "2D segment length {}", l.length());
                ensure!(eq(l.center_of_gravity().map(|p| p2(&p)), mean(&m2, 2)), "2D segment center {:?}", l.center_of_gravity());
            }
            if let [a, b] = &v3[..] {
                let l = LineSegment3D::new(a.clone(), b.clone());
                ensure!(close(l.length() / s, open(&m3) / s, 1e-11), "3D segment length {}", l.length());
                ensure!(eq(l.center_of_gravity().map(|p| p3(&p)), mean(&m3, 3)), "3D segment center {:?}", l.center_of_gravity());
            }
            Ok(())
        },
    );
}
#[derive(Clone, Debug)]
enum Op {
    Add(usize),
    Change(usize, usize),
}
fn main() {
    let mut gs = vec![];
    for which in 0..2 {
        for start in 0..3usize {
            gs.push(g(format!("edits {}D from {} points", which + 2, start * 2), move |c| {
                let depth = c.q(6, 8);
                let mut acts: Vec<Op> = (0..3).map(Op::Add).collect();
                for id in 0..6 {
                    acts.push(Op::Change(id, 3));
                    acts.push(Op::Change(id, 1));
                }
                acts.extend(FAR.iter().map(|h| Op::Change(*h, 2)));
                let ids: Vec<usize> = (0..start * 2).map(|i| i * 5 + 3).collect();
                if which == 0 {
                    let p = Polygon2D::from(PointCloud2D::from(ids.as_slice().iter().map(|i| at2(*i)).collect::<Vec<_>>()));
                    let m: Vec<V> = ids.as_slice().iter().map(|i| p2(&at2(*i))).collect();
                    mc::bfs(
                        c,
                        vec![("start".into(), (p, m))],
                        depth,
                        |_| acts.clone(),
                        |(p, m), op| {
                            match op {
                                Op::Add(i) => {
                                    let id = p.add_vertex(at2(i * 6 + 1));
                                    m.push(p2(&at2(i * 6 + 1)));
                                    ensure!(id.0 == m.len() - 1, "added vertex got id {}", id.0);
                                }
                                Op::Change(id, i) => {
                                    let r = p.change_vertex(VId(*id), at2(i * 6 + 1));
                                    if *id < m.len() {
                                        ensure!(r.is_ok(), "change of {} rejected", id);
                                        m[*id] = p2(&at2(i * 6 + 1));
                                    } else {
                                        ensure!(matches!(r, Err(ErrorKind::IncorrectVertexID)), "change of unknown vertex {} accepted", id);
                                    }
                                }
                            }
                            check(p, m, p2, p.length(), p.center_of_gravity().map(|x| p2(&x)), 2, 1.0)?;
                            Ok(())
                        },
                        |(_, m)| m.iter().flatten().map(|x| x.to_bits()).collect::<Vec<_>>(),
                    );
                } else {
                    let p = Polygon3D::from(PointCloud3D::from(ids.as_slice().iter().map(|i| at3(*i)).collect::<Vec<_>>()));
                    let m: Vec<V> = ids.as_slice().iter().map(|i| p3(&at3(*i))).collect();
                    mc::bfs(
                        c,
                        vec![("start".into(), (p, m))],
                        depth,
                        |_| acts.clone(),
                        |(p, m), op| {
                            match op {
                                Op::Add(i) => {
                                    let id = p.add_vertex(at3(i * 6 + 17));
                                    m.push(p3(&at3(i * 6 + 17)));
                                    ensure!(id.0 == m.len() - 1, "added vertex got id {}", id.0);
                                }
                                Op::Change(id, i) => {
                                    let r = p.change_vertex(VId(*id), at3(i * 6 + 17));
                                    if *id < m.len() {
                                        ensure!(r.is_ok(), "change of {} rejected", id);
                                        m[*id] = p3(&at3(i * 6 + 17));
                                    } else {
                                        ensure!(matches!(r, Err(ErrorKind::IncorrectVertexID)), "change of unknown vertex {} accepted", id);
                                    }
                                }
                            }
                            check(p, m, p3, p.length(), p.center_of_gravity().map(|x| p3(&x)), 3, 1.0)?;
                            Ok(())
                        },
                        |(_, m)| m.iter().flatten().map(|x| x.to_bits()).collect::<Vec<_>>(),
                    );
                }
            }));
        }
    }
    gs.push(g("point lists", |c| {
        for len in 0..=c.q(4, 5) {
            tuples(16, len, |t| {
                let v2: Vec<Point2D> = t.iter().map(|i| at2(*i)).collect();
                let v3: Vec<Point3D> = t.iter().map(|i| at3(*i * 5 % 64)).collect();
                lists(c, v2, v3, 1.0);
                !c.stopped()
            });
        }
    }));
    gs.push(g("scaled", |c| {
        for k in (-300..=300).step_by(c.q(50, 10)) {
            let f = 2f64.powi(k);
            for len in 0..=c.q(2, 3) {
                tuples(16, len, |t| {
                    let v2 = t.iter().map(|i| at2(*i)).map(|p| Point2D::new(p.x * f, p.y * f)).collect();
                    let v3 = t.iter().map(|i| at3(*i * 5 % 64)).map(|p| Point3D::new(p.x * f, p.y * f, p.z * f)).collect();
                    lists(c, v2, v3, f);
                    !c.stopped()
                });
            }
        }
    }));
    for n in sizes(true) {
        gs.push(g(format!("large n={}", n), move |c| {
            if !c.size(n, mc::HUGE) {
                return;
            }
            for (name, v) in patterns(n) {
                c.note(name, 1);
                let m = v.as_slice().iter().flatten().fold(1.0f64, |m, x| m.max((*x as f64).abs()));
                let v2: Vec<Point2D> = v.as_slice().iter().map(|p| Point2D::new(p[0] as f64, p[1] as f64 - 0.5 * p[2] as f64)).collect();
                let v3: Vec<Point3D> = v.as_slice().iter().map(|p| Point3D::new(p[0] as f64, p[1] as f64 * 0.3, p[2] as f64)).collect();
                lists(c, v2.clone(), v3.clone(), m);
                // every vertex changed, one after the other, and more added
                let (w2, w3) = (v2.clone(), v3.clone());
                c.case(
                    || format!("edits of {} {}", n, name),
                    |c| {
                        let (mut g2, mut g3) = (Polygon2D::from(PointCloud2D::from(v2)), Polygon3D::from(PointCloud3D::from(v3)));
                        let mut m2: Vec<V> = w2.iter().map(p2).collect();
                        let mut m3: Vec<V> = w3.iter().map(p3).collect();
                        let every = if n >= mc::HUGE { 9973 } else if n > 300 { 97 } else { 7 };
                        for i in (0..n + 20).step_by(every) {
                            c.trans(2);
                            let (a, b) = (at2(i), at3(i));
                            if i < n {
                                ensure!(g2.change_vertex(VId(i), a.clone()).is_ok() && g3.change_vertex(VId(i), b.clone()).is_ok(), "change of {} rejected", i);
                                m2[i] = p2(&a);
                                m3[i] = p3(&b);
                            } else {
                                ensure!(g2.change_vertex(VId(m2.len()), a.clone()).is_err() && g3.change_vertex(VId(m3.len()), b.clone()).is_err(), "change of {} accepted", i);
                                ensure!(g2.add_vertex(a.clone()).0 == m2.len() && g3.add_vertex(b.clone()).0 == m3.len(), "wrong id for an added vertex");
                                m2.push(p2(&a));
                                m3.push(p3(&b));
                            }
                            check(&g2, &m2, p2, g2.length(), g2.center_of_gravity().map(|x| p2(&x)), 2, m)?;
                            check(&g3, &m3, p3, g3.length(), g3.center_of_gravity().map(|x| p3(&x)), 3, m)?;
                        }
                        Ok(())
                    },
                );
            }
        }));
    }
    mc::main(
        Spec {
            prop: "C37",
            level: "model_checking",
            rule: "breadth-first search over all add/change histories of 2D and 3D polygons (valid, unknown and huge vertex ids) with every observer compared with the vertex list after each step, and all short point lists (also scaled by 2^-300 to 2^300) and structured ones of up to 300 (thorough 4097) points for lengths and centers; states = distinct vertex lists, transitions = edits and observations",
            assumptions: &["coordinates whose squares neither overflow nor underflow, tolerance 1e-11 of the largest coordinate"],
        },
        gs,
    )
}
