//! C29: linear subdivision.
use mc::*;
use rust_3d::*;
use std::collections::BTreeMap;

type M = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
type M2 = Mesh3D<Point3D, Vec<Point3D>, DynamicPrecisionIndexVec>;
const L: [f64; 3] = [0.0, 2.0, -1.5];
fn v(p: &Point3D) -> [f64; 3] {
    [p.x, p.y, p.z]
}
fn mid(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [0.5 * (a[0] + b[0]), 0.5 * (a[1] + b[1]), 0.5 * (a[2] + b[2])]
}
fn area_vec(t: [[f64; 3]; 3]) -> [f64; 3] {
    let (a, b) = ([0, 1, 2].map(|i| t[1][i] - t[0][i]), [0, 1, 2].map(|i| t[2][i] - t[0][i]));
    [0.5 * (a[1] * b[2] - a[2] * b[1]), 0.5 * (a[2] * b[0] - a[0] * b[2]), 0.5 * (a[0] * b[1] - a[1] * b[0])]
}
fn same(a: [f64; 3], b: [f64; 3]) -> bool {
    (0..3).all(|i| close(a[i], b[i], 1e-12))
}
fn faces<X: IsMesh<Point3D, Face3>>(m: &X) -> Vec<[usize; 3]> {
    (0..m.num_faces()).map(|i| m.face_vertex_ids(FId(i)).unwrap()).map(|f| [f.a.0, f.b.0, f.c.0]).collect()
}
fn verts<X: IsMesh<Point3D, Face3>>(m: &X) -> Vec<[f64; 3]> {
    (0..m.num_vertices()).map(|i| v(&m.vertex(VId(i)).unwrap())).collect()
}
/// one subdivision step against the definition
fn step<A: IsMesh<Point3D, Face3>, B: IsMesh<Point3D, Face3>>(i: &A, o: &B) -> R {
    step_scaled(i, o, 1.0)
}
fn step_scaled<A: IsMesh<Point3D, Face3>, B: IsMesh<Point3D, Face3>>(i: &A, o: &B, k: f64) -> R {
    let (mut vi, fi, mut vo, fo) = (verts(i), faces(i), verts(o), faces(o));
    vi.iter_mut().chain(vo.iter_mut()).flatten().for_each(|x| *x /= k);
    let nv = vi.as_slice().iter().count();
    let mut edges: BTreeMap<(usize, usize), Option<usize>> = BTreeMap::new();
    for f in fi.as_slice() {
        for k in 0..3 {
            let (a, b) = (f[k], f[(k + 1) % 3]);
            edges.insert((a.min(b), a.max(b)), None);
        }
    }
    let (nvo, nfo, nf) = (vo.as_slice().iter().count(), fo.as_slice().iter().count(), fi.as_slice().iter().count());
    ensure!(nvo == nv + edges.len(), "{} vertices, expected {} + {}", nvo, nv, edges.len());
    ensure!(vo[..nv].iter().zip(vi.as_slice()).all(|(a, b)| a == b), "original vertices changed");
    ensure!(nfo == 4 * nf, "{} faces from {}", nfo, nf);
    ensure!(fo.as_slice().iter().flatten().all(|x| *x < nvo), "face references a missing vertex");
    // every input face is replaced by four faces with the same orientation: three corners and the center
    for (k, f) in fi.as_slice().iter().enumerate() {
        let quad = &fo[4 * k..4 * k + 4];
        let mut m = [usize::MAX; 3]; // midpoint vertex of edge k -> k+1
        for j in 0..3 {
            let (a, b) = (f[j], f[(j + 1) % 3]);
            let e = edges.get_mut(&(a.min(b), a.max(b))).unwrap();
            let want = mid(vi[a], vi[b]);
            let id = match e {
                Some(x) => *x,
                None => {
                    // the corner face at a must contain the midpoint directly behind a
                    let x = quad.iter().find_map(|q| (0..3).find(|r| q[*r] == a && q[(*r + 1) % 3] >= nv).map(|r| q[(r + 1) % 3]));
                    let x = x.ok_or(format!("no midpoint for edge {}-{} in {:?}", a, b, quad))?;
                    *e = Some(x);
                    x
                }
            };
            ensure!(same(vo[id], want), "edge {}-{} has midpoint {:?}, expected {:?}", a, b, vo[id], want);
            m[j] = id;
        }
        let mut want = vec![[f[0], m[0], m[2]], [f[1], m[1], m[0]], [f[2], m[2], m[1]], [m[0], m[1], m[2]]];
        let mut got: Vec<[usize; 3]> = quad.to_vec();
        for q in want.iter_mut().chain(got.iter_mut()) {
            let r = (0..3).min_by_key(|r| (q[*r], q[(*r + 1) % 3])).unwrap();
            *q = [q[r], q[(r + 1) % 3], q[(r + 2) % 3]];
        }
        want.sort();
        got.sort();
        ensure!(want == got, "face {:?} became {:?}, expected {:?}", f, quad, want);
        // same oriented area
        let a = area_vec([vi[f[0]], vi[f[1]], vi[f[2]]]);
        for q in quad {
            let b = area_vec([vo[q[0]], vo[q[1]], vo[q[2]]]);
            ensure!(same(b, a.map(|x| 0.25 * x)), "oriented area of {:?} is {:?}, expected a quarter of {:?}", q, b, a);
        }
    }
    let mut ids: Vec<usize> = edges.values().map(|x| x.unwrap()).collect();
    ids.sort();
    ids.dedup();
    ensure!(ids.as_slice().iter().count() == edges.len(), "two edges share a midpoint vertex");
    Ok(())
}
fn check(c: &mut Ctx, pts: &[Point3D], fs: &[[usize; 3]]) {
    c.state(&(pts.iter().map(|p| v(p).map(f64::to_bits)).collect::<Vec<_>>(), fs.to_vec()));
    c.case(
        || format!("{:?} {:?}", pts, fs),
        |c| {
            c.trans(3);
            let mut m = M::default();
            pts.iter().for_each(|p| {
                m.add_vertex(p.clone());
            });
            for f in fs {
                m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).map_err(|e| format!("connection: {:?}", e))?;
            }
            let o: M = linear(&m).map_err(|e| format!("subdivision failed: {:?}", e))?;
            step(&m, &o)?;
            let o2: M2 = linear(&o).map_err(|e| format!("second subdivision failed: {:?}", e))?;
            step(&o, &o2)?;
            let o3: M = linear(&o2).map_err(|e| format!("third subdivision failed: {:?}", e))?;
            step(&o2, &o3)
        },
    );
}
use rust_3d::subdivide::linear;
/// meshes of every size class and with vertex ids of every width, at several scales
fn large(c: &mut Ctx, n: usize) {
    let side = (2..).find(|s| s * s >= n).unwrap_or(2);
    let grid: Vec<[usize; 3]> = (0..side - 1).flat_map(|y| (0..side - 1).flat_map(move |x| vec![[y * side + x, y * side + x + 1, (y + 1) * side + x], [y * side + x + 1, (y + 1) * side + x + 1, (y + 1) * side + x]])).filter(|f| f.iter().all(|i| *i < n)).collect();
    let kinds: Vec<(&str, Vec<[usize; 3]>)> = vec![
        ("strip", (2..n).map(|i| if i % 2 == 0 { [i - 2, i - 1, i] } else { [i - 1, i - 2, i] }).collect()),
        ("fan", (2..n).map(|i| [0, i - 1, i]).collect()),
        ("fan around the last", (2..n).map(|i| [i - 1, n - 1, i - 2]).collect()),
        ("far", (0..n).map(|i| [i, (i + n / 3) % n, (i + 2 * n / 3) % n]).filter(|f| f[0] != f[1] && f[1] != f[2] && f[0] != f[2]).collect()),
        ("grid", grid),
        ("one face at the end", vec![[n - 1, n - 3, n - 2]]),
        ("one edge many times", (2..n).map(|i| if i % 2 == 0 { [0, 1, i] } else { [1, 0, i] }).collect()),
        ("all edges of a hub", (0..n - 2).map(|i| [i % 7, 7 + i % n.saturating_sub(8).max(1), 8.max(n - 1 - i / 7)]).filter(|f| f[0] != f[1] && f[1] != f[2] && f[0] != f[2] && f.iter().all(|i| *i < n)).collect()),
    ];
    for (name, fs) in kinds {
        for e in [0i32, -300, -40, 40, 300] {
            for (pname, pts) in [patterns(n).swap_remove(8), patterns(n).swap_remove(9)] {
                let k = 2f64.powi(e);
                c.state(&(n, name, e, pname));
                c.case(
                    || format!("{} over {} vertices ({}), * 2^{}", name, n, pname, e),
                    |c| {
                        c.trans(fs.as_slice().iter().count());
                        let mut m = Mesh3D::<Point3D, PointCloud3D<Point3D>, DynamicPrecisionIndexVec>::default();
                        for p in &pts {
                            m.add_vertex(Point3D::new(p[0] as f64 * k, p[1] as f64 * k, p[2] as f64 * k));
                        }
                        for f in fs.as_slice() {
                            m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).map_err(|e| format!("connection: {:?}", e))?;
                        }
                        let o: Mesh3D<Point3D, PointCloud3D<Point3D>, DynamicPrecisionIndexVec> = linear(&m).map_err(|e| format!("subdivision failed: {:?}", e))?;
                        step_scaled(&m, &o, k)?;
                        let o2: Mesh3D<Point3D, Vec<Point3D>, U32IndexVec> = linear(&o).map_err(|e| format!("second subdivision failed: {:?}", e))?;
                        step_scaled(&o, &o2, k)
                    },
                );
            }
        }
    }
}
fn main() {
    let mut gs = vec![];
    for n in sizes(true) {
        gs.extend(parts(format!("large {}", n), if n > 1000 { 8 } else { 1 }, move |c| {
            if c.size(n, 4097) {
                large(c, n)
            }
        }));
    }
    gs.push(g("far ids", |c| {
        // edges between few of very many vertices
        for n in [70_000usize, 140_000] {
            let ids = [0usize, 1, 255, 256, 257, 65_534, 65_535, 65_536, 65_537, 65_792, n - 2, n - 1];
            let fs: Vec<[usize; 3]> = (0..ids.len()).flat_map(|a| (0..ids.len()).flat_map(move |b| (0..ids.len()).map(move |d| [ids[a], ids[b], ids[d]]))).filter(|f| f[0] != f[1] && f[1] != f[2] && f[0] != f[2]).collect();
            c.state(&n);
            c.case(
                || format!("{} vertices, {} faces", n, fs.as_slice().iter().count()),
                |c| {
                    c.trans(fs.as_slice().iter().count());
                    let mut m = M::default();
                    for i in 0..n {
                        m.add_vertex(Point3D::new(i as f64, (i % 1000) as f64, (i / 1000) as f64));
                    }
                    for f in fs.as_slice() {
                        m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).map_err(|e| format!("connection: {:?}", e))?;
                    }
                    let o: M = linear(&m).map_err(|e| format!("subdivision failed: {:?}", e))?;
                    step(&m, &o)
                },
            );
        }
    }));
    // all sets of faces over up to five vertices, every orientation
    for nv in 3..=5usize {
        gs.push(g(format!("topologies over {} vertices", nv), move |c| {
            let pts: Vec<Point3D> = [(0.0, 0.0, 0.0), (2.0, 0.0, 0.5), (0.3, 1.7, 0.0), (0.1, 0.2, 3.0), (-1.0, -1.1, 0.4)][..nv].iter().map(|p| Point3D::new(p.0, p.1, p.2)).collect();
            let mut all = vec![];
            for a in 0..nv {
                for b in 0..nv {
                    for d in 0..nv {
                        if a != b && b != d && a != d {
                            all.push([a, b, d]);
                        }
                    }
                }
            }
            let n = all.len();
            for len in 0..=(if nv == 5 { c.q(2, 3) } else { 3 }) {
                tuples(n, len, |t| {
                    let fs: Vec<[usize; 3]> = t.iter().map(|i| all[*i]).collect();
                    check(c, &pts, &fs);
                    !c.stopped()
                });
            }
            // closed surfaces and strips
            if nv >= 4 {
                check(c, &pts, &[[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]]);
            }
            if nv == 5 {
                check(c, &pts, &[[0, 1, 3], [1, 2, 3], [2, 0, 3], [1, 0, 4], [2, 1, 4], [0, 2, 4]]);
                check(c, &pts, &[[0, 1, 2], [1, 3, 2], [2, 3, 4], [4, 3, 0], [4, 0, 1]]);
            }
        }));
    }
    gs.push(g("geometries", |c| {
        let k = 27;
        tuples(k, 3, |t| {
            let p: Vec<Point3D> = t.iter().map(|i| Point3D::new(L[i % 3], L[i / 3 % 3], L[i / 9])).collect();
            check(c, &p, &[[0, 1, 2]]);
            if c.thorough() {
                let mut q = p.clone();
                q.push(Point3D::new(0.7, 0.1, -9.0));
                check(c, &q, &[[0, 1, 2], [2, 1, 3]]);
            }
            !c.stopped()
        });
    }));
    mc::main(
        Spec {
            prop: "C29",
            level: "model_checking",
            rule: "all face lists of up to three faces over 3-5 vertices (every orientation, shared and repeated edges) and all triangles over a lattice, subdivided three times in a row through different mesh storages, every step compared with the definition; states = distinct meshes, transitions = subdivisions",
            assumptions: &["faces with three distinct vertices", "coordinates of moderate magnitude"],
        },
        gs,
    )
}
