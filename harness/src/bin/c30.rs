//! C30: healing meshes and clustering vertices.
use mc::*;
use rust_3d::*;
use std::collections::{HashMap, HashSet};

type M = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
type B = [u64; 3];
fn bits(p: &Point3D) -> B {
    [(p.x + 0.0).to_bits(), (p.y + 0.0).to_bits(), (p.z + 0.0).to_bits()]
}
fn mesh(pts: &[Point3D], fs: &[[usize; 3]]) -> M {
    let mut m = M::default();
    pts.iter().for_each(|p| {
        m.add_vertex(p.clone());
    });
    for f in fs {
        m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).ok().unwrap();
    }
    m
}
fn tri(m: &M) -> Res<Vec<[Point3D; 3]>> {
    let n = m.num_vertices();
    (0..m.num_faces())
        .map(|i| {
            let f = m.face_vertex_ids(FId(i)).ok_or("missing face")?;
            ensure_ids([f.a.0, f.b.0, f.c.0], n)?;
            m.face_vertices(FId(i)).ok_or("missing vertices".to_string())
        })
        .collect()
}
fn ensure_ids(f: [usize; 3], n: usize) -> R {
    ensure!(f.as_slice().iter().all(|x| *x < n), "face {:?} references a missing vertex of {}", f, n);
    Ok(())
}
fn rot<T: PartialOrd + Copy>(f: [T; 3]) -> [T; 3] {
    let mut r = f;
    for k in 1..3 {
        let q = [f[k], f[(k + 1) % 3], f[(k + 2) % 3]];
        if q < r {
            r = q;
        }
    }
    r
}
/// what remains of a list of triangles: no degenerate ones, the first of equal (rotated) ones
fn healed<T: Ord + Copy + std::hash::Hash>(t: &[[T; 3]]) -> Vec<[T; 3]> {
    let mut seen = HashSet::new();
    t.iter().filter(|f| f[0] != f[1] && f[1] != f[2] && f[0] != f[2]).filter(|f| seen.insert(rot(**f))).cloned().collect()
}
fn check_heal(c: &mut Ctx, pts: &[Point3D], fs: &[[usize; 3]]) {
    c.state(&(pts.iter().map(bits).collect::<Vec<_>>(), fs.to_vec()));
    c.case(
        || format!("heal {:?} {:?}", pts, fs),
        |c| {
            c.trans(2);
            let m = mesh(pts, fs);
            let r: M = heal_mesh(&m).map_err(|e| format!("healing failed: {:?}", e))?;
            let got: Vec<[B; 3]> = tri(&r)?.as_slice().iter().map(|t| [bits(&t[0]), bits(&t[1]), bits(&t[2])]).collect();
            let input: Vec<[B; 3]> = fs.iter().map(|f| f.map(|i| bits(&pts[i]))).collect();
            let want = healed(&input);
            ensure!(got == want, "healed triangles {:?}, expected {:?}", got.as_slice().iter().map(|t| t.map(|p| p.map(f64::from_bits))).collect::<Vec<_>>(), want.as_slice().iter().map(|t| t.map(|p| p.map(f64::from_bits))).collect::<Vec<_>>());
            let vs: Vec<B> = (0..r.num_vertices()).map(|i| bits(&r.vertex(VId(i)).unwrap())).collect();
            let set: HashSet<B> = vs.as_slice().iter().cloned().collect();
            ensure!(set.len() == vs.as_slice().iter().count(), "healed mesh has coincident vertices");
            let known: HashSet<B> = pts.iter().map(bits).collect();
            ensure!(set.is_subset(&known), "healing invented a vertex");
            let again: M = heal_mesh(&r).map_err(|e| format!("healing twice failed: {:?}", e))?;
            let second: Vec<[B; 3]> = tri(&again)?.as_slice().iter().map(|t| [bits(&t[0]), bits(&t[1]), bits(&t[2])]).collect();
            ensure!(second == got, "healing twice changes the mesh");
            Ok(())
        },
    );
}
fn check_cluster(c: &mut Ctx, pts: &[Point3D], fs: &[[usize; 3]], size: f64) {
    c.case(
        || format!("cluster size {} {:?} {:?}", size, pts, fs),
        |c| {
            c.trans(1);
            let m = mesh(pts, fs);
            let r: Result<M> = cluster_vertices(&m, size);
            let (mut lo, mut hi) = ([f64::MAX; 3], [f64::MIN; 3]);
            for p in pts {
                for (k, x) in [p.x, p.y, p.z].into_iter().enumerate() {
                    lo[k] = lo[k].min(x);
                    hi[k] = hi[k].max(x);
                }
            }
            let ok = pts.len() >= 2 && (0..3).all(|k| lo[k] < hi[k] && ((hi[k] - lo[k]) / size).floor() >= 2.0);
            let r = match r {
                Err(_) => {
                    ensure!(!ok, "clustering rejected");
                    return Ok(());
                }
                Ok(r) => r,
            };
            ensure!(ok, "clustering accepted although there are less than two clusters");
            let cl = |p: &Point3D| [((p.x - lo[0]) / size).floor() as i64, ((p.y - lo[1]) / size).floor() as i64, ((p.z - lo[2]) / size).floor() as i64];
            let want = healed(&fs.iter().map(|f| f.map(|i| cl(&pts[i]))).collect::<Vec<_>>());
            let t = tri(&r)?;
            let got: Vec<[[i64; 3]; 3]> = t.as_slice().iter().map(|t| [cl(&t[0]), cl(&t[1]), cl(&t[2])]).collect();
            ensure!(got == want, "clusters of the faces {:?}, expected {:?}", got, want);
            let known: HashSet<B> = pts.iter().map(bits).collect();
            let mut rep: HashMap<[i64; 3], B> = HashMap::new();
            for p in t.as_slice().iter().flatten() {
                ensure!(known.contains(&bits(p)), "vertex {:?} is none of the mesh", p);
                let b = *rep.entry(cl(p)).or_insert(bits(p));
                ensure!(b == bits(p), "cluster {:?} has two vertices", cl(p));
            }
            Ok(())
        },
    );
}
fn all_faces(nv: usize) -> Vec<[usize; 3]> {
    let mut all = vec![];
    for a in 0..nv {
        for b in 0..nv {
            for d in 0..nv {
                // the editing interface refuses repeated ids, degenerate triangles arise through coincident vertices
                if a != b && b != d && a != d {
                    all.push([a, b, d]);
                }
            }
        }
    }
    all
}
/// faces with coincident corners, repeated, rotated and turned faces among many
fn face_lists(n: usize) -> Vec<Vec<[usize; 3]>> {
    let ok = |f: &[usize; 3]| f[0] != f[1] && f[1] != f[2] && f[0] != f[2];
    let strip: Vec<[usize; 3]> = (2..n).map(|i| [i - 2, i - 1, i]).collect();
    let far: Vec<[usize; 3]> = (0..n).map(|i| [i, (i + n / 3) % n, (i + 2 * n / 3) % n]).filter(ok).collect();
    let mut twice = strip.clone();
    twice.extend(strip.as_slice().iter().rev().map(|f| [f[1], f[2], f[0]]));
    let mut turned = far.clone();
    turned.extend(far.as_slice().iter().map(|f| [f[2], f[1], f[0]]));
    turned.extend(far.as_slice().iter().map(|f| [f[2], f[0], f[1]]));
    // one repetition of the very first face at the end
    let mut last = strip.clone();
    last.push([strip[0][2], strip[0][0], strip[0][1]]);
    vec![strip, far, twice, turned, last]
}
fn large(c: &mut Ctx, n: usize) {
    for (_, pts) in patterns(n) {
        for e in [0i32, -300, -60, 60, 300] {
            if n >= HUGE && e != 0 {
                continue;
            }
            let k = 2f64.powi(e);
            let p: Vec<Point3D> = pts.iter().map(|p| Point3D::new(p[0] as f64 * k, p[1] as f64 * k, p[2] as f64 * k)).collect();
            let lists = face_lists(n);
            for (i, fs) in lists.into_iter().enumerate() {
                if e == 0 || i > 2 {
                    check_heal(c, &p, &fs);
                }
                for size in [1.0, 2.5, 16.0, 1000.0] {
                    if i > 1 && (e == 0 || size == 2.5) {
                        check_cluster(c, &p, &fs, size * k);
                    }
                }
            }
        }
    }
    // few places, many vertices, offsets that leave the places exact
    for (m, off) in [(2usize, 0.0), (5, 1e6), (5, -3.0), (11, 0.5)] {
        let p: Vec<Point3D> = (0..n).map(|i| (i * 13 + i / 7) % (m * m)).map(|j| Point3D::new((j % m) as f64 + off, (j / m) as f64 - off, (j % 3) as f64 + off)).collect();
        for fs in face_lists(n) {
            check_heal(c, &p, &fs);
            check_cluster(c, &p, &fs, 1.0);
        }
    }
}
fn main() {
    let mut gs = vec![];
    for n in sizes(true) {
        gs.extend(parts(format!("large {}", n), if n > 1000 { 8 } else { 1 }, move |c| {
            if c.size(n, HUGE) {
                large(c, n)
            }
        }));
    }
    gs.push(g("heal neighbouring numbers", |c| {
        // vertices that differ in the last bit of one coordinate are different, both zeros are the same
        for x in [0.0, -0.0, 1.0, -1.0, 0.1, 1e-12, -1e-9, 3e7, 1e15, 1e100, 5e-324, 1e-300, -1e300] {
            let next = if x == 0.0 { 5e-324 } else { f64::from_bits(f64::to_bits(x) + 1) };
            for axis in 0..3 {
                for y in [x, next, -x, 2.5] {
                    let at = |v: f64| {
                        let mut q = [1.5, -2.5, 0.75];
                        q[axis] = v;
                        Point3D::new(q[0], q[1], q[2])
                    };
                    let pts = vec![at(x), at(y), at(7.5), Point3D::new(9.0, 8.0, 7.0), at(next), at(x)];
                    for f in all_faces(6) {
                        check_heal(c, &pts, &[f, [0, 2, 3], [f[1], f[2], f[0]], [1, 2, 3], [4, 3, 5], [5, 2, 3]]);
                    }
                }
            }
        }
    }));
    let p = |x: f64, y: f64, z: f64| Point3D::new(x, y, z);
    // vertex tables with and without coincident vertices (also differing in the sign of zero)
    let tables: Vec<Vec<Point3D>> = vec![
        vec![p(0.0, 0.0, 0.0), p(1.0, 0.0, 0.0), p(0.0, 1.0, 0.0)],
        vec![p(0.0, 0.0, 0.0), p(1.0, 0.0, 0.0), p(0.0, 1.0, 0.0), p(1.0, 0.0, 0.0)],
        vec![p(0.0, 0.0, 0.0), p(1.0, 0.5, 0.0), p(0.1, 1.0, 2.0), p(-0.0, 0.0, -0.0)],
        vec![p(3.0, 0.0, 0.0), p(3.0, 0.0, 0.0), p(3.0, 0.0, 0.0), p(1.0, 2.0, 1.0)],
        vec![p(0.0, 0.0, 0.0), p(1.0, 0.0, 0.0), p(0.0, 1.0, 0.0), p(0.0, 0.0, 1.0)],
    ];
    for (ti, pts) in tables.into_iter().enumerate() {
        gs.push(g(format!("heal table {}", ti), move |c| {
            let all = all_faces(pts.as_slice().iter().count());
            for len in 0..=c.q(2, 3) {
                tuples(all.as_slice().iter().count(), len, |t| {
                    check_heal(c, &pts, &t.iter().map(|i| all[*i]).collect::<Vec<_>>());
                    !c.stopped()
                });
            }
        }));
    }
    gs.push(g("heal long face lists", |c| {
        let pts: Vec<Point3D> = (0..5).map(|i| Point3D::new((i % 3) as f64, (i / 2) as f64, 1.0)).collect();
        let all = all_faces(5);
        let n = all.as_slice().iter().count();
        for step in 1..n {
            for len in [n, 2 * n, 17] {
                check_heal(c, &pts, &(0..len).map(|i| all[i * step % n]).collect::<Vec<_>>());
            }
        }
    }));
    // clusters that are any number of clusters apart
    for axis in 0..3usize {
        gs.push(g(format!("distant clusters {}", axis), move |c| {
            for k in 1..50u32 {
                for d in [-1i64, 0, 1] {
                    let far = (1i64 << k) + d;
                    if far < 3 {
                        continue;
                    }
                    for size in [1.0, 0.125, 1024.0] {
                        let at = |u: i64, v: f64, w: f64| {
                            let mut q = [w * size; 3];
                            q[axis] = (u as f64 + 0.5) * size;
                            q[(axis + 1) % 3] = (v + 0.5) * size;
                            Point3D::new(q[0], q[1], q[2])
                        };
                        // the box starts at a multiple of the size
                        let mut lo = at(0, 0.0, 0.0);
                        lo.x = 0.0;
                        lo.y = 0.0;
                        lo.z = 0.0;
                        let pts = vec![lo, at(far, 7.0, 7.5), at(0, 3.0, 3.5), at(far, 3.0, 3.5), at(far - 1, 3.0, 3.5), at(1, 3.0, 3.5), at(far, 0.0, 0.5)];
                        for f in [[0, 1, 2], [2, 3, 1], [2, 4, 6], [5, 3, 4], [0, 6, 2]] {
                            check_cluster(c, &pts, &[f, [2, 3, 4], [5, 2, 1], [0, 6, 3], [2, 3, 0]], size);
                            check_cluster(c, &pts, &[[0, 6, 5], f, [0, 1, 3]], size);
                        }
                    }
                }
            }
        }));
    }
    // vertices that differ by a tolerance of any size
    for axis in 0..3usize {
        gs.push(g(format!("heal close {}", axis), move |c| {
            for l in ladders() {
                for step in [1usize, 5] {
                    let pts: Vec<Point3D> = (0..9)
                        .map(|i| {
                            let mut p = [1.0, -2.0, 0.5];
                            p[axis] = l[i * step % 6];
                            Point3D::new(p[0], p[1], p[2])
                        })
                        .collect();
                    for k in 1..9usize {
                        check_heal(c, &pts, &(0..7).map(|i| [i, (i + k) % 9, (i + 2 * k + k / 3) % 9]).filter(|f| f[0] != f[1] && f[1] != f[2] && f[2] != f[0]).collect::<Vec<_>>());
                    }
                }
            }
        }));
        // vertices at every distance from the borders of the clusters
        gs.push(g(format!("cluster close to the borders {}", axis), move |c| {
            for size in [1.0, 0.5, 4.0] {
                for j in 1..=50 {
                    let h = 2f64.powi(-j);
                    for at in 0..3usize {
                        let mut pts = vec![Point3D::new(0.0, 0.0, 0.0), Point3D::new(3.0 * size, 3.0 * size, 3.0 * size)];
                        for x in [1.0 - h, 1.0, 1.0 + h, 2.0 - h, 2.0, 2.0 + h, 3.0 - h] {
                            let mut p = [0.5 * size + 0.25 * at as f64 * size; 3];
                            p[axis] = x * size;
                            pts.push(Point3D::new(p[0], p[1], p[2]));
                        }
                        let fs = [[0, 2, 1], [0, 3, 1], [0, 4, 1], [5, 1, 0], [6, 1, 0], [7, 1, 0], [8, 0, 1], [2, 3, 0], [3, 4, 1], [2, 4, 5], [6, 3, 0]];
                        c.state(&(size.to_bits(), j, at));
                        check_cluster(c, &pts, &fs, size);
                    }
                }
            }
        }));
    }
    // clustering: corner points span the bounding box, four more vertices are enumerated
    for (si, size) in [0.5, 1.0, 0.75, 2.0, 0.3, 4.5, 100.0].into_iter().enumerate() {
        gs.push(g(format!("cluster size {}", si), move |c| {
            let l = [0.0, 0.625, 1.125, 2.375, 3.875];
            let fs = [[0, 2, 1], [2, 3, 4], [4, 3, 2], [3, 4, 2], [0, 3, 1], [1, 4, 2], [2, 5, 3], [5, 4, 0]];
            for off in [0.0, -7.0] {
                tuples(c.q(5, 10), 4, |t| {
                    let mut pts = vec![Point3D::new(off, 0.0, off), Point3D::new(off + 4.0625, 4.0625, off + 4.0625)];
                    for (k, i) in t.iter().enumerate() {
                        pts.push(Point3D::new(off + l[i % 5], l[(i * 2 + k) % 5], off + l[(i / 5 + i) % 5]));
                    }
                    c.state(&(si, off.to_bits(), t.to_vec()));
                    check_cluster(c, &pts, &fs, size);
                    check_cluster(c, &pts, &fs[..3], size);
                    !c.stopped()
                });
            }
        }));
    }
    gs.push(g("cluster flat or small meshes", |c| {
        for size in [0.5, 1.0, 3.0] {
            for k in 0..27usize {
                let e = |i: usize| [0.0, 0.875, 5.125][i % 3];
                let pts = vec![Point3D::new(0.0, 0.0, 0.0), Point3D::new(e(k), e(k / 3), e(k / 9)), Point3D::new(0.5 * e(k), 0.0, e(k / 9))];
                check_cluster(c, &pts, &[[0, 1, 2]], size);
                check_cluster(c, &pts[..1], &[], size);
                check_cluster(c, &[], &[], size);
            }
        }
    }));
    mc::main(
        Spec {
            prop: "C30",
            level: "model_checking",
            rule: "all face lists up to the stated length over vertex tables with coincident vertices (healing), all vertex placements over a lattice x cluster sizes (clustering), against the definition by merging equal vertices/clusters; states = distinct meshes, transitions = runs",
            assumptions: &["positive cluster size; vertices not within rounding of a cluster border unless exactly representable"],
        },
        gs,
    )
}
