//! C41: unifying the face orientation.
use mc::*;
use rust_3d::*;

type M = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
fn dir(f: [usize; 3]) -> [(usize, usize); 3] {
    [(f[0], f[1]), (f[1], f[2]), (f[2], f[0])]
}
/// all pairs of faces at a common edge and whether both run through it in the same direction
fn joined(fs: &[[usize; 3]]) -> Vec<(usize, usize, bool)> {
    let mut m: std::collections::BTreeMap<(usize, usize), Vec<(usize, bool)>> = Default::default();
    for (i, f) in fs.iter().enumerate() {
        for (x, y) in dir(*f) {
            m.entry((x.min(y), x.max(y))).or_default().push((i, x < y));
        }
    }
    let mut r = vec![];
    for v in m.values() {
        for (k, a) in v.iter().enumerate() {
            for b in v.iter().take(k) {
                r.push((a.0, b.0, a.1 == b.1));
            }
        }
    }
    r
}
fn orientable(fs: &[[usize; 3]]) -> bool {
    let n = fs.len();
    let mut near: Vec<Vec<(usize, bool)>> = vec![vec![]; n];
    for (i, j, d) in joined(fs) {
        near[i].push((j, d));
        near[j].push((i, d));
    }
    let mut flip: Vec<Option<bool>> = vec![None; n];
    for s in 0..n {
        if flip[s].is_some() {
            continue;
        }
        flip[s] = Some(false);
        let mut st = vec![s];
        while let Some(i) = st.pop() {
            for (j, d) in near[i].iter() {
                let want = flip[i].unwrap() != *d;
                match flip[*j] {
                    None => {
                        flip[*j] = Some(want);
                        st.push(*j)
                    }
                    Some(x) if x != want => return false,
                    _ => {}
                }
            }
        }
    }
    true
}
fn check(c: &mut Ctx, pts: &[Point3D], fs: &[[usize; 3]]) {
    c.state(&(pts.iter().map(|p| (p.x.to_bits(), p.y.to_bits(), p.z.to_bits())).collect::<Vec<_>>(), fs.to_vec()));
    c.case(
        || format!("{:?} {:?}", pts, fs),
        |c| {
            c.trans(1);
            let mut m = M::default();
            pts.iter().for_each(|p| {
                m.add_vertex(p.clone());
            });
            for f in fs {
                m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).map_err(|e| format!("connection: {:?}", e))?;
            }
            let r: M = unify_faces(&m).map_err(|e| format!("failed: {:?}", e))?;
            ensure!(r.num_vertices() == pts.len(), "{} vertices", r.num_vertices());
            for (i, p) in pts.iter().enumerate() {
                let q = r.vertex(VId(i)).unwrap();
                ensure!(q.x == p.x && q.y == p.y && q.z == p.z, "vertex {} changed to {:?}", i, q);
            }
            ensure!(r.num_faces() == fs.len(), "{} faces", r.num_faces());
            let out: Vec<[usize; 3]> = (0..fs.len()).map(|i| r.face_vertex_ids(FId(i)).unwrap()).map(|f| [f.a.0, f.b.0, f.c.0]).collect();
            for (a, b) in fs.iter().zip(out.as_slice()) {
                let rots = |f: [usize; 3]| [[f[0], f[1], f[2]], [f[1], f[2], f[0]], [f[2], f[0], f[1]]];
                let fl = [a[0], a[2], a[1]];
                ensure!(rots(*a).contains(b) || rots(fl).contains(b), "face {:?} became {:?}", a, b);
            }
            if orientable(fs) {
                c.note("orientable", 1);
                for (i, j, d) in joined(out.as_slice()) {
                    ensure!(!d, "faces {:?} and {:?} have different orientations", out[j], out[i]);
                }
            }
            Ok(())
        },
    );
}
fn triples(nv: usize) -> Vec<[usize; 3]> {
    let mut v = vec![];
    for a in 0..nv {
        for b in a + 1..nv {
            for d in b + 1..nv {
                v.push([a, b, d]);
            }
        }
    }
    v
}
fn oriented(f: [usize; 3], flip: bool, r: usize) -> [usize; 3] {
    let f = if flip { [f[0], f[2], f[1]] } else { f };
    [f[r % 3], f[(r + 1) % 3], f[(r + 2) % 3]]
}
fn geometry(k: usize, nv: usize) -> Vec<Point3D> {
    (0..nv)
        .map(|i| match k {
            0 => Point3D::new([0.0, 2.0, 0.3, 0.1, -1.0, 0.8][i], [0.0, 0.0, 1.7, 0.2, -1.1, 0.9][i], [0.0, 0.5, 0.0, 3.0, 0.4, -2.0][i]),
            1 => Point3D::new(i as f64, (i * i) as f64, 0.0), // flat
            _ => Point3D::new((i % 2) as f64, (i / 2 % 2) as f64, (i / 4) as f64),
        })
        .collect()
}
fn main() {
    let mut gs = vec![];
    for k in 0..3usize {
        gs.push(g(format!("all orientations over 4 and 5 vertices, geometry {}", k), move |c| {
            for nv in [3usize, 4, 5] {
                let tr = triples(nv);
                let n = tr.as_slice().iter().count();
                let pts = geometry(k, nv);
                let total = 3usize.pow(n as u32);
                for code in 0..total {
                    let mut x = code;
                    let mut fs = vec![];
                    for f in tr.as_slice() {
                        match x % 3 {
                            0 => {}
                            y => fs.push(oriented(*f, y == 2, code + x)),
                        }
                        x /= 3;
                    }
                    check(c, &pts, &fs);
                    if nv == 4 {
                        permutations(fs.as_slice().iter().count(), |o| {
                            check(c, &pts, &o.iter().map(|i| fs[*i]).collect::<Vec<_>>());
                            !c.stopped()
                        });
                    } else {
                        fs.reverse();
                        check(c, &pts, &fs);
                    }
                    if c.stopped() {
                        return;
                    }
                }
            }
        }));
    }
    gs.push(g("up to four faces over 6 vertices", |c| {
        let tr = triples(6);
        for len in 1..=c.q(3usize, 4) {
            for k in 0..c.q(1, 3) {
                let pts = geometry(k, 6);
                tuples(20, len, |t| {
                    if t.windows(2).any(|w| w[0] == w[1]) {
                        return true;
                    }
                    for fl in 0..1usize << len {
                        check(c, &pts, &t.iter().enumerate().map(|(j, i)| oriented(tr[*i], fl >> j & 1 == 1, *i + j)).collect::<Vec<_>>());
                    }
                    !c.stopped()
                });
            }
        }
    }));
    // closed bodies: every combination of flipped faces
    gs.push(g("closed bodies", |c| {
        let tetra = vec![[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]];
        let octa = vec![[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1], [5, 2, 1], [5, 3, 2], [5, 4, 3], [5, 1, 4]];
        let op = vec![Point3D::new(0.0, 0.0, 1.0), Point3D::new(1.0, 0.0, 0.0), Point3D::new(0.0, 1.0, 0.0), Point3D::new(-1.0, 0.0, 0.0), Point3D::new(0.0, -1.0, 0.0), Point3D::new(0.0, 0.0, -1.0)];
        let cube = vec![[0, 2, 1], [1, 2, 3], [4, 5, 6], [5, 7, 6], [0, 1, 4], [1, 5, 4], [2, 6, 3], [3, 6, 7], [0, 4, 2], [2, 4, 6], [1, 3, 5], [3, 7, 5]];
        let cp: Vec<Point3D> = (0..8).map(|i| Point3D::new((i & 1) as f64, (i >> 1 & 1) as f64, (i >> 2) as f64)).collect();
        for (fs, pts) in [(tetra, geometry(0, 4)), (octa, op), (cube, cp)] {
            let n = fs.as_slice().iter().count();
            for fl in 0..1usize << n {
                for r in 0..c.q(1, 3) {
                    check(c, &pts, &fs.as_slice().iter().enumerate().map(|(j, f)| oriented(*f, fl >> j & 1 == 1, r + j)).collect::<Vec<_>>());
                }
                if c.stopped() {
                    return;
                }
            }
        }
    }));
    for n in sizes(true) {
        gs.extend(parts(format!("large n={}", n), if n > 1000 { 8 } else { 1 }, move |c| {
            if !c.size(n, HUGE) {
                return;
            }
            let w = (n as f64 / 2.0).sqrt().ceil() as usize + 3;
            let torus = |i: usize, j: usize| (i % w) * w + j % w;
            let shapes: Vec<(&str, Vec<[usize; 3]>)> = [
                ("strip", (0..n).map(|i| oriented([i, i + 1, i + 2], i % 2 == 1, 0)).collect()),
                ("fan", (0..n).map(|i| [0, i + 1, i + 2]).collect()),
                ("closed fan", (0..n).map(|i| [0, i + 1, (i + 1) % n + 1]).collect()),
                ("torus", (0..w * w).flat_map(|k| (0..2).map(move |h| (k / w, k % w, h))).map(|(i, j, h)| if h == 0 { [torus(i, j), torus(i + 1, j), torus(i + 1, j + 1)] } else { [torus(i, j), torus(i + 1, j + 1), torus(i, j + 1)] }).collect()),
                ("separate pairs", (0..n).map(|i| if i % 2 == 0 { [2 * i, 2 * i + 1, 2 * i + 2] } else { [2 * i - 1, 2 * i - 2, 2 * i + 1] }).collect()),
                ("ring", (0..2 * n).map(|i| oriented([i, (i + 1) % (2 * n), (i + 2) % (2 * n)], i % 2 == 1, 0)).collect()),
            ]
            .to_vec();
            for (name, fs) in shapes.as_slice() {
                let m = fs.as_slice().iter().count();
                let nv = fs.as_slice().iter().flatten().max().unwrap() + 1;
                let pts: Vec<Point3D> = (0..nv).map(|i| Point3D::new(i as f64, (i * i % 17) as f64, (i % 5) as f64 * 0.5)).collect();
                c.note(name, 1);
                for order in 0..5 {
                    for flips in 0..7 {
                        // all faces of a hub are looked at for each of them
                        if n >= HUGE && (name.contains("fan") || order != 3 && order != 4 || flips != 3) {
                            continue;
                        }
                        let l: Vec<[usize; 3]> = (0..m)
                            .map(|k| match order {
                                0 => k,
                                1 => m - 1 - k,
                                2 => if 2 * k < m { 2 * k } else { 2 * (k - (m + 1) / 2) + 1 },
                                3 => (k + m / 2) % m,
                                _ => if k % 2 == 0 { k / 2 } else { m - 1 - k / 2 },
                            })
                            .map(|k| {
                                let flip = match flips {
                                    0 => false,
                                    1 => true,
                                    2 => k % 2 == 0,
                                    3 => k % 3 == 0,
                                    4 => k < m / 2,
                                    5 => k == m - 1,
                                    _ => k * k % 7 < 3,
                                };
                                oriented(fs[k], flip, k)
                            })
                            .collect();
                        check(c, &pts, &l);
                    }
                    if c.stopped() {
                        return;
                    }
                }
            }
        }));
    }
    mc::main(
        Spec {
            prop: "C41",
            level: "model_checking",
            rule: "all sets of triangles over up to 5 vertices in every combination of orientations (and permutations over 4), all short face lists over 6 vertices, all flips of closed bodies, strips, fans, tori, rings and separate pairs of up to 300 (thorough 4097) faces in several orders and flips; outputs compared as (same vertices, same faces up to flip, every shared edge traversed in opposite directions whenever a consistent orientation exists); states = distinct meshes, transitions = runs",
            assumptions: &["faces with three distinct vertices"],
        },
        gs,
    )
}
