//! C06: half edge navigation against the face list.
use mc::*;
use std::collections::HashMap;
use rust_3d::*;

type F = [usize; 3];

fn ids(v: &[EId]) -> Vec<usize> {
    let mut r: Vec<usize> = v.as_ref().iter().map(|x: &EId| x.0).collect();
    r.sort();
    r
}
fn fids(v: &[FId]) -> Vec<usize> {
    let mut r: Vec<usize> = v.as_ref().iter().map(|x: &FId| x.0).collect();
    r.sort();
    r
}
fn sorted(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v
}

fn verify<IC: IsIndexContainer + Clone>(n: usize, faces: &[F]) -> R {
    let mut m = Mesh3D::<Point3D, PointCloud3D<Point3D>, IC>::default();
    for i in 0..n {
        m.add_vertex(Point3D::new(i as f64, (i * i) as f64, (i * 7 % 5) as f64));
    }
    for f in faces {
        m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).map_err(|e| format!("face {:?} refused: {:?}", f, e))?;
    }
    let s = SearchableMesh::<_, Point3D, IC>::new(m);
    navigate(&s, n, n, faces)?;
    // the mesh and its half edge structure can be taken apart and put together again
    let (m, he): (_, HalfEdge<IC>) = s.into();
    for e in 0..faces.len() * 3 {
        ensure!(he.tail(EId(e)) == Some(VId(faces[e / 3][e % 3])), "HalfEdge::tail({})", e);
    }
    structure(&he, n, faces)?;
    let parts: (IC, Vec<Option<EId>>, Vec<IC>) = he.into();
    navigate(&SearchableMesh::from((m, HalfEdge::from(parts))), n, n, faces)
}

/// the half edge structure used on its own; results are appended to what is there
fn structure<IC: IsIndexContainer>(he: &HalfEdge<IC>, n: usize, faces: &[F]) -> R {
    let ne = faces.len() * 3;
    let t = Table::new(n, faces);
    for e in 0..ne {
        let id = EId(e);
        ensure!(he.tail(id) == Some(VId(t.tail[e])) && he.face(id) == Some(FId(e / 3)), "tail or face of {}", e);
        ensure!(he.next(id) == Some(EId(e / 3 * 3 + (e + 1) % 3)) && he.prev(id) == Some(EId(e / 3 * 3 + (e + 2) % 3)), "neighbours of {}", e);
        ensure!(he.twin(id) == t.twin(e).first().map(|x| EId(*x)), "twin of {}", e);
        ensure!(he.ensure_edge_id(id).is_ok(), "edge {} unknown", e);
    }
    let (mut cache, mut re, mut rf) = (vec![EId(3)], vec![EId(9)], vec![FId(9)]);
    let (mut xe, mut xf) = (vec![9], vec![9]);
    for v in 0..n {
        ensure!(he.ensure_vertex_id(VId(v)).is_ok(), "vertex {} unknown", v);
        let k = xe.as_slice().iter().count();
        ensure!(he.edges_originating(VId(v), &mut re).is_ok() && he.edges_ending(VId(v), &mut cache, &mut re).is_ok() && he.edges_all(VId(v), &mut cache, &mut re).is_ok(), "edges at {}", v);
        ensure!(he.faces(VId(v), &mut cache, &mut rf).is_ok(), "faces at {}", v);
        let (o, e) = (&t.orig[v], &t.end[v]);
        xe.extend(o.as_slice().iter().chain(e.as_slice().iter()));
        let d = o.as_slice().iter().count();
        let all = sorted(o.as_slice().iter().chain(e.as_slice().iter()).cloned().collect());
        xe.extend(all.as_slice().iter());
        ensure!(re.as_slice().iter().count() == xe.as_slice().iter().count(), "number of edges at {}", v);
        let from = if n > 300 { k.saturating_sub(20) } else { 0 };
        ensure!(re[from..k].iter().map(|x| x.0).eq(xe[from..k].iter().cloned()), "edges found earlier changed at {}", v);
        ensure!(ids(&re[k..k + d]) == xe[k..k + d] && ids(&re[k + d..k + 2 * d]) == xe[k + d..k + 2 * d] && ids(&re[k + 2 * d..]) == xe[k + 2 * d..], "edges at {}: {:?}", v, &re[k..]);
        // the order within is free
        for i in k..xe.as_slice().iter().count() {
            xe[i] = re[i].0;
        }
        let k = xf.as_slice().iter().count();
        let from = if n > 300 { k.saturating_sub(20) } else { 0 };
        ensure!(rf[from..k].iter().map(|x| x.0).eq(xf[from..].iter().cloned()), "faces found earlier changed at {}", v);
        ensure!(fids(&rf[k..]) == t.of[v], "faces at {}: {:?}", v, &rf[k..]);
        xf.extend(rf[k..].iter().map(|x| x.0));
    }
    for (ie, iv) in [0, 1, 2, 1000].iter().map(|x| (ne + x, n + x)).chain(far(ne).into_iter().map(|x| (x, x.max(n)))).chain(far(n).into_iter().map(|x| (x.max(ne), x))) {
        let (e, v) = (EId(ie), VId(iv));
        ensure!(he.ensure_edge_id(e).is_err() && he.ensure_vertex_id(v).is_err(), "unknown ids {:?} {:?} accepted", e, v);
        ensure!(he.tail(e).is_none() && he.next(e).is_none() && he.prev(e).is_none() && he.twin(e).is_none() && he.face(e).is_none(), "unknown edge {:?} resolves", e);
        ensure!(he.edges_originating(v, &mut re).is_err() && he.edges_ending(v, &mut cache, &mut re).is_err() && he.edges_all(v, &mut cache, &mut re).is_err() && he.faces(v, &mut cache, &mut rf).is_err(), "unknown vertex {:?} accepted", v);
        ensure!(re.as_slice().iter().count() == xe.as_slice().iter().count() && rf.as_slice().iter().count() == xf.as_slice().iter().count(), "results for unknown ids");
    }
    Ok(())
}
/// the face list turned around
struct Table {
    tail: Vec<usize>,
    head: Vec<usize>,
    at: HashMap<(usize, usize), Vec<usize>>,
    orig: Vec<Vec<usize>>,
    end: Vec<Vec<usize>>,
    of: Vec<Vec<usize>>,
}
impl Table {
    fn new(n: usize, faces: &[F]) -> Table {
        let mut t = Table { tail: vec![], head: vec![], at: HashMap::new(), orig: vec![vec![]; n], end: vec![vec![]; n], of: vec![vec![]; n] };
        for (i, f) in faces.iter().enumerate() {
            for k in 0..3 {
                let (a, b) = (f[k], f[(k + 1) % 3]);
                t.tail.push(a);
                t.head.push(b);
                t.at.entry((a, b)).or_default().push(3 * i + k);
                t.orig[a].push(3 * i + k);
                t.end[b].push(3 * i + k);
                t.of[a].push(i);
            }
        }
        for v in 0..n {
            t.end[v].sort();
        }
        t
    }
    fn twin(&self, e: usize) -> Vec<usize> {
        self.at.get(&(self.head[e], self.tail[e])).cloned().unwrap_or_default().into_iter().filter(|x| x / 3 != e / 3).collect()
    }
}
/// n: vertices known to the navigation, nv: vertices of the mesh
fn navigate<M: IsSearchableMesh<Point3D, Face3>>(s: &M, n: usize, nv: usize, faces: &[F]) -> R {
    let t = Table::new(n, faces);
    let ne = faces.len() * 3;
    ensure!(s.num_faces() == faces.len() && s.num_vertices() == nv && s.num_edges() == ne, "counts {} {} {}", s.num_faces(), s.num_vertices(), s.num_edges());
    let tail = |e: usize| faces[e / 3][e % 3];
    let head = |e: usize| faces[e / 3][(e % 3 + 1) % 3];
    let twin = |e: usize| t.twin(e);
    for (i, f) in faces.iter().enumerate() {
        let (a, b, c) = match s.edges_of_face(FId(i)) {
            Some(x) => x,
            None => return Err(format!("face {} has no edges", i)),
        };
        ensure!(s.edge_next(a) == Some(b) && s.edge_next(b) == Some(c) && s.edge_next(c) == Some(a), "next is not cyclic in face {}", i);
        ensure!(s.edge_prev(b) == Some(a) && s.edge_prev(c) == Some(b) && s.edge_prev(a) == Some(c), "prev is not cyclic in face {}", i);
        for (k, e) in [a, b, c].iter().enumerate() {
            ensure!(s.edge_face(*e) == Some(FId(i)), "face of edge {:?} of face {}", e, i);
            ensure!(s.edge_tail(*e) == Some(VId(f[k])), "tail of edge {:?}: {:?} expected {}", e, s.edge_tail(*e), f[k]);
            ensure!(s.edge_head(*e) == Some(VId(f[(k + 1) % 3])), "head of edge {:?}", e);
        }
        ensure!((a.0, b.0, c.0) == (3 * i, 3 * i + 1, 3 * i + 2), "edge ids of face {}: {:?} {:?} {:?}", i, a, b, c);
    }
    for e in 0..ne {
        let exp = twin(e);
        let got = s.edge_twin(EId(e)).map(|x| x.0);
        match got {
            None => ensure!(exp.is_empty(), "edge {} ({}->{}) has no twin, expected {:?}", e, tail(e), head(e), exp),
            Some(t) => {
                ensure!(exp == vec![t], "twin of edge {} ({}->{}) is {} ({}->{}), expected {:?}", e, tail(e), head(e), t, tail(t), head(t), exp);
                ensure!(s.edge_twin(EId(t)) == Some(EId(e)), "twin of the twin of {} is {:?}", e, s.edge_twin(EId(t)));
            }
        }
    }
    let mut cache = vec![EId(77)];
    for v in 0..n {
        let (orig, end, of) = (t.orig[v].clone(), t.end[v].clone(), t.of[v].clone());
        let mut r = vec![];
        ensure!(s.edges_originating_from_vertex(VId(v), &mut r).is_ok(), "originating of vertex {} failed", v);
        ensure!(ids(&r) == orig, "originating at {}: {:?} expected {:?}", v, r, orig);
        let mut r = vec![];
        ensure!(s.edges_ending_at_vertex(VId(v), &mut cache, &mut r).is_ok(), "ending at vertex {} failed", v);
        ensure!(ids(&r) == end, "ending at {}: {:?} expected {:?}", v, r, end);
        let mut r = vec![];
        ensure!(s.edges_of_vertex(VId(v), &mut cache, &mut r).is_ok(), "edges of vertex {} failed", v);
        let all = sorted(orig.as_slice().iter().chain(end.as_slice().iter()).cloned().collect());
        ensure!(ids(&r) == all, "edges of {}: {:?} expected {:?}", v, r, all);
        let mut r = vec![];
        ensure!(s.faces_of_vertex(VId(v), &mut cache, &mut r).is_ok(), "faces of vertex {} failed", v);
        ensure!(fids(&r) == of, "faces of {}: {:?} expected {:?}", v, r, of);
    }
    for f in 0..faces.len() {
        let exp: Vec<usize> = sorted((0..3).flat_map(|k| twin(3 * f + k)).map(|e| e / 3).collect());
        let mut r = vec![];
        ensure!(s.face_edge_neighbours(FId(f), &mut r).is_ok(), "face_edge_neighbours {} failed", f);
        ensure!(fids(&r) == exp, "edge neighbours of {}: {:?} expected {:?}", f, r, exp);
        let mut exp: Vec<usize> = sorted((0..3).flat_map(|k| t.of[faces[f][k]].clone()).filter(|g| *g != f).collect());
        exp.dedup();
        let mut r = vec![];
        ensure!(s.face_vertex_neighbours(FId(f), &mut cache, &mut r).is_ok(), "face_vertex_neighbours {} failed", f);
        let got: Vec<usize> = fids(&r).into_iter().filter(|g| *g != f).collect();
        ensure!(got == exp, "vertex neighbours of {}: {:?} expected {:?}", f, r, exp);
    }
    // unknown ids
    for x in 0..3usize {
        for add in [0usize, 1000, 1 << 16, 1 << 32, 1 << 63, usize::MAX / 3 - 2, usize::MAX - 10] {
            let at = |n: usize| if add.count_ones() == 1 { add + x } else { (n + x).saturating_add(add) };
            let (e, f, v) = (EId(at(ne).max(ne)), FId(at(faces.len()).max(faces.len())), VId(at(nv).max(nv)));
            ensure!(
                s.edge_tail(e).is_none() && s.edge_head(e).is_none() && s.edge_next(e).is_none() && s.edge_prev(e).is_none() && s.edge_twin(e).is_none() && s.edge_face(e).is_none(),
                "unknown edge {:?} resolves", e
            );
            ensure!(s.edges_of_face(f).is_none(), "unknown face {:?} resolves", f);
            let (mut re, mut rf) = (vec![], vec![]);
            ensure!(s.face_edge_neighbours(f, &mut rf).is_err() && s.face_vertex_neighbours(f, &mut cache, &mut rf).is_err() && s.faces_of_vertex(v, &mut cache, &mut rf).is_err(), "unknown id accepted {:?} {:?}", f, v);
            ensure!(
                s.edges_originating_from_vertex(v, &mut re).is_err() && s.edges_ending_at_vertex(v, &mut cache, &mut re).is_err() && s.edges_of_vertex(v, &mut cache, &mut re).is_err(),
                "unknown vertex {:?} accepted", v
            );
            ensure!(re.is_empty() && rf.is_empty(), "results for unknown ids");
        }
    }
    Ok(())
}
/// vertices are edited through the searchable mesh: every sequence of edits up to a length
fn edited<IC: IsIndexContainer + Clone + 'static>(c: &mut Ctx, depth: usize) {
    let meshes: Vec<(usize, Vec<F>)> = vec![
        (0, vec![]),
        (2, vec![]),
        (3, vec![[0, 1, 2]]),
        (4, vec![[2, 1, 0]]),
        (4, vec![[0, 1, 2], [3, 2, 1]]),
        (4, vec![[0, 1, 2], [0, 2, 3], [0, 3, 1], [1, 3, 2]]),
        (5, vec![[0, 1, 2], [2, 3, 4]]),
    ];
    type SM<IC> = SearchableMesh<Mesh3D<Point3D, PointCloud3D<Point3D>, IC>, Point3D, IC>;
    let pos = |i: usize| Point3D::new(i as f64, (i * i) as f64, (i * 7 % 5) as f64);
    for (n, faces) in meshes {
        let mut m = Mesh3D::<Point3D, PointCloud3D<Point3D>, IC>::default();
        for i in 0..n {
            m.add_vertex(pos(i));
        }
        for f in faces.as_slice() {
            let _ = m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2]));
        }
        let init = (SM::<IC>::new(m), (0..n).map(pos).collect::<Vec<_>>());
        #[derive(Clone, Debug)]
        enum A {
            Add(f64),
            Change(usize, f64),
            Reserve(usize),
            Apart,
        }
        bfs(
            c,
            vec![(format!("{} {:?}", n, faces), init)],
            depth,
            |s| {
                let n = s.1.as_slice().iter().count();
                let mut a = vec![A::Add(-1.0), A::Add(0.0), A::Reserve(0), A::Reserve(100), A::Apart];
                for i in [0, 1, 2, 3, n.wrapping_sub(1), n, n + 1, n + 2, usize::MAX, 1 << 32, (1 << 32) + 1] {
                    a.push(A::Change(i, 7.5));
                    a.push(A::Change(i, -0.0));
                }
                a
            },
            |s, a| {
                match a {
                    A::Add(x) => {
                        let p = Point3D::new(*x, 1.0, 2.0);
                        let id = s.0.add_vertex(p.clone());
                        ensure!(id == VId(s.1.as_slice().iter().count()), "id {:?}", id);
                        s.1.push(p);
                    }
                    A::Change(i, x) => {
                        let p = Point3D::new(0.5, *x, 2.0);
                        let r = s.0.change_vertex(VId(*i), p.clone());
                        let known = *i < s.1.as_slice().iter().count();
                        ensure!(r.is_ok() == known, "changing vertex {}: {:?}", i, r);
                        if known {
                            s.1[*i] = p;
                        }
                    }
                    A::Reserve(k) => s.0.reserve_vertices(*k),
                    A::Apart => {
                        let (m, he): (_, HalfEdge<IC>) = s.0.clone().into();
                        s.0 = SearchableMesh::from((m, he));
                    }
                }
                let nv = s.1.as_slice().iter().count();
                navigate(&s.0, n, nv, &faces)?;
                for (i, p) in s.1.as_slice().iter().enumerate() {
                    ensure!(s.0.vertex(VId(i)) == Some(p.clone()) && s.0.mesh().vertex(VId(i)) == Some(p.clone()) && s.0.as_ref().vertex(VId(i)) == Some(p.clone()), "vertex {}", i);
                    if i >= n {
                        // a vertex without faces has no edges (or is not known to the navigation)
                        let (mut cache, mut re, mut rf) = (vec![], vec![], vec![]);
                        let _ = (s.0.edges_originating_from_vertex(VId(i), &mut re), s.0.edges_ending_at_vertex(VId(i), &mut cache, &mut re), s.0.edges_of_vertex(VId(i), &mut cache, &mut re), s.0.faces_of_vertex(VId(i), &mut cache, &mut rf));
                        ensure!(re.as_slice().iter().count() == 0 && rf.as_slice().iter().count() == 0, "edges at the new vertex {}", i);
                    }
                }
                for (i, f) in faces.as_slice().iter().enumerate() {
                    ensure!(s.0.face_vertex_ids(FId(i)) == Some(Face3::new(VId(f[0]), VId(f[1]), VId(f[2]))), "face {}", i);
                    ensure!(s.0.face_vertices(FId(i)) == Some([s.1[f[0]].clone(), s.1[f[1]].clone(), s.1[f[2]].clone()]), "vertices of face {}", i);
                }
                let nf = faces.as_slice().iter().count();
                for i in [nf, nf + 1].iter().cloned().chain(far(nf)) {
                    ensure!(s.0.face_vertex_ids(FId(i)).is_none() && s.0.face_vertices(FId(i)).is_none() && s.0.ensure_face_id(FId(i)).is_err(), "face {} resolves", i);
                }
                ensure!(s.0.vertex(VId(nv)).is_none() && far(nv).into_iter().all(|i| s.0.vertex(VId(i)).is_none()), "unknown vertex resolves");
                Ok(())
            },
            |s| s.1.as_slice().iter().map(|p| (p.x.to_bits(), p.y.to_bits(), p.z.to_bits())).collect::<Vec<_>>(),
        );
    }
}
fn all(n: usize, faces: &[F]) -> R {
    verify::<Vec<usize>>(n, faces)?;
    verify::<U32IndexVec>(n, faces)?;
    verify::<DynamicPrecisionIndexVec>(n, faces)
}
/// oriented triangles on n vertices, smallest vertex first
fn tris(n: usize) -> Vec<F> {
    let mut r = vec![];
    for a in 0..n {
        for b in a + 1..n {
            for c in a + 1..n {
                if b != c {
                    r.push([a, b, c])
                }
            }
        }
    }
    r
}
fn edges(f: &F) -> [(usize, usize); 3] {
    [(f[0], f[1]), (f[1], f[2]), (f[2], f[0])]
}
fn compatible(fs: &[F], f: &F) -> bool {
    fs.as_ref().iter().all(|g: &F| edges(g).as_ref().iter().all(|e: &(usize, usize)| !edges(f).contains(e)))
}
/// all consistently wound meshes; ordered: every face order and every rotation of each face
fn enumerate(c: &mut Ctx, n: usize, k: usize, ordered: bool) {
    fn rec(c: &mut Ctx, n: usize, k: usize, ordered: bool, ts: &[F], from: usize, cur: &mut Vec<F>) {
        if c.stopped() {
            return;
        }
        let fs = cur.clone();
        c.state(&(n, &fs));
        c.case(
            || format!("vertices={} faces={:?}", n, fs),
            |c| {
                c.trans(fs.len() * 3 + n);
                all(n, &fs)
            },
        );
        if k == 0 {
            return;
        }
        for i in (if ordered { 0 } else { from })..ts.len() {
            let t = ts[i];
            if !compatible(cur, &t) {
                continue;
            }
            let rots: Vec<usize> = if ordered { vec![0, 1, 2] } else { vec![(i + cur.len()) % 3] };
            for r in rots {
                cur.push([t[r], t[(r + 1) % 3], t[(r + 2) % 3]]);
                rec(c, n, k - 1, ordered, ts, i + 1, cur);
                cur.pop();
            }
        }
    }
    let ts = tris(n);
    rec(c, n, k, ordered, &ts, 0, &mut vec![]);
}

fn main() {
    let mut gs = vec![];
    for n in 0..=5usize {
        gs.push(g(format!("ordered n={}", n), move |c| {
            let k = if n <= 3 { 3 } else if n == 4 { c.q(3, 4) } else { c.q(2, 3) };
            enumerate(c, n, k, true)
        }));
    }
    for n in 4..=7usize {
        gs.push(g(format!("subsets n={}", n), move |c| {
            let k = match n {
                4 => 8,
                5 => c.q(6, 10),
                6 => c.q(4, 5),
                _ => c.q(3, 4),
            };
            enumerate(c, n, k, false)
        }));
    }
    // strips, fans, closed double fans and grids of every size up to the 8 bit width thresholds of edge and vertex ids
    gs.push(g("long", |c| {
        let max = c.q(100usize, 140);
        for k in 1..=max {
            for kind in 0..4 {
                let (n, fs): (usize, Vec<F>) = match kind {
                    0 => (k + 2, (0..k).map(|i| if i % 2 == 0 { [i, i + 1, i + 2] } else { [i + 1, i, i + 2] }).collect()),
                    1 => (k + 2, (0..k).map(|i| [0, i + 1, i + 2]).collect()),
                    2 => {
                        let k = k.max(3);
                        (k + 2, (0..k).flat_map(|i| vec![[k, i, (i + 1) % k], [(i + 1) % k, i, k + 1]]).collect())
                    }
                    _ => {
                        let w = k % 9 + 1;
                        let h = k / 9 + 1;
                        let id = |x: usize, y: usize| y * (w + 1) + x;
                        let mut f = vec![];
                        for y in 0..h {
                            for x in 0..w {
                                f.push([id(x, y), id(x + 1, y), id(x, y + 1)]);
                                f.push([id(x + 1, y), id(x + 1, y + 1), id(x, y + 1)]);
                            }
                        }
                        ((w + 1) * (h + 1), f)
                    }
                };
                c.state(&fs);
                c.case(
                    || format!("kind={} k={}", kind, k),
                    |c| {
                        c.trans(fs.len() * 3 + n);
                        all(n, &fs)
                    },
                );
            }
        }
    }));
    gs.push(g("edited vertices, list", |c| edited::<Vec<usize>>(c, c.q(3, 5))));
    gs.push(g("edited vertices, growing", |c| edited::<DynamicPrecisionIndexVec>(c, c.q(3, 4))));
    gs.push(g("edited vertices, fixed", |c| edited::<U32IndexVec>(c, c.q(3, 4))));
    // meshes with ids and edges of every width, vertices far apart
    for n in [120usize, 254, 255, 256, 257, 258, 300, 1025, 4097, 21_845, 21_847, 65_535, 65_536, 65_538] {
        gs.extend(parts(format!("large {}", n), if n > 1000 { 8 } else { 1 }, move |c| {
            if n > 30_000 && n != 65_538 && !c.thorough() {
                return;
            }
            let side = (2..).find(|s| s * s > n).unwrap_or(2) - 1;
            let id = |x: usize, y: usize| y * side + x;
            let grid: Vec<F> = (0..side - 1).flat_map(|y| (0..side - 1).flat_map(move |x| vec![[id(x, y), id(x + 1, y), id(x, y + 1)], [id(x + 1, y), id(x + 1, y + 1), id(x, y + 1)]])).collect();
            let strip: Vec<F> = (2..n).map(|i| if i % 2 == 0 { [i - 2, i - 1, i] } else { [i - 1, i - 2, i] }).collect();
            let mut kinds: Vec<(&str, Vec<F>)> = vec![("strip", strip.clone()), ("grid", grid), ("strip from its end", strip.as_slice().iter().rev().map(|f| [n - 1 - f[1], n - 1 - f[0], n - 1 - f[2]]).collect())];
            // numbers of neighbouring vertices lie far apart
            let far = |i: usize| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 };
            kinds.push(("strip over far vertices", strip.as_slice().iter().map(|f| [far(f[0]), far(f[1]), far(f[2])]).collect()));
            kinds.push(("single faces", (0..n / 3).map(|i| [i, n - 1 - i, n / 3 + i]).filter(|f| f[0] != f[1] && f[1] != f[2] && f[2] != f[0]).take_while(|f| f[2] < f[1] && f[0] < n / 3 && f[1] > 2 * n / 3).collect()));
            if n <= 4097 {
                kinds.push(("fan", (2..n).map(|i| [0, i - 1, i]).collect()));
                kinds.push(("fan around the last", (1..n - 1).map(|i| [n - 1, i - 1, i]).collect()));
            }
            for (name, fs) in kinds {
                c.state(&(n, name));
                c.case(
                    || format!("{} over {} vertices", name, n),
                    |c| {
                        c.trans(fs.as_slice().iter().count() * 3 + n);
                        all(n, &fs)
                    },
                );
            }
        }));
    }
    mc::main(
        Spec {
            prop: "C06",
            level: "model_checking",
            rule: "every consistently wound edge-manifold triangle mesh over few vertices (isolated vertices, borders, closed surfaces, pinched vertices), every face order and rotation for the smallest, and size sweeps; navigation on the real structure against the face list; states = distinct meshes, transitions = edges and vertices navigated",
            assumptions: &["every directed edge is used by at most one face (the documented manifold precondition)"],
        },
        gs,
    )
}
