//! C05: mesh edit histories against a model of vertex and face lists.
use mc::*;
use rust_3d::*;
use std::collections::VecDeque;

#[derive(Clone, Debug)]
enum Op {
    AddVertex(usize),
    AddFace(usize, usize, usize),
    Connect(usize, usize, usize),
    Change(usize, usize),
    Reserve,
}
type P3 = (u64, u64, u64);
#[derive(Clone, Default, Hash, PartialEq, Eq, Debug)]
struct Model {
    v: Vec<P3>,
    f: Vec<[usize; 3]>,
}
fn pt(i: usize) -> Point3D {
    let v = [Point3D::new(0.5, -1.25, 3.0), Point3D::new(-0.0, 2.0, 1e9), Point3D::new(0.5, -1.25, 3.5)];
    if i < 3 {
        v[i].clone()
    } else {
        Point3D::new(i as f64, 0.25 * i as f64, -(i as f64))
    }
}
fn k(p: &Point3D) -> P3 {
    (p.x.to_bits(), p.y.to_bits(), p.z.to_bits())
}
fn check<M: IsMesh<Point3D, Face3>>(m: &M, r: &Model) -> R {
    ensure!(m.num_vertices() == r.v.len(), "{} vertices, expected {}", m.num_vertices(), r.v.len());
    ensure!(m.num_faces() == r.f.len(), "{} faces, expected {}", m.num_faces(), r.f.len());
    for (i, v) in r.v.iter().enumerate() {
        let got = m.vertex(VId(i)).ok_or_else(|| format!("vertex {} missing", i))?;
        ensure!(k(&got) == *v, "vertex {} is {:?}", i, got);
    }
    for (i, f) in r.f.iter().enumerate() {
        let got = m.face_vertex_ids(FId(i)).ok_or_else(|| format!("face {} missing", i))?;
        ensure!([got.a.0, got.b.0, got.c.0] == *f, "face {} is {:?}, expected {:?}", i, got, f);
        let vs = m.face_vertices(FId(i)).ok_or_else(|| format!("vertices of face {} missing", i))?;
        for j in 0..3 {
            ensure!(k(&vs[j]) == r.v[f[j]], "vertex {} of face {} is {:?}", j, i, vs[j]);
        }
    }
    unknown(m, r)
}
fn unknown<M: IsMesh<Point3D, Face3>>(m: &M, r: &Model) -> R {
    for id in far(0).into_iter().chain([r.f.len(), r.f.len() + 1, r.v.len(), r.v.len() + 1]) {
        if id >= r.v.len() {
            ensure!(m.vertex(VId(id)).is_none(), "unknown vertex {} exists", id);
        }
        if id >= r.f.len() {
            ensure!(m.face_vertex_ids(FId(id)).is_none(), "unknown face {} exists: {:?}", id, m.face_vertex_ids(FId(id)));
            ensure!(m.face_vertices(FId(id)).is_none(), "unknown face {} has vertices", id);
        }
    }
    Ok(())
}
fn step<ID, IC>(m: &mut Mesh3D<Point3D, ID, IC>, r: &mut Model, op: &Op) -> R
where
    ID: IsDataContainer<Point3D>,
    IC: IsIndexContainer,
{
    match op {
        Op::AddVertex(p) => {
            let id = m.add_vertex(pt(*p));
            ensure!(id.0 == r.v.len(), "new vertex has id {}, expected {}", id.0, r.v.len());
            r.v.push(k(&pt(*p)));
        }
        Op::AddFace(a, b, c) => {
            let id = m.add_face(pt(*a), pt(*b), pt(*c));
            ensure!(id.0 == r.f.len(), "new face has id {}, expected {}", id.0, r.f.len());
            let n = r.v.len();
            for p in [a, b, c] {
                r.v.push(k(&pt(*p)));
            }
            r.f.push([n, n + 1, n + 2]);
        }
        Op::Connect(a, b, c) => {
            let ok = *a < r.v.len() && *b < r.v.len() && *c < r.v.len() && a != b && b != c && a != c;
            match m.try_add_connection(VId(*a), VId(*b), VId(*c)) {
                Ok(id) => {
                    ensure!(ok, "face over {} {} {} accepted", a, b, c);
                    ensure!(id.0 == r.f.len(), "new face has id {}, expected {}", id.0, r.f.len());
                    r.f.push([*a, *b, *c]);
                }
                Err(e) => ensure!(!ok, "face over {} {} {} rejected: {:?}", a, b, c, e),
            }
        }
        Op::Change(i, p) => match m.change_vertex(VId(*i), pt(*p)) {
            Ok(()) => {
                ensure!(*i < r.v.len(), "changed unknown vertex {}", i);
                r.v[*i] = k(&pt(*p));
            }
            Err(e) => ensure!(*i >= r.v.len(), "changing vertex {} rejected: {:?}", i, e),
        },
        Op::Reserve => {
            m.reserve_vertices(3);
            m.reserve_faces(2);
        }
    }
    check(m, r)
}
fn actions(r: &Model, full: bool) -> Vec<Op> {
    let n = r.v.len();
    let mut v = vec![Op::AddVertex(0), Op::AddVertex(1), Op::AddFace(0, 1, 2), Op::Reserve];
    if full {
        v.push(Op::AddFace(2, 2, 2));
    }
    let mut ids: Vec<usize> = (0..n.min(3)).collect();
    if n > 3 {
        ids.push(n - 1);
    }
    ids.push(n);
    ids.push(usize::MAX);
    if full {
        ids.push((1 << 32) + 1);
    }
    for &a in &ids {
        for &b in &ids {
            for &c in &ids {
                // all combinations of the first ids, boundary ids in every position
                if full || [a, b, c].iter().any(|x| *x >= n) || a + b + c < 6 {
                    v.push(Op::Connect(a, b, c));
                }
            }
        }
        v.push(Op::Change(a, 2));
    }
    v
}
fn search<ID, IC>(c: &mut Ctx, depth: usize, full: bool)
where
    ID: IsDataContainer<Point3D> + Clone + Default,
    IC: IsIndexContainer,
{
    bfs(
        c,
        vec![("new:".into(), (Mesh3D::<Point3D, ID, IC>::default(), Model::default()))],
        depth,
        |(_, r)| actions(r, full),
        |(m, r), op| step(m, r, op),
        |(_, r)| r.clone(),
    );
}
fn long<ID, IC>(c: &mut Ctx, n: usize)
where
    ID: IsDataContainer<Point3D> + Clone + Default,
    IC: IsIndexContainer,
{
    c.case(
        || format!("strip of {} vertices", n),
        |c| {
            let mut m = Mesh3D::<Point3D, ID, IC>::default();
            let mut r = Model::default();
            for i in 0..n {
                m.add_vertex(pt(i + 3));
                r.v.push(k(&pt(i + 3)));
                if i >= 2 {
                    let id = m.try_add_connection(VId(i - 2), VId(i), VId(i - 1)).map_err(|e| format!("{:?}", e))?;
                    ensure!(id.0 == r.f.len(), "face id");
                    r.f.push([i - 2, i, i - 1]);
                    if i % 100 == 0 {
                        // face back to the start: small ids after large ones
                        m.try_add_connection(VId(0), VId(i), VId(1)).map_err(|e| format!("{:?}", e))?;
                        r.f.push([0, i, 1]);
                    }
                }
                c.trans(1);
                if i < 300 || i % 4096 == 0 || i > n - 2 || (65533..65540).contains(&i) {
                    check(&m, &r)?;
                }
            }
            Ok(())
        },
    );
}
/// every kind of edit at every interesting place of meshes of every size class
fn sized<ID, IC>(c: &mut Ctx)
where
    ID: IsDataContainer<Point3D> + Clone + Default,
    IC: IsIndexContainer,
{
    for n in sizes(false) {
        if c.stopped() {
            return;
        }
        for start in 0..4 {
            c.case(
                || format!("{} vertices, history {}", n, start),
                |c| {
                    let mut m = Mesh3D::<Point3D, ID, IC>::default();
                    let mut r = Model::default();
                    if start == 1 {
                        m.reserve_vertices(n);
                        m.reserve_faces(n);
                    }
                    for i in 0..n {
                        if start == 2 && i % 3 == 0 {
                            m.add_face(pt(i), pt(i + 1), pt(i + 2));
                            let l = r.v.len();
                            r.v.extend([k(&pt(i)), k(&pt(i + 1)), k(&pt(i + 2))]);
                            r.f.push([l, l + 1, l + 2]);
                        } else if start != 2 {
                            m.add_vertex(pt(i));
                            r.v.push(k(&pt(i)));
                        }
                    }
                    check(&m, &r)?;
                    let n = r.v.len();
                    let ids = [0, 1, n / 2, n - 2, n - 1, n, n + 1, 255, 256, 257, usize::MAX, 1 << 16, (1 << 32) + 2, (1 << 63) + 1];
                    for (i, a) in ids.iter().enumerate() {
                        for b in &ids {
                            // the third id in every relation to the others
                            for d in [ids[(i + 1) % 5], ids[(i + 3) % ids.len()], *b, *a] {
                                c.trans(1);
                                let f = if start == 3 { [d, *b, *a] } else { [*a, *b, d] };
                                let ok = f.iter().all(|x| *x < n) && f[0] != f[1] && f[1] != f[2] && f[0] != f[2];
                                match m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])) {
                                    Ok(id) => {
                                        ensure!(ok, "face over {:?} accepted", f);
                                        ensure!(id.0 == r.f.len(), "new face has id {}, expected {}", id.0, r.f.len());
                                        r.f.push(f);
                                    }
                                    Err(e) => ensure!(!ok, "face over {:?} rejected: {:?}", f, e),
                                }
                            }
                        }
                        check(&m, &r)?;
                    }
                    for (j, a) in ids.iter().enumerate() {
                        step(&mut m, &mut r, &Op::Change(*a, j + 3))?;
                    }
                    step(&mut m, &mut r, &Op::AddFace(2, 1, 0))?;
                    step(&mut m, &mut r, &Op::Change(n + 1, 7))?;
                    step(&mut m, &mut r, &Op::Connect(n + 1, 0, n + 2))?;
                    c.state(&(n, start));
                    Ok(())
                },
            );
        }
    }
}
fn groups<ID, IC>(name: &str, gs: &mut Vec<Group>)
where
    ID: IsDataContainer<Point3D> + Clone + Default + 'static,
    IC: IsIndexContainer + 'static,
{
    gs.push(g(format!("{}-full", name), |c| {
        let d = c.q(4, 5);
        search::<ID, IC>(c, d, false)
    }));
    gs.push(g(format!("{}-wide", name), |c| search::<ID, IC>(c, c.q(3, 4), true)));
    gs.push(g(format!("{}-sized", name), |c| sized::<ID, IC>(c)));
    gs.push(g(format!("{}-long", name), |c| {
        long::<ID, IC>(c, 300);
        if !name_is_f32::<ID>() {
            long::<ID, IC>(c, 66000)
        }
    }));
}
fn name_is_f32<ID>() -> bool {
    std::any::type_name::<ID>().contains("f32")
}
fn main() {
    let mut gs = vec![];
    groups::<PointCloud3D<Point3D>, Vec<usize>>("cloud/vec", &mut gs);
    groups::<PointCloud3D<Point3D>, DynamicPrecisionIndexVec>("cloud/growing", &mut gs);
    groups::<PointCloud3D<Point3D>, U32IndexVec>("cloud/u32", &mut gs);
    groups::<Vec<Point3D>, DynamicPrecisionIndexVec>("vec/growing", &mut gs);
    groups::<VecDeque<Point3D>, U32IndexVec>("deque/u32", &mut gs);
    groups::<PointCloud3Df32<Point3D>, DynamicPrecisionIndexVec>("f32/growing", &mut gs);
    groups::<PointCloud3Df32<Point3D>, Vec<usize>>("f32/vec", &mut gs);
    gs.push(g("parts", |c| {
        // building from and decomposing into parts keeps everything
        for n in 0..=4usize {
            tuples(4, n, |t| {
                let pts: Vec<Point3D> = t.iter().map(|i| pt(*i)).collect();
                c.case(
                    || format!("parts {:?}", t),
                    |c| {
                        let topo: Vec<usize> = if n >= 3 { vec![0, 1, 2, n - 1, 0, 1] } else { vec![] };
                        let m: Mesh3D<Point3D, Vec<Point3D>, Vec<usize>> = Mesh3D::from((pts.clone(), topo.clone()));
                        let r = Model { v: pts.iter().map(k).collect(), f: topo.chunks(3).map(|f| [f[0], f[1], f[2]]).collect() };
                        check(&m, &r)?;
                        c.state(&r);
                        let (p2, t2): (Vec<Point3D>, Vec<usize>) = m.into();
                        ensure!(p2.iter().map(k).collect::<Vec<_>>() == r.v && t2 == topo, "parts differ");
                        Ok(())
                    },
                );
                !c.stopped()
            });
        }
    }));
    mc::main(
        Spec {
            prop: "C05",
            level: "model_checking",
            rule: "breadth-first search over all edit sequences (add vertex/face, connect and change with valid, boundary and huge ids) on the real mesh for every storage combination, every lookup compared after every step; states = distinct (vertices, faces)",
            assumptions: &["coordinates representable in single precision for the single-precision storage", "fixed vertex alphabet of three positions"],
        },
        gs,
    )
}
