//! C44: loading adds to what the target already holds.
use mc::io::*;
use mc::*;
use rust_3d::*;
use std::collections::VecDeque;
use std::io::Cursor;
use std::rc::Rc;

/// The targets of all loads of one history
#[derive(Clone)]
struct T<IP, EM> {
    p2: Vec<Point2D>,
    ip: IP,
    m: EM,
    nn: Vec<Point3D>,
}
/// What the targets hold
#[derive(Clone, Default, PartialEq, Debug, Hash, Eq)]
struct Held {
    p2: Vec<B3>,
    ip: Vec<B3>,
    mesh: Vec<B3>,
    faces: Vec<[usize; 3]>,
    nn: Vec<B3>,
}
trait Points: IsPushable<Point3D> + Default + Clone {
    fn all(&self) -> Vec<B3>;
}
impl Points for Vec<Point3D> {
    fn all(&self) -> Vec<B3> {
        self.as_slice().iter().map(pb).collect()
    }
}
impl Points for VecDeque<Point3D> {
    fn all(&self) -> Vec<B3> {
        self.iter().map(pb).collect()
    }
}
impl Points for PointCloud3D<Point3D> {
    fn all(&self) -> Vec<B3> {
        self.data.as_slice().iter().map(pb).collect()
    }
}
trait Mesh: IsFaceEditableMesh<Point3D, Face3> + IsVertexEditableMesh<Point3D, Face3> + Default + Clone {}
impl<X: IsFaceEditableMesh<Point3D, Face3> + IsVertexEditableMesh<Point3D, Face3> + Default + Clone> Mesh for X {}
type M1 = M;
type M2 = Mesh3D<Point3D, Vec<Point3D>, DynamicPrecisionIndexVec>;
type M3 = Mesh3D<Point3D, PointCloud3D<Point3D>, U32IndexVec>;

impl<IP: Points, EM: Mesh> T<IP, EM> {
    fn new() -> Self {
        T { p2: vec![], ip: Default::default(), m: Default::default(), nn: vec![] }
    }
    fn held(&self) -> Res<Held> {
        let mut h = Held { p2: self.p2.as_slice().iter().map(|p| b3([p.x, p.y, 0.0])).collect(), ip: self.ip.all(), nn: self.nn.as_slice().iter().map(pb).collect(), ..Default::default() };
        for i in 0..self.m.num_vertices() {
            h.mesh.push(pb(&self.m.vertex(VId(i)).ok_or(format!("vertex {} missing", i))?));
        }
        for i in 0..self.m.num_faces() {
            let f = self.m.face_vertex_ids(FId(i)).ok_or(format!("face {} missing", i))?;
            h.faces.push([f.a.0, f.b.0, f.c.0]);
        }
        Ok(h)
    }
}
/// the first n elements of what a complete file contains, the last one possibly read from a shortened number
fn is_start_cut<X: PartialEq>(part: &[X], all: &[X]) -> bool {
    let n = part.iter().count();
    n == 0 || (n <= all.iter().count() && is_start(&part[..n - 1], all))
}
/// the first n elements of what a complete file contains
fn is_start<X: PartialEq>(part: &[X], all: &[X]) -> bool {
    part.iter().count() <= all.iter().count() && part.iter().zip(all).all(|(a, b)| a == b)
}
/// One load into targets that hold `before`; `full` is what the (possibly damaged) file contains when complete
fn step<IP: Points, EM: Mesh>(t: &mut T<IP, EM>, before: &Held, k: Kind, data: &[u8], full: Option<&Out>, must: bool) -> Res<Held> {
    let r = load_into(k, Cursor::new(data), &mut t.p2, &mut t.ip, &mut t.m, &mut t.nn);
    let now = t.held()?;
    // nothing held before is touched
    ensure!(is_start(&before.p2, &now.p2) && is_start(&before.ip, &now.ip) && is_start(&before.mesh, &now.mesh) && is_start(&before.faces, &now.faces) && is_start(&before.nn, &now.nn), "earlier contents changed: {:?} -> {:?} ({:?})", before, now, r);
    let n0 = before.mesh.as_slice().iter().count();
    let p2 = &now.p2[before.p2.as_slice().iter().count()..];
    let ip = &now.ip[before.ip.as_slice().iter().count()..];
    let mesh = &now.mesh[n0..];
    let faces = &now.faces[before.faces.as_slice().iter().count()..];
    let nn = &now.nn[before.nn.as_slice().iter().count()..];
    let end = now.mesh.as_slice().iter().count();
    for f in faces {
        ensure!(f.iter().all(|i| *i >= n0 && *i < end), "a loaded face {:?} connects vertices that are not from its file ({}..{}) ({:?})", f, n0, end, r);
    }
    let shifted: Vec<[usize; 3]> = faces.iter().map(|f| [f[0] - n0, f[1] - n0, f[2] - n0]).collect();
    match (&r, full) {
        (Ok(is_mesh), Some(full)) => {
            let pts: &[B3] = if k == Kind::Xy {
                p2
            } else if *is_mesh {
                mesh
            } else {
                ip
            };
            ensure!(p2.iter().count() + mesh.iter().count() + ip.iter().count() == pts.iter().count(), "loaded into several targets");
            ensure!(pts == full.pts.as_slice(), "loaded points {:?} instead of {:?}", pts, full.pts);
            ensure!(shifted == full.faces, "loaded faces {:?} instead of {:?}", shifted, full.faces);
            ensure!(nn == full.normals.as_slice(), "loaded normals {:?} instead of {:?}", nn, full.normals);
        }
        (Ok(_), None) => return Err("a file rejected by an empty target is accepted by one that holds something".into()),
        (Err(e), Some(full)) => {
            ensure!(!must, "rejected: {}", e);
            for x in [p2, ip, mesh] {
                ensure!(is_start_cut(x, &full.pts), "after an error the points {:?} are not from the file {:?}", x, full.pts);
            }
            ensure!(is_start_cut(&shifted, &full.faces), "after an error the faces {:?} are not from the file {:?}", shifted, full.faces);
            ensure!(is_start_cut(nn, &full.normals), "after an error the normals {:?} are not from the file", nn);
        }
        (Err(_), None) => (),
    }
    Ok(now)
}
#[derive(Clone)]
struct Act {
    name: String,
    k: Kind,
    data: Rc<Vec<u8>>,
    full: Option<Out>,
    must: bool,
}
impl std::fmt::Debug for Act {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "[{} {:?}]", self.name, self.k)
    }
}
/// a tetrahedron without one side in each format, damaged forms of it, and files that refer to vertices they do not have
fn acts(points: bool) -> Vec<Act> {
    let mut v = vec![];
    let v4 = "1 2 3\n4 5 6\n7 8 10\n-1 0 2.5\n";
    let p: Vec<B3> = [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 8.0, 10.0], [-1.0, 0.0, 2.5]].iter().map(|p| b3(*p)).collect();
    let f = vec![[0, 1, 2], [3, 2, 1]];
    let out = |faces: &[[usize; 3]]| Some(Out { pts: p.clone(), faces: faces.to_vec(), normals: vec![] });
    let mut a = |name: &str, k: Kind, text: String, full: Option<Out>, must: bool| v.push(Act { name: name.into(), k, data: Rc::new(text.into_bytes()), full, must });
    let obj = |faces: &str| v4.lines().map(|l| format!("v {}\n", l)).collect::<String>() + faces;
    let off = |faces: &str| format!("OFF\n4 2 0\n{}{}", v4, faces);
    let ply = |faces: &str| format!("ply\nformat ascii 1.0\nelement vertex 4\nproperty double x\nproperty double y\nproperty double z\nelement face 2\nproperty list uchar int vertex_indices\nend_header\n{}{}", v4, faces);
    if points {
        a("points", Kind::ObjPoints, obj("f 1 2 3\n"), out(&[]), true);
        a("points", Kind::OffPoints, off("3 0 1 2\n3 3 2 1\n"), out(&[]), true);
        a("points", Kind::PlyPoints, ply("3 0 1 2\n3 3 2 1\n"), out(&[]), true);
        a("points", Kind::Xyz, v4.into(), out(&[]), true);
        a("damaged", Kind::Xyz, format!("{}x y z\n", v4), out(&[]), false);
        a("points", Kind::Xy, v4.into(), Some(Out { pts: p.as_slice().iter().map(|q| b3([f3(q)[0], f3(q)[1], 0.0])).collect(), ..Default::default() }), true);
        a("two blocks", Kind::Pts, "1\n1 2 3\n3\n4 5 6\n7 8 10\n-1 0 2.5\n".into(), out(&[]), true);
        a("cut", Kind::Pts, "1\n1 2 3\n3\n4 5 6\n".into(), out(&[]), false);
        a("block", Kind::Ptx, format!("4\n1\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n{}", v4), out(&[]), true);
        a("moves", Kind::Gcode, "G1 X1 Y2 Z3\nG91\nG1 X3 Y3 Z3\nG90\nG2 X7 Y8 Z10\nG3 X-1 Y0 Z2.5\n".into(), out(&[]), true);
        a("empty", Kind::Xyz, "".into(), Some(Out::default()), true);
        let t = |x: &str| format!("solid\nfacet normal 0 0 1\nouter loop\nvertex 1 2 3\nvertex 4 5 6\nvertex 7 8 10\nendloop\nendfacet\nfacet normal 1 0 0\nouter loop\nvertex -1 0 2.5\nvertex 7 8 10\nvertex {}\nendloop\nendfacet\nendsolid\n", x);
        let full = Out { pts: [0, 1, 2, 3, 2, 1].iter().map(|i| p[*i]).collect(), faces: vec![], normals: vec![b3([0.0, 0.0, 1.0]), b3([1.0, 0.0, 0.0])] };
        a("triplets", Kind::StlTriplets(Fm::Ascii), t("4 5 6"), Some(full.clone()), true);
        a("damaged", Kind::StlTriplets(Fm::Auto), t("4 5 q"), Some(full), false);
    } else {
        a("mesh", Kind::ObjMesh, obj("f 1 2 3\nf 4 3 2\n"), out(&f), true);
        a("no faces", Kind::ObjMesh, obj(""), out(&[]), true);
        a("unknown vertex", Kind::ObjMesh, obj("f 1 2 3\nf 4 3 5\n"), None, false);
        a("mesh", Kind::OffMesh, off("3 0 1 2\n3 3 2 1\n"), out(&f), true);
        a("unknown vertex", Kind::OffMesh, off("3 0 1 4\n3 3 2 1\n"), None, false);
        a("vertex twice", Kind::OffMesh, off("3 0 1 2\n3 3 2 3\n"), None, false);
        a("cut", Kind::OffMesh, off("3 0 1 2\n"), out(&f), false);
        a("mesh", Kind::PlyMesh, ply("3 0 1 2\n3 3 2 1\n"), out(&f), true);
        a("unknown vertex", Kind::PlyMesh, ply("3 0 1 2\n3 3 2 4\n"), None, false);
        a("mesh", Kind::PlyEither, ply("3 0 1 2\n3 3 2 1\n"), out(&f), true);
        a("huge vertex", Kind::PlyEither, ply("3 0 1 2\n3 3 2 2147483647\n"), None, false);
        a("huge vertex", Kind::OffMesh, off("3 0 1 18446744073709551615\n3 3 2 1\n"), None, false);
        a("huge vertex", Kind::ObjMesh, obj("f 1 2 18446744073709551615\n"), None, false);
        let t = "solid\nfacet normal 0 0 1\nouter loop\nvertex 1 2 3\nvertex 4 5 6\nvertex 7 8 10\nendloop\nendfacet\nfacet normal 1 0 0\nouter loop\nvertex -1 0 2.5\nvertex 7 8 10\nvertex 4 5 6\nendloop\nendfacet\nendsolid\n";
        let normals = vec![b3([0.0, 0.0, 1.0]), b3([1.0, 0.0, 0.0])];
        a("mesh", Kind::StlUnique(Fm::Ascii), t.into(), Some(Out { pts: p.clone(), faces: f.clone(), normals: normals.clone() }), true);
        a("mesh", Kind::StlDuped(Fm::Auto), t.into(), Some(Out { pts: [0, 1, 2, 3, 2, 1].iter().map(|i| p[*i]).collect(), faces: vec![[0, 1, 2], [3, 4, 5]], normals }), true);
    }
    v
}
/// all sequences of loads into the same targets
fn histories<IP: Points, EM: Mesh>(c: &mut Ctx, points: bool, len: usize) {
    let acts = acts(points);
    for n in 1..=len {
        tuples(acts.as_slice().iter().count(), n, |t| {
            c.state(&(points, t));
            c.case(
                || format!("{:?}", t.iter().map(|i| &acts[*i]).collect::<Vec<_>>()),
                |c| {
                    let mut x = T::<IP, EM>::new();
                    let mut h = Held::default();
                    for i in t {
                        let a = &acts[*i];
                        c.trans(1);
                        h = step(&mut x, &h, a.k, &a.data, a.full.as_ref(), a.must)?;
                    }
                    Ok(())
                },
            );
            !c.stopped()
        });
    }
}
fn filled<IP: Points, EM: Mesh>(n: usize) -> T<IP, EM> {
    let mut t = T::<IP, EM>::new();
    for i in 0..n {
        let p = Point3D::new(i as f64, -(i as f64), 0.5);
        t.p2.push(Point2D::new(0.25, i as f64));
        t.ip.push(p.clone());
        t.nn.push(p.clone());
        t.m.add_vertex(p);
        if i > 1 && i % 2 == 0 {
            let _ = t.m.try_add_connection(VId(i), VId(i - 1), VId(0));
        }
    }
    t
}
/// every file of the corpus, complete and cut anywhere, into targets of every size
fn corpus_into<IP: Points, EM: Mesh>(c: &mut Ctx, i: usize, n: usize) {
    let s = &corpus()[i];
    for (k, w) in s.kinds.iter().zip(&s.want) {
        let t0 = filled::<IP, EM>(n);
        let h0 = t0.held().unwrap_or_default();
        let len = s.data.as_slice().iter().count();
        let step_by = if n > 60_000 && !c.thorough() { len + 1 } else if n > 10 { (len / 3).max(1) } else { 1 };
        for cut in (0..=len).rev().step_by(step_by) {
            c.state(&(i, k, n, cut));
            c.case(
                || format!("{} {:?} cut at {} into {} elements", s.name, k, cut, n),
                |c| {
                    c.trans(2);
                    let mut t = t0.clone();
                    let full = cut == len;
                    let h = match load_bytes(*k, &s.data[..cut]) {
                        // a shortened file that is complete in itself
                        Ok(o) => step(&mut t, &h0, *k, &s.data[..cut], Some(&o), true)?,
                        Err(_) => step(&mut t, &h0, *k, &s.data[..cut], Some(w), full)?,
                    };
                    // and once more
                    step(&mut t, &h, *k, &s.data, Some(w), true).map_err(|x| format!("second load: {}", x))?;
                    Ok(())
                },
            );
        }
        if c.stopped() {
            return;
        }
    }
}
fn main() {
    let mut v = vec![
        g("histories of mesh files", |c| histories::<Vec<Point3D>, M1>(c, false, c.q(4, 5))),
        g("histories of mesh files, growing indices", |c| histories::<Vec<Point3D>, M2>(c, false, c.q(4, 4))),
        g("histories of mesh files, fixed indices", |c| histories::<Vec<Point3D>, M3>(c, false, c.q(4, 4))),
        g("histories of point files", |c| histories::<Vec<Point3D>, M1>(c, true, c.q(4, 5))),
        g("histories of point files, deque", |c| histories::<VecDeque<Point3D>, M1>(c, true, c.q(4, 4))),
        g("histories of point files, cloud", |c| histories::<PointCloud3D<Point3D>, M1>(c, true, c.q(4, 4))),
    ];
    for (i, s) in corpus().iter().enumerate() {
        for n in [1usize, 5, 254, 255, 256, 65_534, HUGE] {
            v.push(g(format!("{} into {}", s.name, n), move |c| {
                match n % 3 {
                    0 => corpus_into::<Vec<Point3D>, M1>(c, i, n),
                    1 => corpus_into::<VecDeque<Point3D>, M3>(c, i, n),
                    _ => corpus_into::<PointCloud3D<Point3D>, M2>(c, i, n),
                }
            }));
        }
    }
    mc::main(
        Spec {
            prop: "C44",
            level: "model_checking",
            rule: "a state is a history of loads into the same targets: all sequences of complete, damaged and unresolvable files of every format up to a length for three point containers and three mesh types, and every file of the corpus cut at every position loaded into targets that hold n elements and loaded again; after each load the targets hold what they held before followed by what the file contains",
            assumptions: &["what a rejected file has added before its error is any beginning of its contents"],
        },
        v,
    )
}
