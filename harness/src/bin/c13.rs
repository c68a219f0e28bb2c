//! C13: matrix transformations compose and act like their definition.
use mc::*;
use rust_3d::*;
use std::f64::consts::PI;

// ------------------------------------------------------------------ reference: elementary maps applied one by one
#[derive(Clone, Debug, Copy)]
enum E3 {
    Id,
    T(f64, f64, f64),
    S(f64, f64, f64),
    R(f64, f64, f64),
    A([f64; 3], f64),
}
type V3 = [f64; 3];
fn rot(p: V3, axis: usize, a: f64) -> V3 {
    // right handed rotation around one coordinate axis
    let (i, j) = ((axis + 1) % 3, (axis + 2) % 3);
    let mut r = p;
    r[i] = a.cos() * p[i] - a.sin() * p[j];
    r[j] = a.sin() * p[i] + a.cos() * p[j];
    r
}
fn crs(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dt(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
impl E3 {
    fn apply(&self, p: V3) -> V3 {
        match *self {
            E3::Id => p,
            E3::T(x, y, z) => [p[0] + x, p[1] + y, p[2] + z],
            E3::S(x, y, z) => [p[0] * x, p[1] * y, p[2] * z],
            E3::R(x, y, z) => rot(rot(rot(p, 2, z), 1, y), 0, x),
            E3::A(u, a) => {
                // Rodrigues
                let l = dt(u, u).sqrt();
                let u = [u[0] / l, u[1] / l, u[2] / l];
                let c = crs(u, p);
                let d = dt(u, p) * (1.0 - a.cos());
                let mut r = [0.0; 3];
                for i in 0..3 {
                    r[i] = p[i] * a.cos() + c[i] * a.sin() + u[i] * d;
                }
                r
            }
        }
    }
    fn matrix(&self) -> Matrix4 {
        match *self {
            E3::Id => Matrix4::identity(),
            E3::T(x, y, z) => Matrix4::translation(x, y, z),
            E3::S(x, y, z) => Matrix4::scale(x, y, z),
            E3::R(x, y, z) => Matrix4::rotation(Rad(x), Rad(y), Rad(z)),
            E3::A(u, a) => Matrix4::rotation_axis(&Norm3D::new(Point3D::new(u[0], u[1], u[2])).unwrap(), Rad(a)),
        }
    }
}
#[derive(Clone, Debug, Copy)]
enum E2 {
    Id,
    T(f64, f64),
    S(f64, f64),
    R(f64),
}
type V2 = [f64; 2];
impl E2 {
    fn apply(&self, p: V2) -> V2 {
        match *self {
            E2::Id => p,
            E2::T(x, y) => [p[0] + x, p[1] + y],
            E2::S(x, y) => [p[0] * x, p[1] * y],
            E2::R(a) => [a.cos() * p[0] - a.sin() * p[1], a.sin() * p[0] + a.cos() * p[1]],
        }
    }
    fn matrix(&self) -> Matrix3 {
        match *self {
            E2::Id => Matrix3::identity(),
            E2::T(x, y) => Matrix3::translation(x, y),
            E2::S(x, y) => Matrix3::scale(x, y),
            E2::R(a) => Matrix3::rotation(Rad(a)),
        }
    }
}
fn e3s() -> Vec<E3> {
    let q = PI / 2.0;
    vec![
        E3::Id,
        E3::T(1.0, 0.0, 0.0),
        E3::T(0.0, -2.0, 0.0),
        E3::T(0.0, 0.0, 3.0),
        E3::T(0.5, 1.5, -2.5),
        E3::S(2.0, 1.0, 1.0),
        E3::S(1.0, -3.0, 1.0),
        E3::S(1.0, 1.0, 0.0),
        E3::S(0.5, 2.0, 4.0),
        E3::R(q, 0.0, 0.0),
        E3::R(0.0, q, 0.0),
        E3::R(0.0, 0.0, q),
        E3::R(q, -q, 2.0 * q),
        E3::R(0.3, 0.0, 0.0),
        E3::R(0.0, -0.7, 0.0),
        E3::R(0.0, 0.0, 2.0),
        E3::R(0.3, 1.1, -0.6),
        E3::A([1.0, 0.0, 0.0], q),
        E3::A([0.0, -1.0, 0.0], q),
        E3::A([0.0, 0.0, 2.0], 1.0),
        E3::A([1.0, 2.0, -2.0], 0.8),
        E3::A([1.0, 1.0, 1.0], 4.0 * PI / 3.0),
    ]
}
fn e2s() -> Vec<E2> {
    let q = PI / 2.0;
    vec![
        E2::Id,
        E2::T(1.0, 0.0),
        E2::T(0.0, -2.0),
        E2::T(0.5, 1.5),
        E2::S(2.0, 1.0),
        E2::S(1.0, -3.0),
        E2::S(0.0, 1.0),
        E2::S(0.5, 4.0),
        E2::R(q),
        E2::R(-q),
        E2::R(2.0 * q),
        E2::R(0.3),
        E2::R(-1.1),
    ]
}
const P3: [V3; 6] = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [-2.0, 0.5, 3.0], [7.0, -1.0, 0.25]];
const P2: [V2; 5] = [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [-2.0, 0.5], [7.0, -1.25]];
fn near3(a: &Point3D, b: V3) -> bool {
    close(a.x, b[0], 1e-9) && close(a.y, b[1], 1e-9) && close(a.z, b[2], 1e-9)
}
fn near2(a: &Point2D, b: V2) -> bool {
    close(a.x, b[0], 1e-9) && close(a.y, b[1], 1e-9)
}
fn p3(p: V3) -> Point3D {
    Point3D::new(p[0], p[1], p[2])
}
fn p2(p: V2) -> Point2D {
    Point2D::new(p[0], p[1])
}
fn same4(a: &Matrix4, b: &Matrix4) -> bool {
    (0..16).all(|i| close(a.data[i / 4][i % 4], b.data[i / 4][i % 4], 1e-12))
}
fn same3(a: &Matrix3, b: &Matrix3) -> bool {
    (0..9).all(|i| close(a.data[i / 3][i % 3], b.data[i / 3][i % 3], 1e-12))
}

/// matrix `m` acts on every object like mapping every point with `f`
fn acts3(c: &mut Ctx, m: &Matrix4, f: &dyn Fn(V3) -> V3) -> R {
    for p in P3 {
        c.trans(1);
        let q = p3(p);
        ensure!(near3(&q.multiply_m(m), f(p)), "multiply_m of {:?} is {:?} expected {:?}", p, q.multiply_m(m), f(p));
        ensure!(q.transformed(m) == q.multiply_m(m), "transformed {:?}", p);
        let mut t = q.clone();
        t.transform(m);
        ensure!(t == q.multiply_m(m), "transform in place {:?}", p);
    }
    Ok(())
}
fn acts2(c: &mut Ctx, m: &Matrix3, f: &dyn Fn(V2) -> V2) -> R {
    for p in P2 {
        c.trans(1);
        let q = p2(p);
        ensure!(near2(&q.multiply_m(m), f(p)), "multiply_m of {:?} is {:?} expected {:?}", p, q.multiply_m(m), f(p));
        ensure!(q.transformed(m) == q.multiply_m(m), "transformed {:?}", p);
        let mut t = q.clone();
        t.transform(m);
        ensure!(t == q.multiply_m(m), "transform in place {:?}", p);
    }
    Ok(())
}
fn collections3(m: &Matrix4, f: &dyn Fn(V3) -> V3) -> R {
    for n in 0..=P3.len() {
        let pts: Vec<Point3D> = P3[..n].iter().map(|p| p3(*p)).collect();
        let ok = |v: &[Point3D]| v.len() == n && v.iter().zip(P3).all(|(a, b)| near3(a, f(b)));
        let pc = PointCloud3D::from(pts.clone());
        ensure!(ok(&pc.transformed(m).data), "cloud transformed {:?}", pc.transformed(m));
        let mut t = pc.clone();
        t.transform(m);
        ensure!(ok(&t.data), "cloud transform {:?}", t);
        let po = Polygon3D::from(pc.clone());
        let pts_of = |p: &Polygon3D<Point3D>| (0..p.num_vertices()).map(|i| p.vertex(VId(i)).unwrap()).collect::<Vec<_>>();
        ensure!(ok(&pts_of(&po.transformed(m))), "polygon transformed");
        let mut t = po.clone();
        t.transform(m);
        ensure!(ok(&pts_of(&t)), "polygon transform");
        if n == 2 {
            let l = LineSegment3D::new(pts[0].clone(), pts[1].clone());
            let t = l.transformed(m);
            ensure!(ok(&[t.start, t.end]), "segment transformed");
            let mut t = l.clone();
            t.transform(m);
            ensure!(ok(&[t.start, t.end]), "segment transform");
        }
        // mesh: vertices move, faces stay
        let mut me = Mesh3D::<Point3D, PointCloud3D<Point3D>, Vec<usize>>::default();
        for p in &pts {
            me.add_vertex(p.clone());
        }
        for i in 2..n {
            me.try_add_connection(VId(i), VId(i - 1), VId(0)).unwrap();
        }
        let ok_mesh = |t: &Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>| -> bool {
            t.num_faces() == me.num_faces()
                && ok(&(0..t.num_vertices()).map(|i| t.vertex(VId(i)).unwrap()).collect::<Vec<_>>())
                && (0..me.num_faces()).all(|i| t.face_vertex_ids(FId(i)).unwrap() == me.face_vertex_ids(FId(i)).unwrap())
        };
        ensure!(ok_mesh(&me.transformed(m)), "mesh transformed");
        let mut t = me.clone();
        t.transform(m);
        ensure!(ok_mesh(&t), "mesh transform");
    }
    Ok(())
}
fn collections2(m: &Matrix3, f: &dyn Fn(V2) -> V2) -> R {
    for n in 0..=P2.len() {
        let pts: Vec<Point2D> = P2[..n].iter().map(|p| p2(*p)).collect();
        let ok = |v: &[Point2D]| v.len() == n && v.iter().zip(P2).all(|(a, b)| near2(a, f(b)));
        let pc = PointCloud2D::from(pts.clone());
        ensure!(ok(&pc.transformed(m).data), "cloud transformed {:?}", pc.transformed(m));
        let mut t = pc.clone();
        t.transform(m);
        ensure!(ok(&t.data), "cloud transform {:?}", t);
        let po = Polygon2D::from(pc.clone());
        let pts_of = |p: &Polygon2D<Point2D>| (0..p.num_vertices()).map(|i| p.vertex(VId(i)).unwrap()).collect::<Vec<_>>();
        ensure!(ok(&pts_of(&po.transformed(m))), "polygon transformed");
        let mut t = po.clone();
        t.transform(m);
        ensure!(ok(&pts_of(&t)), "polygon transform");
        if n == 2 {
            let l = LineSegment2D::new(pts[0].clone(), pts[1].clone());
            let t = l.transformed(m);
            ensure!(ok(&[t.start, t.end]), "segment transformed");
            let mut t = l.clone();
            t.transform(m);
            ensure!(ok(&[t.start, t.end]), "segment transform");
        }
    }
    Ok(())
}
fn products3(c: &mut Ctx, len: usize, first: usize) {
    let es = e3s();
    tuples(es.len(), len - 1, |t| {
        let seq: Vec<E3> = std::iter::once(first).chain(t.iter().cloned()).map(|i| es[i]).collect();
        let f = |p: V3| seq.iter().rev().fold(p, |p, e| e.apply(p));
        c.state(&(first, t.to_vec()));
        c.case(
            || format!("{:?}", seq),
            |c| {
                let ms: Vec<Matrix4> = seq.iter().map(|e| e.matrix()).collect();
                let mut m = ms[0].clone();
                for x in &ms[1..] {
                    m = m * x.clone();
                }
                acts3(c, &m, &f)?;
                // the other product forms and the other association
                let mut a = ms[0].clone();
                let mut b = ms[0].clone();
                for x in &ms[1..] {
                    a = a * x;
                    b = &b * x;
                }
                let mut r = ms[ms.len() - 1].clone();
                for x in ms[..ms.len() - 1].iter().rev() {
                    r = x * &r;
                }
                ensure!(a == m && b == m, "product forms differ");
                ensure!(same4(&r, &m), "association changes the product: {:?} / {:?}", r, m);
                ensure!(&m * &Matrix4::identity() == m && Matrix4::identity() * m.clone() == m, "identity changes the matrix");
                let z = &m * 2.0;
                ensure!(z == m.clone() * 2.0 && (0..16).all(|i| z.data[i / 4][i % 4] == 2.0 * m.data[i / 4][i % 4]), "scalar product {:?}", z);
                if seq.len() <= 2 {
                    collections3(&m, &f)?;
                }
                Ok(())
            },
        )
    });
}
fn products2(c: &mut Ctx, len: usize) {
    let es = e2s();
    tuples(es.len(), len, |t| {
        let seq: Vec<E2> = t.iter().map(|&i| es[i]).collect();
        let f = |p: V2| seq.iter().rev().fold(p, |p, e| e.apply(p));
        c.state(&t.to_vec());
        c.case(
            || format!("{:?}", seq),
            |c| {
                let ms: Vec<Matrix3> = seq.iter().map(|e| e.matrix()).collect();
                let mut m = ms[0].clone();
                for x in &ms[1..] {
                    m = m * x.clone();
                }
                acts2(c, &m, &f)?;
                let mut a = ms[0].clone();
                let mut b = ms[0].clone();
                for x in &ms[1..] {
                    a = a * x;
                    b = &b * x;
                }
                let mut r = ms[ms.len() - 1].clone();
                for x in ms[..ms.len() - 1].iter().rev() {
                    r = x * &r;
                }
                ensure!(a == m && b == m, "product forms differ");
                ensure!(same3(&r, &m), "association changes the product: {:?} / {:?}", r, m);
                ensure!(&m * &Matrix3::identity() == m && Matrix3::identity() * m.clone() == m, "identity changes the matrix");
                let z = &m * 2.0;
                ensure!(z == m.clone() * 2.0 && (0..9).all(|i| z.data[i / 3][i % 3] == 2.0 * m.data[i / 3][i % 3]), "scalar product {:?}", z);
                if seq.len() <= 2 {
                    collections2(&m, &f)?;
                }
                Ok(())
            },
        )
    });
}

// ------------------------------------------------------------------ pipes
#[derive(Clone, Debug)]
enum Op3 {
    Set(usize, E3),
    Unset(usize),
    Look(V3, V3),
    Persp(f64, f64, f64),
}
#[derive(Clone)]
struct S3 {
    pipe: Matrix4Pipe,
    /// stages: scale, rotation, translation, camera translation, look at, perspective
    model: [Option<Matrix4>; 6],
    id: Vec<u8>,
}
fn ops3() -> Vec<Op3> {
    let mut o = vec![
        Op3::Set(0, E3::S(2.0, 3.0, 0.5)),
        Op3::Set(0, E3::S(-1.0, 1.0, 4.0)),
        Op3::Set(1, E3::R(0.3, 1.1, -0.6)),
        Op3::Set(1, E3::A([1.0, 2.0, -2.0], 0.8)),
        Op3::Set(2, E3::T(1.0, -2.0, 3.0)),
        Op3::Set(2, E3::T(0.0, 0.5, 0.0)),
        Op3::Set(3, E3::T(4.0, 5.0, -6.0)),
        Op3::Look([1.0, 2.0, 2.0], [0.0, 1.0, 0.0]),
        Op3::Look([0.0, 0.0, 0.0], [0.0, 1.0, 0.0]),
        Op3::Persp(1.0, 10.0, 1.0),
    ];
    o.extend((0..6).map(Op3::Unset));
    o
}
fn step3(s: &mut S3, k: usize, op: &Op3) -> R {
    match op {
        Op3::Set(i, e) => {
            let mut m = e.matrix();
            match (i, e) {
                (0, E3::S(x, y, z)) => s.pipe.add_scale(*x, *y, *z),
                (1, E3::R(x, y, z)) => s.pipe.add_rotation(Rad(*x), Rad(*y), Rad(*z)),
                (1, E3::A(u, a)) => s.pipe.add_rotation_axis(&Norm3D::new(p3(*u)).unwrap(), Rad(*a)),
                (2, E3::T(x, y, z)) => s.pipe.add_translation(*x, *y, *z),
                (3, E3::T(x, y, z)) => {
                    s.pipe.add_camera_translation(*x, *y, *z);
                    m = Matrix4::translation(-*x, -*y, -*z); // moving the camera moves everything else the other way
                }
                _ => unreachable!(),
            }
            s.model[*i] = Some(m);
            s.id[*i] = k as u8 + 1;
        }
        Op3::Look(t, u) => {
            let up = Norm3D::new(p3(*u)).unwrap();
            let r = s.pipe.add_look_at(&p3(*t), &up);
            let ok = dt(*t, *t) > 0.0;
            ensure!(r.is_ok() == ok, "look at {:?}: {:?}", t, r.is_ok());
            if ok {
                s.model[4] = Some(Matrix4::look_at(&p3(*t), &up).unwrap());
                s.id[4] = k as u8 + 1;
            }
        }
        Op3::Persp(a, b, f) => {
            s.pipe.add_perspective(*a, *b, Rad(*f));
            s.model[5] = Some(Matrix4::perspective(*a, *b, Rad(*f)));
            s.id[5] = k as u8 + 1;
        }
        Op3::Unset(i) => {
            match i {
                0 => s.pipe.remove_scale(),
                1 => s.pipe.remove_rotation(),
                2 => s.pipe.remove_translation(),
                3 => s.pipe.remove_camera_translation(),
                4 => s.pipe.remove_look_at(),
                _ => s.pipe.remove_perspective(),
            }
            s.model[*i] = None;
            s.id[*i] = 0;
        }
    }
    let mut m = Matrix4::identity();
    for x in s.model.iter().flatten() {
        m = x * &m;
    }
    ensure!(same4(&s.pipe.result(), &m), "pipe result {:?} expected {:?}", s.pipe.result(), m);
    Ok(())
}
#[derive(Clone, Debug)]
enum Op2 {
    Set(usize, E2),
    Unset(usize),
}
#[derive(Clone)]
struct S2 {
    pipe: Matrix3Pipe,
    model: [Option<E2>; 3],
    id: Vec<u8>,
}

/// every angle of a fine circle, tiny angles and many turns, around every kind of axis
fn angles(c: &mut Ctx) {
    let mut an: Vec<f64> = (-48..=48).map(|i| i as f64 * PI / 12.0).collect();
    an.extend((1..=12).flat_map(|i| vec![10f64.powi(-i), -(10f64.powi(-i))]));
    an.extend([PI - 1e-7, PI + 1e-7, PI / 2.0 + 1e-9, 100.0, -1000.5, 3.0 * PI, 57.29577951308232, 180.0]);
    let axes: [V3; 14] = [
        [1.0, 0.0, 0.0],
        [-1.0, 0.0, 0.0],
        [0.0, 1.0, 0.0],
        [0.0, -1.0, 0.0],
        [0.0, 0.0, 1.0],
        [0.0, 0.0, -1.0],
        [1.0, 1.0, 0.0],
        [0.0, -1.0, 1.0],
        [1.0, 0.0, 1e-6],
        [1e-9, 1.0, -1e-9],
        [1.0, 1.0, 1.0],
        [-3.0, 2.0, -6.0],
        [0.001, -0.002, 5.0],
        [4.0, -3.0, 12.0],
    ];
    let exact = |a: f64, b: f64| (a - b).abs() <= 4e-14;
    for &a in &an {
        c.case(
            || format!("angle {}", a),
            |c| {
                let mut es: Vec<E3> = axes.iter().map(|u| E3::A(*u, a)).collect();
                es.extend([E3::R(a, 0.0, 0.0), E3::R(0.0, a, 0.0), E3::R(0.0, 0.0, a), E3::R(a, -a, 0.0), E3::R(0.0, a, 2.0 * a), E3::R(a / 2.0, 0.0, a), E3::R(a, a, a)]);
                for e in es {
                    let m = e.matrix();
                    for p in P3.iter().cloned().chain(vec![[1.0, 1.0, 1.0], [-0.5, 0.25, -4.0]]) {
                        c.trans(1);
                        let (q, w) = (p3(p).multiply_m(&m), e.apply(p));
                        ensure!(exact(q.x, w[0]) && exact(q.y, w[1]) && exact(q.z, w[2]), "{:?} turns {:?} to {:?} expected {:?}", e, p, q, w);
                        // the same through a pipe
                        let mut pipe = Matrix4Pipe::default();
                        match e {
                            E3::R(x, y, z) => pipe.add_rotation(Rad(x), Rad(y), Rad(z)),
                            E3::A(u, a) => pipe.add_rotation_axis(&Norm3D::new(p3(u)).unwrap(), Rad(a)),
                            _ => (),
                        }
                        let q = p3(p).multiply_m(&pipe.result());
                        ensure!(exact(q.x, w[0]) && exact(q.y, w[1]) && exact(q.z, w[2]), "pipe: {:?} turns {:?} to {:?} expected {:?}", e, p, q, w);
                    }
                    c.state(&format!("{:?}", e));
                }
                for p in P2 {
                    let e = E2::R(a);
                    let (q, w) = (p2(p).multiply_m(&e.matrix()), e.apply(p));
                    ensure!(exact(q.x, w[0]) && exact(q.y, w[1]), "2D: {:?} turns {:?} to {:?} expected {:?}", e, p, q, w);
                }
                Ok(())
            },
        );
    }
}
/// factors, offsets and points of any magnitude; powers of two leave no rounding
fn magnitudes(c: &mut Ctx) {
    let ex: Vec<i32> = c.q(vec![-300, -100, -60, -30, -10, 0, 10, 30, 60, 100, 300], (-300..=300).step_by(20).collect());
    for &e in &ex {
        for &k in &ex {
            c.case(
                || format!("points * 2^{}, factors * 2^{}", e, k),
                |c| {
                    let (s, f) = (2f64.powi(e), 2f64.powi(k));
                    let eq3 = |a: Point3D, b: V3| a.x == b[0] && a.y == b[1] && a.z == b[2];
                    let eq2 = |a: Point2D, b: V2| a.x == b[0] && a.y == b[1];
                    for p in P3 {
                        c.trans(4);
                        let q = p3([p[0] * s, p[1] * s, p[2] * s]);
                        ensure!(eq3(q.multiply_m(&Matrix4::scale(f, -f, 3.0 * f)), [q.x * f, q.y * -f, q.z * (3.0 * f)]), "scaled {:?}: {:?}", q, q.multiply_m(&Matrix4::scale(f, -f, 3.0 * f)));
                        ensure!(eq3(q.multiply_m(&Matrix4::translation(f, -f, 3.0 * f)), [q.x + f, q.y - f, q.z + 3.0 * f]), "translated {:?}: {:?}", q, q.multiply_m(&Matrix4::translation(f, -f, 3.0 * f)));
                        ensure!(eq3(q.multiply_m(&Matrix4::identity()), [q.x, q.y, q.z]), "identity changes {:?}", q);
                        let m = Matrix4::translation(s, 2.0 * s, -s) * Matrix4::scale(f, f, f);
                        ensure!(eq3(p3(p).multiply_m(&m), [p[0] * f + s, p[1] * f + 2.0 * s, p[2] * f - s]), "scaled and translated {:?}", p);
                        let mut pipe = Matrix4Pipe::default();
                        pipe.add_scale(f, f, f);
                        pipe.add_translation(s, 2.0 * s, -s);
                        ensure!(eq3(p3(p).multiply_m(&pipe.result()), [p[0] * f + s, p[1] * f + 2.0 * s, p[2] * f - s]), "pipe: scaled and translated {:?}", p);
                    }
                    for p in P2 {
                        let q = p2([p[0] * s, p[1] * s]);
                        ensure!(eq2(q.multiply_m(&Matrix3::scale(f, -3.0 * f)), [q.x * f, q.y * (-3.0 * f)]), "2D: scaled {:?}", q);
                        ensure!(eq2(q.multiply_m(&Matrix3::translation(f, -3.0 * f)), [q.x + f, q.y - 3.0 * f]), "2D: translated {:?}", q);
                        let mut pipe = Matrix3Pipe::default();
                        pipe.add_scale(f, f);
                        pipe.add_translation(s, -s);
                        ensure!(eq2(p2(p).multiply_m(&pipe.result()), [p[0] * f + s, p[1] * f - s]), "2D pipe: scaled and translated {:?}", p);
                    }
                    c.state(&(e, k));
                    Ok(())
                },
            );
        }
    }
}
/// matrices that differ in a single entry, by amounts of any size, from ones that change nothing or little
fn deviations(c: &mut Ctx, step: usize) {
    type M = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
    let unit = |j: usize| -> V3 {
        let mut p = [0.0; 3];
        if j < 3 {
            p[j] = 1.0
        }
        p
    };
    let bases: [E3; 4] = [E3::Id, E3::T(0.0, 0.0, -8.0), E3::S(1.0, 1.0, 2.0), E3::S(-1.0, 1.0, 1.0)];
    for k in (0..=100i32).step_by(step) {
        for sign in [1.0f64, -1.0] {
            for (b, base) in bases.iter().enumerate() {
                for (i, j) in (0..3).flat_map(|i| (0..4).map(move |j| (i, j))) {
                    c.case(
                        || format!("{:?} with entry {} {} changed by {} * 2^-{}", base, i, j, sign, k),
                        |c| {
                            c.state(&(k, sign.to_bits(), b, i, j));
                            let d = sign * 2f64.powi(-k);
                            let mut m = base.matrix();
                            m.data[i][j] += d;
                            let us: Vec<usize> = vec![j, 3, (j + 1) % 4];
                            // one coordinate at most is set, nothing is rounded away but in the entry itself
                            let want: Vec<V3> = us.as_slice().iter().map(|u| {
                                let p = unit(*u);
                                let mut r = [0.0; 3];
                                for x in 0..3 {
                                    r[x] = m.data[x][0] * p[0] + m.data[x][1] * p[1] + m.data[x][2] * p[2] + m.data[x][3];
                                }
                                r
                            }).collect();
                            let ps: Vec<Point3D> = us.as_slice().iter().map(|u| p3(unit(*u))).collect();
                            let ok = |v: &[Point3D]| v.len() == 3 && v.iter().zip(want.as_slice()).all(|(a, w)| a.x == w[0] && a.y == w[1] && a.z == w[2]);
                            c.trans(6);
                            for how in 0..2 {
                                let pc = PointCloud3D::from(ps.clone());
                                let po = Polygon3D::from(pc.clone());
                                let ls = LineSegment3D::new(ps[0].clone(), ps[1].clone());
                                let mut me = M::default();
                                ps.as_slice().iter().for_each(|p| {
                                    me.add_vertex(p.clone());
                                });
                                me.try_add_connection(VId(0), VId(1), VId(2)).unwrap();
                                macro_rules! go {
                                    ($x:expr) => {{
                                        let mut x = $x;
                                        if how == 0 {
                                            x.transform(&m);
                                            x
                                        } else {
                                            x.transformed(&m)
                                        }
                                    }};
                                }
                                let one: Vec<Point3D> = ps.as_slice().iter().map(|p| go!(p.clone())).collect();
                                ensure!(ok(&one), "points {:?} expected {:?}", one, want);
                                ensure!(ok(&go!(pc).data), "cloud");
                                let po = go!(po);
                                ensure!(ok(&(0..po.num_vertices()).map(|i| po.vertex(VId(i)).unwrap()).collect::<Vec<_>>()), "polygon");
                                let me = go!(me);
                                ensure!(ok(&(0..me.num_vertices()).map(|i| me.vertex(VId(i)).unwrap()).collect::<Vec<_>>()), "mesh");
                                let ls = go!(ls);
                                ensure!(ok(&[ls.start, ls.end, one[2].clone()]), "segment");
                            }
                            ensure!(&m * &Matrix4::identity() == m && &Matrix4::identity() * &m == m, "a product with the identity is another matrix");
                            if j == 3 {
                                let mut t = Matrix4::identity();
                                t.data[i][3] = d;
                                let w = m.data[i][3] + d;
                                ensure!((&t * &m).data[i][3] == w, "translations in turn: {:?} expected {}", (&t * &m).data[i], w);
                                let mut v = [0.0; 3];
                                v[i] = d;
                                let mut pipe = Matrix4Pipe::default();
                                pipe.add_translation(v[0], v[1], v[2]);
                                ensure!(pipe.result() == t && Matrix4::translation(v[0], v[1], v[2]) == t, "translation by {:?}", v);
                            }
                            if i == j {
                                let mut v = [1.0; 3];
                                v[i] += d;
                                let mut pipe = Matrix4Pipe::default();
                                pipe.add_scale(v[0], v[1], v[2]);
                                ensure!(pipe.result() == Matrix4::scale(v[0], v[1], v[2]) && pipe.result().data[i][i] == v[i], "scale by {:?}", v);
                            }
                            // the same in the plane
                            if i < 2 && j != 2 {
                                let j = if j == 3 { 2 } else { j };
                                let mut m = if b == 0 { Matrix3::identity() } else { Matrix3::scale(2.0, 1.0) };
                                m.data[i][j] += d;
                                let ps: Vec<Point2D> = [j, 2, (j + 1) % 3].iter().map(|u| Point2D::new((*u == 0) as u8 as f64, (*u == 1) as u8 as f64)).collect();
                                let want: Vec<V2> = ps.as_slice().iter().map(|p| {
                                    let mut r = [0.0; 2];
                                    for x in 0..2 {
                                        r[x] = m.data[x][0] * p.x + m.data[x][1] * p.y + m.data[x][2];
                                    }
                                    r
                                }).collect();
                                let ok = |v: &[Point2D]| v.len() == 3 && v.iter().zip(want.as_slice()).all(|(a, w)| a.x == w[0] && a.y == w[1]);
                                for how in 0..2 {
                                    macro_rules! go {
                                        ($x:expr) => {{
                                            let mut x = $x;
                                            if how == 0 {
                                                x.transform(&m);
                                                x
                                            } else {
                                                x.transformed(&m)
                                            }
                                        }};
                                    }
                                    let pc = PointCloud2D::from(ps.clone());
                                    let po = Polygon2D::from(pc.clone());
                                    let ls = LineSegment2D::new(ps[0].clone(), ps[1].clone());
                                    let one: Vec<Point2D> = ps.as_slice().iter().map(|p| go!(p.clone())).collect();
                                    ensure!(ok(&one), "2D points {:?} expected {:?}", one, want);
                                    ensure!(ok(&go!(pc).data), "2D cloud");
                                    let po = go!(po);
                                    ensure!(ok(&(0..po.num_vertices()).map(|i| po.vertex(VId(i)).unwrap()).collect::<Vec<_>>()), "2D polygon");
                                    let ls = go!(ls);
                                    ensure!(ok(&[ls.start, ls.end, one[2].clone()]), "2D segment");
                                }
                                ensure!(&m * &Matrix3::identity() == m && &Matrix3::identity() * &m == m, "2D: a product with the identity is another matrix");
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}
/// every point of collections of every size class is transformed, whatever its place
fn large(c: &mut Ctx, n: usize) {
    let m3 = [E3::T(1.0, -2.0, 3.0), E3::S(2.0, -1.0, 0.5), E3::R(0.0, 0.0, PI / 2.0), E3::A([1.0, 2.0, -2.0], 0.8)];
    for (name, pts) in patterns(n) {
        for e in m3 {
            c.case(
                || format!("{} of {} points, {:?}", name, n, e),
                |c| {
                    c.trans(n);
                    let m = e.matrix();
                    let pts: Vec<V3> = pts.iter().map(|p| [p[0] as f64, p[1] as f64, p[2] as f64]).collect();
                    let ps: Vec<Point3D> = pts.as_slice().iter().map(|p| p3(*p)).collect();
                    let ok = |v: &[Point3D]| v.len() == n && v.iter().zip(pts.as_slice()).all(|(a, b)| near3(a, e.apply(*b)));
                    let pc = PointCloud3D::from(ps.clone());
                    ensure!(ok(&pc.transformed(&m).data), "cloud transformed");
                    let mut t = pc.clone();
                    t.transform(&m);
                    ensure!(ok(&t.data), "cloud transform");
                    let pts_of = |p: &Polygon3D<Point3D>| (0..p.num_vertices()).map(|i| p.vertex(VId(i)).unwrap()).collect::<Vec<_>>();
                    let po = Polygon3D::from(pc.clone());
                    ensure!(ok(&pts_of(&po.transformed(&m))), "polygon transformed");
                    let mut t = po.clone();
                    t.transform(&m);
                    ensure!(ok(&pts_of(&t)), "polygon transform");
                    let mut me = Mesh3D::<Point3D, PointCloud3D<Point3D>, DynamicPrecisionIndexVec>::default();
                    for p in ps.as_slice() {
                        me.add_vertex(p.clone());
                    }
                    for i in 2..n {
                        me.try_add_connection(VId(i), VId(i - 1), VId(0)).map_err(|e| format!("{:?}", e))?;
                    }
                    for (how, t) in [
                        ("transformed", me.transformed(&m)),
                        ("transform", {
                            let mut t = me.clone();
                            t.transform(&m);
                            t
                        }),
                    ] {
                        ensure!(ok(&(0..t.num_vertices()).map(|i| t.vertex(VId(i)).unwrap()).collect::<Vec<_>>()), "mesh {}", how);
                        ensure!(t.num_faces() == n - 2 && (0..n - 2).all(|i| t.face_vertex_ids(FId(i)).unwrap() == me.face_vertex_ids(FId(i)).unwrap()), "faces of the mesh {}", how);
                    }
                    let e = match e {
                        E3::T(x, y, _) => E2::T(x, y),
                        E3::S(x, y, _) => E2::S(x, y),
                        _ => E2::R(0.8),
                    };
                    let m = e.matrix();
                    let ok = |v: &[Point2D]| v.len() == n && v.iter().zip(pts.as_slice()).all(|(a, b)| near2(a, e.apply([b[0], b[1]])));
                    let pc = PointCloud2D::from(pts.as_slice().iter().map(|p| p2([p[0], p[1]])).collect::<Vec<_>>());
                    ensure!(ok(&pc.transformed(&m).data), "2D cloud transformed");
                    let mut t = pc.clone();
                    t.transform(&m);
                    ensure!(ok(&t.data), "2D cloud transform");
                    let pts_of = |p: &Polygon2D<Point2D>| (0..p.num_vertices()).map(|i| p.vertex(VId(i)).unwrap()).collect::<Vec<_>>();
                    let po = Polygon2D::from(pc);
                    ensure!(ok(&pts_of(&po.transformed(&m))), "2D polygon transformed");
                    let mut t = po.clone();
                    t.transform(&m);
                    ensure!(ok(&pts_of(&t)), "2D polygon transform");
                    c.state(&(name, n));
                    Ok(())
                },
            );
        }
    }
}
fn main() {
    let mut gs = vec![];
    gs.push(g("angles", angles));
    gs.push(g("magnitudes", magnitudes));
    gs.push(g("deviations", |c| deviations(c, c.q(2, 1))));
    for n in sizes(true) {
        gs.push(g(format!("large {}", n), move |c| {
            if c.size(n, HUGE) {
                large(c, n)
            }
        }));
    }
    for l in 1..=3 {
        for f in 0..e3s().len() {
            gs.push(g(format!("products3-{}-{}", l, f), move |c| products3(c, l, f)));
        }
        gs.push(g(format!("products2-{}", l), move |c| products2(c, l)));
    }
    gs.push(g("products2-4", |c| products2(c, 4)));
    for f in 0..e3s().len() {
        gs.push(g(format!("products3-4-{}", f), move |c| products3(c, c.q(4, 5), f)));
    }
    gs.push(g("pipe3", |c| {
        let ops: Vec<(usize, Op3)> = ops3().into_iter().enumerate().collect();
        let init = S3 { pipe: Matrix4Pipe::default(), model: Default::default(), id: vec![0; 6] };
        bfs(c, vec![("new".into(), init)], c.q(8, 12), |_| ops.clone(), |s, (k, o)| step3(s, *k, o), |s| s.id.clone());
    }));
    gs.push(g("pipe2", |c| {
        let mut ops: Vec<(usize, Op2)> = vec![
            Op2::Set(0, E2::S(2.0, 3.0)),
            Op2::Set(0, E2::S(-1.0, 0.5)),
            Op2::Set(1, E2::R(0.3)),
            Op2::Set(1, E2::R(-2.0)),
            Op2::Set(2, E2::T(1.0, -2.0)),
            Op2::Set(2, E2::T(0.0, 0.5)),
        ]
        .into_iter()
        .enumerate()
        .collect();
        ops.extend((0..3).map(|i| (99, Op2::Unset(i))));
        let init = S2 { pipe: Matrix3Pipe::default(), model: Default::default(), id: vec![0; 3] };
        bfs(
            c,
            vec![("new".into(), init)],
            8,
            |_| ops.clone(),
            |s, (k, o)| {
                match o {
                    Op2::Set(i, e) => {
                        match *e {
                            E2::S(x, y) => s.pipe.add_scale(x, y),
                            E2::R(a) => s.pipe.add_rotation(Rad(a)),
                            E2::T(x, y) => s.pipe.add_translation(x, y),
                            E2::Id => (),
                        }
                        s.model[*i] = Some(*e);
                        s.id[*i] = *k as u8 + 1;
                    }
                    Op2::Unset(i) => {
                        match i {
                            0 => s.pipe.remove_scale(),
                            1 => s.pipe.remove_rotation(),
                            _ => s.pipe.remove_translation(),
                        }
                        s.model[*i] = None;
                        s.id[*i] = 0;
                    }
                }
                let r = s.pipe.result();
                for p in P2 {
                    let want = s.model.iter().flatten().fold(p, |p, e| e.apply(p));
                    ensure!(near2(&p2(p).multiply_m(&r), want), "pipe maps {:?} to {:?} expected {:?}", p, p2(p).multiply_m(&r), want);
                }
                Ok(())
            },
            |s| s.id.clone(),
        );
    }));
    gs.push(g("constants", |c| {
        c.case(
            || "constants".into(),
            |c| {
                acts3(c, &Matrix4::identity(), &|p| p)?;
                acts3(c, &Matrix4::default(), &|p| p)?;
                acts3(c, &Matrix4::zeroes(), &|_| [0.0; 3])?;
                acts2(c, &Matrix3::identity(), &|p| p)?;
                acts2(c, &Matrix3::default(), &|p| p)?;
                acts2(c, &Matrix3::zeroes(), &|_| [0.0; 2])?;
                ensure!(Matrix4::zeroes().data == [[0.0; 4]; 4] && Matrix3::zeroes().data == [[0.0; 3]; 3], "zeroes");
                Ok(())
            },
        );
        // a look at matrix turns the target direction onto the z axis
        let v = [-2.0, 0.0, 1.0];
        tuples(3, 6, |t| {
            let (a, u) = ([v[t[0]], v[t[1]], v[t[2]]], [v[t[3]], v[t[4]], v[t[5]]]);
            if dt(u, u) == 0.0 {
                return true;
            }
            c.case(
                || format!("look at {:?} up {:?}", a, u),
                |c| {
                    c.trans(1);
                    let up = Norm3D::new(p3(u)).unwrap();
                    match Matrix4::look_at(&p3(a), &up) {
                        Err(_) => ensure!(dt(a, a) == 0.0, "rejected"),
                        Ok(m) => ensure!(near3(&p3(a).multiply_m(&m), [0.0, 0.0, dt(a, a).sqrt()]), "target maps to {:?}", p3(a).multiply_m(&m)),
                    }
                    Ok(())
                },
            )
        });
    }));
    mc::main(
        Spec {
            prop: "C13",
            level: "model_checking",
            rule: "all products of elementary matrices up to length 3 (thorough 4) acting on all sample points and collections; breadth-first search over pipe edit histories; a state is a distinct product sequence or pipe configuration, a transition one point mapped or one pipe edit",
            assumptions: &["Coordinates compared to 1e-9 relative precision", "Look-at and perspective matrices are only checked as pipe stages (their own definition is the library's), plus that look-at turns the target onto the z axis"],
        },
        gs,
    );
}
