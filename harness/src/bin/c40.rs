//! C40: point and vector operations against their definition by coordinate.
use mc::*;
use rust_3d::*;

/// equal up to the rounding of sums whose terms add up to `mag`
fn near(a: f64, b: f64, mag: f64) -> bool {
    a == b || (a - b).abs() <= 1e-13 * mag
}
/// equal up to rounding, `a` being made of as many coordinates as `b`
fn vnear(what: &str, a: &[f64], b: &[f64], mag: f64) -> R {
    ensure!(a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y, mag)), "{}: {:?} instead of {:?}", what, a, b);
    Ok(())
}
fn exact(what: &str, a: &[f64], b: &[f64]) -> R {
    ensure!(a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || x.is_nan() && y.is_nan()), "{}: {:?} instead of {:?}", what, a, b);
    Ok(())
}
/// powers of two and (small) multiples of them to move by
const MAGNITUDES: [(f64, f64); 6] = [(1.0, 0.0), (1.0, 12345.0), (1.0 / 1073741824.0, 0.0), (1.0 / 1073741824.0, -777.0), (2.037035976334486e90, 3.0), (4.909093465297727e-91, 1e7)];
fn mag(p: [f64; 3], f: f64, m: f64) -> [f64; 3] {
    [(p[0] + m) * f, (p[1] - m) * f, (p[2] + 2.0 * m) * f]
}
fn sum_abs(v: &[f64]) -> f64 {
    v.iter().map(|x| x.abs()).sum()
}
/// length by scaling, whatever the magnitude
fn len(v: &[f64]) -> f64 {
    let m = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    if m == 0.0 {
        return 0.0;
    }
    m * v.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt()
}
fn dot(a: &[f64], b: &[f64]) -> (f64, f64) {
    let t: Vec<f64> = a.iter().zip(b).map(|(x, y)| x * y).collect();
    (t.iter().sum(), sum_abs(&t))
}
fn crossv(a: &[f64], b: &[f64]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn a2(p: &impl Is2D) -> [f64; 2] {
    [p.x(), p.y()]
}
fn a3(p: &impl Is3D) -> [f64; 3] {
    [p.x(), p.y(), p.z()]
}
fn p2(v: [f64; 2]) -> Point2D {
    Point2D { x: v[0], y: v[1] }
}
fn p3(v: [f64; 3]) -> Point3D {
    Point3D { x: v[0], y: v[1], z: v[2] }
}
fn zip<const N: usize>(a: [f64; N], b: [f64; N], f: impl Fn(f64, f64) -> f64) -> [f64; N] {
    let mut r = a;
    for i in 0..N {
        r[i] = f(a[i], b[i]);
    }
    r
}
/// what every 2D position offers, whatever its type
fn reading2<P: Is2D, Q: Is2D>(p: &P, q: &Q, a: [f64; 2], b: [f64; 2]) -> R {
    exact("xy", &p.xy(), &a)?;
    exact("x/y", &[p.x(), p.y()], &a)?;
    ensure!(P::n_dimensions() == 2, "dimensions");
    for i in [0usize, 1, 2, 3, 17].iter().cloned().chain(far(3)) {
        ensure!(p.position_nd(i) == a.get(i).cloned(), "position_nd({}): {:?}", i, p.position_nd(i));
    }
    let (d, m) = dot(&a, &b);
    vnear("dot", &[Is2D::dot(p, q)], &[d], m)?;
    vnear("cross", &[Is2D::cross(p, q)], &[a[0] * b[1] - a[1] * b[0]], (a[0] * b[1]).abs() + (a[1] * b[0]).abs())?;
    vnear("abs", &[*Is2D::abs(p)], &[len(&a)], len(&a))?;
    let delta = zip(b, a, |x, y| x - y);
    let l = len(&delta);
    vnear("dist_2d", &[dist_2d(p, q)], &[l], l)?;
    vnear("sqr_dist_2d", &[sqr_dist_2d(p, q)], &[l * l], l * l)?;
    ensure!(dist_nd(p, q).map_or(false, |x| near(x, l, l)), "dist_nd");
    ensure!(sqr_dist_nd(p, q).map_or(false, |x| near(x, l * l, l * l)), "sqr_dist_nd");
    let dynp: &dyn Is2D = &p2(a);
    vnear("sqr_distance", &[*dynp.sqr_distance(q)], &[l * l], l * l)?;
    vnear("distance", &[*dynp.distance(q)], &[l], l)?;
    if l > 0.0 {
        // the direction from self to other
        let r = p.rad_to(q).0;
        ensure!(r >= -std::f64::consts::PI && r <= std::f64::consts::PI, "rad_to {} out of range", r);
        vnear("rad_to", &[r.cos(), r.sin()], &[delta[0] / l, delta[1] / l], 100.0)?;
    }
    Ok(())
}
fn reading3<P: Is3D, Q: Is3D>(p: &P, q: &Q, a: [f64; 3], b: [f64; 3]) -> R {
    exact("xyz", &p.xyz(), &a)?;
    exact("x/y/z", &[p.x(), p.y(), p.z()], &a)?;
    exact("xy", &Is3D::xy(p), &[a[0], a[1]])?;
    exact("xz", &p.xz(), &[a[0], a[2]])?;
    exact("yz", &p.yz(), &[a[1], a[2]])?;
    ensure!(P::n_dimensions() == 3, "dimensions");
    for i in [0usize, 1, 2, 3, 4, 17].iter().cloned().chain(far(4)) {
        ensure!(p.position_nd(i) == a.get(i).cloned(), "position_nd({}): {:?}", i, p.position_nd(i));
    }
    let (d, m) = dot(&a, &b);
    vnear("dot", &[Is3D::dot(p, q)], &[d], m)?;
    vnear("abs", &[*Is3D::abs(p)], &[len(&a)], len(&a))?;
    let w = crossv(&a, &b);
    let m = 2.0 * len(&a) * len(&b);
    vnear("cross", &a3(&cross(p, &p3(b))), &w, m)?;
    let delta = zip(b, a, |x, y| x - y);
    let l = len(&delta);
    vnear("dist_3d", &[dist_3d(p, q)], &[l], l)?;
    vnear("sqr_dist_3d", &[sqr_dist_3d(p, q)], &[l * l], l * l)?;
    ensure!(dist_nd(p, q).map_or(false, |x| near(x, l, l)), "dist_nd");
    ensure!(sqr_dist_nd(p, q).map_or(false, |x| near(x, l * l, l * l)), "sqr_dist_nd");
    ensure!(dist_nd(p, &Point2D::default()).is_err() && sqr_dist_nd(&Point2D::default(), p).is_err(), "distance between different dimensions");
    let dynp: &dyn Is3D = &p3(a);
    vnear("sqr_distance", &[*dynp.sqr_distance(q)], &[l * l], l * l)?;
    vnear("distance", &[*dynp.distance(q)], &[l], l)?;
    for i in [0i8, 1, 2] {
        let (x, y) = (a[i as usize], b[i as usize]);
        ensure!(dimension_compare(p, q, i).ok() == x.partial_cmp(&y), "dimension_compare {}", i);
        ensure!(dimension_dist(p, q, i).ok() == Some((x - y).abs()), "dimension_dist {}", i);
    }
    for i in [-128i8, -3, -1, 3, 4, 127] {
        ensure!(dimension_compare(p, q, i).is_err() && dimension_dist(p, q, i).is_err(), "unknown dimension {} accepted", i);
    }
    match p.rad_to(q) {
        Err(_) => ensure!(len(&a) == 0.0 || len(&b) == 0.0, "no angle between vectors with a length"),
        Ok(r) => {
            ensure!(len(&a) > 0.0 && len(&b) > 0.0, "an angle {:?} to a vector without length", r);
            let want = (len(&crossv(&a, &b))).atan2(dot(&a, &b).0);
            ensure!((r.0 - want).abs() < 1e-7, "angle {} instead of {}", r.0, want);
        }
    }
    Ok(())
}
fn ops2(a: [f64; 2], b: [f64; 2], f: f64) -> R {
    let (p, q) = (p2(a), p2(b));
    reading2(&p, &q, a, b)?;
    reading2(&Box::new(p.clone()), &q, a, b)?;
    exact("new", &a2(&Point2D::new(a[0], a[1])), &a)?;
    exact("IsBuildable2D::new", &a2(&<Point2D as IsBuildable2D>::new(a[0], a[1])), &a)?;
    exact("new_from", &a2(&Point2D::new_from(&Box::new(p.clone()))), &a)?;
    exact("zero", &a2(&<Point2D as IsBuildable2D>::zero()), &[0.0; 2])?;
    exact("zero_nd", &a2(&Point2D::zero_nd()), &[0.0; 2])?;
    exact("default", &a2(&Point2D::default()), &[0.0; 2])?;
    let mut x = q.clone();
    IsBuildable2D::from(&mut x, &p);
    exact("from", &a2(&x), &a)?;
    let mut x = q.clone();
    ensure!(x.from_nd(p.clone()).is_ok(), "from_nd");
    exact("from_nd", &a2(&x), &a)?;
    ensure!(x.from_nd(p3([5.0, 6.0, 7.0])).is_err(), "from_nd with another dimension");
    exact("rejected from_nd", &a2(&x), &a)?;
    let m = [a[0], a[1], b[0], b[1]];
    for n in 0..=4 {
        match Point2D::new_nd(&m[..n]) {
            Ok(y) => {
                ensure!(n == 2, "new_nd of {} coordinates accepted", n);
                exact("new_nd", &a2(&y), &a)?
            }
            Err(_) => ensure!(n != 2, "new_nd rejected"),
        }
    }
    let s = zip(a, b, |x, y| x + y);
    exact("p+q", &a2(&(p.clone() + q.clone())), &s)?;
    exact("p+boxed", &a2(&(p.clone() + Box::new(q.clone()))), &s)?;
    exact("&p+&q", &a2(&(&p + &q)), &s)?;
    exact("&p+q", &a2(&(&p + q.clone())), &s)?;
    let mut x = p.clone();
    IsEditable2D::add(&mut x, &q);
    exact("add", &a2(&x), &s)?;
    let s = zip(a, b, |x, y| x - y);
    exact("p-q", &a2(&(p.clone() - q.clone())), &s)?;
    exact("p-boxed", &a2(&(p.clone() - Box::new(q.clone()))), &s)?;
    exact("&p-&q", &a2(&(&p - &q)), &s)?;
    exact("&p-q", &a2(&(&p - q.clone())), &s)?;
    let mut x = p.clone();
    x.subtract(&q);
    exact("subtract", &a2(&x), &s)?;
    let s = zip(a, a, |x, _| x * f);
    exact("p*f", &a2(&(p.clone() * f)), &s)?;
    exact("&p*f", &a2(&(&p * f)), &s)?;
    let mut x = p.clone();
    x.scale_pos(f);
    exact("scale_pos", &a2(&x), &s)?;
    if f != 0.0 {
        let s = zip(a, a, |x, _| x / f);
        vnear("p/f", &a2(&(p.clone() / f)), &s, sum_abs(&s))?;
        vnear("&p/f", &a2(&(&p / f)), &s, sum_abs(&s))?;
    }
    let s = zip(a, a, |x, _| -x);
    exact("-p", &a2(&-p.clone()), &s)?;
    exact("-&p", &a2(&-&p), &s)?;
    let s = zip(a, b, |x, y| 0.5 * x + 0.5 * y);
    let m = sum_abs(&a) + sum_abs(&b);
    vnear("center", &a2(&IsBuildable2D::center(&p, &q)), &s, m)?;
    vnear("center_2d", &a2(&center_2d(&p, &q)), &s, m)?;
    let mut buf = vec![7.0; 5];
    match p.center_nd(&q, &mut buf) {
        Ok(x) => vnear("center_nd", &a2(&x), &s, m)?,
        Err(e) => ensure!(false, "center_nd {:?}", e),
    }
    ensure!(p.center_nd(&p3([0.0; 3]), &mut buf).is_err(), "center_nd with another dimension");
    for i in [0usize, 1, 2, 3].iter().cloned().chain(far(3)) {
        let mut x = p.clone();
        let mut want = a;
        let r = x.set_position(i, f);
        ensure!(r.is_ok() == (i < 2), "set_position({})", i);
        if i < 2 {
            want[i] = f;
        }
        exact("set_position", &a2(&x), &want)?;
    }
    let mut x = p.clone();
    x.set_x(f);
    exact("set_x", &a2(&x), &[f, a[1]])?;
    let mut x = p.clone();
    x.set_y(f);
    exact("set_y", &a2(&x), &[a[0], f])?;
    let mut x = p.clone();
    IsEditable2D::set_xy(&mut x, b[0], f);
    exact("set_xy", &a2(&x), &[b[0], f])?;
    let mut x = p.clone();
    x.move_by(b[0], b[1]);
    exact("move_by", &a2(&x), &zip(a, b, |x, y| x + y))?;
    if f > 0.0 {
        let mut x = p.clone();
        x.increase_distance_to_by(&q, Positive::new(f).unwrap());
        vnear("increase_distance_to_by", &a2(&x), &zip(a, b, |x, y| y + f * (x - y)), m * (1.0 + 2.0 * f))?;
    }
    exact("transform_to_3d", &a3(&p.transform_to_3d::<Point3D>(f)), &[a[0], a[1], f])?;
    match p.normalized() {
        Ok(n) => {
            ensure!(len(&a) > 0.0, "a vector without length was normalized to {:?}", n);
            vnear("normalized", &a2(&n), &zip(a, a, |x, _| x / len(&a)), 10.0)?;
        }
        Err(_) => ensure!(len(&a) == 0.0, "not normalized"),
    }
    match Norm2D::new(p.clone()) {
        Ok(n) => {
            ensure!(len(&a) > 0.0, "a vector without length was normalized to {:?}", n);
            let u = zip(a, a, |x, _| x / len(&a));
            vnear("Norm2D", &a2(&n), &u, 10.0)?;
            let u = a2(&n);
            reading2(&n, &q, u, b)?;
            reading2(&p, &n, a, u)?;
            exact("n*f", &a2(&(n.clone() * f)), &zip(u, u, |x, _| x * f))?;
            exact("&n*f", &a2(&(&n * f)), &zip(u, u, |x, _| x * f))?;
            exact("-n", &a2(&-n.clone()), &zip(u, u, |x, _| -x))?;
            exact("-&n", &a2(&-&n), &zip(u, u, |x, _| -x))?;
            exact("p+n", &a2(&(&p + &n)), &zip(a, u, |x, y| x + y))?;
            exact("p-n", &a2(&(p.clone() - n.clone())), &zip(a, u, |x, y| x - y))?;
            let mut l = Line2D::new(p.clone(), n.clone());
            l.move_by(b[0], b[1]);
            exact("moved line", &a2(&l.anchor), &zip(a, b, |x, y| x + y))?;
            exact("direction of a moved line", &a2(&l.dir), &u)?;
            let mut r = Ray2D::new(l);
            r.move_by(-b[0], b[1]);
            exact("direction of a moved ray", &a2(&r.line.dir), &u)?;
            vnear("moved ray", &a2(&r.line.anchor), &[a[0] + b[0] - b[0], a[1] + 2.0 * b[1]], m)?;
        }
        Err(_) => ensure!(len(&a) == 0.0, "Norm2D rejected"),
    }
    Ok(())
}
fn ops3(a: [f64; 3], b: [f64; 3], f: f64) -> R {
    let (p, q) = (p3(a), p3(b));
    reading3(&p, &q, a, b)?;
    reading3(&Box::new(p.clone()), &q, a, b)?;
    exact("new", &a3(&Point3D::new(a[0], a[1], a[2])), &a)?;
    exact("IsBuildable3D::new", &a3(&<Point3D as IsBuildable3D>::new(a[0], a[1], a[2])), &a)?;
    exact("new_from", &a3(&Point3D::new_from(&Box::new(p.clone()))), &a)?;
    exact("zero", &a3(&<Point3D as IsBuildable3D>::zero()), &[0.0; 3])?;
    exact("zero_nd", &a3(&Point3D::zero_nd()), &[0.0; 3])?;
    exact("default", &a3(&Point3D::default()), &[0.0; 3])?;
    let mut x = q.clone();
    IsBuildable3D::from(&mut x, &p);
    exact("from", &a3(&x), &a)?;
    let mut x = q.clone();
    ensure!(x.from_nd(p.clone()).is_ok(), "from_nd");
    exact("from_nd", &a3(&x), &a)?;
    ensure!(x.from_nd(p2([5.0, 6.0])).is_err(), "from_nd with another dimension");
    exact("rejected from_nd", &a3(&x), &a)?;
    let m = [a[0], a[1], a[2], b[0], b[1]];
    for n in 0..=5 {
        match Point3D::new_nd(&m[..n]) {
            Ok(y) => {
                ensure!(n == 3, "new_nd of {} coordinates accepted", n);
                exact("new_nd", &a3(&y), &a)?
            }
            Err(_) => ensure!(n != 3, "new_nd rejected"),
        }
    }
    let s = zip(a, b, |x, y| x + y);
    exact("p+q", &a3(&(p.clone() + q.clone())), &s)?;
    exact("p+boxed", &a3(&(p.clone() + Box::new(q.clone()))), &s)?;
    exact("&p+&q", &a3(&(&p + &q)), &s)?;
    exact("&p+q", &a3(&(&p + q.clone())), &s)?;
    exact("fn add", &a3(&rust_3d::add(&p, &q)), &s)?;
    let mut x = p.clone();
    IsEditable3D::add(&mut x, &q);
    exact("add", &a3(&x), &s)?;
    let s = zip(a, b, |x, y| x - y);
    exact("p-q", &a3(&(p.clone() - q.clone())), &s)?;
    exact("p-boxed", &a3(&(p.clone() - Box::new(q.clone()))), &s)?;
    exact("&p-&q", &a3(&(&p - &q)), &s)?;
    exact("&p-q", &a3(&(&p - q.clone())), &s)?;
    exact("conn", &a3(&conn(&q, &p)), &s)?;
    let mut x = p.clone();
    x.subtract(&q);
    exact("subtract", &a3(&x), &s)?;
    let s = zip(a, a, |x, _| x * f);
    exact("p*f", &a3(&(p.clone() * f)), &s)?;
    exact("&p*f", &a3(&(&p * f)), &s)?;
    let mut x = p.clone();
    x.scale_pos(f);
    exact("scale_pos", &a3(&x), &s)?;
    if f != 0.0 {
        let s = zip(a, a, |x, _| x / f);
        vnear("p/f", &a3(&(p.clone() / f)), &s, sum_abs(&s))?;
        vnear("&p/f", &a3(&(&p / f)), &s, sum_abs(&s))?;
    }
    let s = zip(a, a, |x, _| -x);
    exact("-p", &a3(&-p.clone()), &s)?;
    exact("-&p", &a3(&-&p), &s)?;
    let s = zip(a, b, |x, y| 0.5 * x + 0.5 * y);
    let m = sum_abs(&a) + sum_abs(&b);
    vnear("center", &a3(&IsBuildable3D::center(&p, &q)), &s, m)?;
    vnear("center_3d", &a3(&center_3d(&p, &q)), &s, m)?;
    let mut buf = vec![7.0; 5];
    match p.center_nd(&q, &mut buf) {
        Ok(x) => vnear("center_nd", &a3(&x), &s, m)?,
        Err(e) => ensure!(false, "center_nd {:?}", e),
    }
    ensure!(p.center_nd(&p2([0.0; 2]), &mut buf).is_err(), "center_nd with another dimension");
    for i in [0usize, 1, 2, 3, 4].iter().cloned().chain(far(4)) {
        let mut x = p.clone();
        let mut want = a;
        let r = x.set_position(i, f);
        ensure!(r.is_ok() == (i < 3), "set_position({})", i);
        if i < 3 {
            want[i] = f;
        }
        exact("set_position", &a3(&x), &want)?;
    }
    let set = |what: &str, g: &dyn Fn(&mut Point3D), want: [f64; 3]| {
        let mut x = p.clone();
        g(&mut x);
        exact(what, &a3(&x), &want)
    };
    set("set_x", &|x| x.set_x(f), [f, a[1], a[2]])?;
    set("set_y", &|x| x.set_y(f), [a[0], f, a[2]])?;
    set("set_z", &|x| x.set_z(f), [a[0], a[1], f])?;
    set("set_xy", &|x| IsEditable3D::set_xy(x, b[0], f), [b[0], f, a[2]])?;
    set("set_xz", &|x| x.set_xz(b[0], f), [b[0], a[1], f])?;
    set("set_yz", &|x| x.set_yz(b[0], f), [a[0], b[0], f])?;
    set("set_xyz", &|x| x.set_xyz(b[0], f, b[2]), [b[0], f, b[2]])?;
    set("move_by", &|x| x.move_by(b[0], b[1], b[2]), zip(a, b, |x, y| x + y))?;
    if f > 0.0 {
        let mut x = p.clone();
        x.increase_distance_to_by(&q, Positive::new(f).unwrap());
        vnear("increase_distance_to_by", &a3(&x), &zip(a, b, |x, y| y + f * (x - y)), m * (1.0 + 2.0 * f))?;
    }
    exact("transform_to_2d", &a2(&p.transform_to_2d::<Point2D>()), &[a[0], a[1]])?;
    match p.normalized() {
        Ok(n) => {
            ensure!(len(&a) > 0.0, "a vector without length was normalized to {:?}", n);
            vnear("normalized", &a3(&n), &zip(a, a, |x, _| x / len(&a)), 10.0)?;
        }
        Err(_) => ensure!(len(&a) == 0.0, "not normalized"),
    }
    match Norm3D::new(p.clone()) {
        Ok(n) => {
            ensure!(len(&a) > 0.0, "a vector without length was normalized to {:?}", n);
            let u = zip(a, a, |x, _| x / len(&a));
            vnear("Norm3D", &a3(&n), &u, 10.0)?;
            let u = a3(&n);
            reading3(&n, &q, u, b)?;
            reading3(&p, &n, a, u)?;
            exact("n*f", &a3(&(n.clone() * f)), &zip(u, u, |x, _| x * f))?;
            exact("&n*f", &a3(&(&n * f)), &zip(u, u, |x, _| x * f))?;
            exact("-n", &a3(&-n.clone()), &zip(u, u, |x, _| -x))?;
            exact("-&n", &a3(&-&n), &zip(u, u, |x, _| -x))?;
            exact("p+n", &a3(&(&p + &n)), &zip(a, u, |x, y| x + y))?;
            exact("p-n", &a3(&(p.clone() - n.clone())), &zip(a, u, |x, y| x - y))?;
            let mut l = Line3D::new(p.clone(), n.clone());
            l.move_by(b[0], b[1], b[2]);
            exact("moved line", &a3(&l.anchor), &zip(a, b, |x, y| x + y))?;
            exact("direction of a moved line", &a3(&l.dir), &u)?;
            let mut r = Ray3D::new(l);
            r.move_by(-b[0], b[1], -b[2]);
            exact("direction of a moved ray", &a3(&r.line.dir), &u)?;
            vnear("moved ray", &a3(&r.line.anchor), &[a[0], a[1] + 2.0 * b[1], a[2]], m)?;
        }
        Err(_) => ensure!(len(&a) == 0.0, "Norm3D rejected"),
    }
    Ok(())
}
/// shapes are positions, too: those of their center; `rest` is what a change of position must not touch
fn placed2<T: IsBuildable2D + IsEditable2D + Clone + std::fmt::Debug>(start: &T, rest: &dyn Fn(&T) -> Vec<f64>, a: [f64; 2], b: [f64; 2], f: f64) -> R {
    let q = p2(b);
    let r0 = rest(start);
    let ok = |what: &str, t: &T, want: [f64; 2], m: f64| -> R {
        vnear(what, &a2(t), &want, m)?;
        for i in 0..2 {
            ensure!(t.position_nd(i) == Some(a2(t)[i]), "{}: position_nd {}", what, i);
        }
        vnear(&format!("size after {}", what), &rest(t), &r0, 1e3 * (1.0 + sum_abs(&a) + sum_abs(&b)))
    };
    let m = (sum_abs(&a) + sum_abs(&b)) * (1.0 + f.abs());
    let mut t = start.clone();
    IsBuildable2D::from(&mut t, &p2(a));
    ok("from", &t, a, 0.0)?;
    reading2(&t, &q, a, b)?;
    let at = t;
    let mut t = start.clone();
    ensure!(t.from_nd(p2(a)).is_ok(), "from_nd");
    ok("from_nd", &t, a, 0.0)?;
    ensure!(t.from_nd(p3([1.0, 2.0, 3.0])).is_err(), "from_nd with another dimension");
    ok("rejected from_nd", &t, a, 0.0)?;
    for i in [0usize, 1, 2].iter().cloned().chain(far(2)) {
        let mut t = at.clone();
        let mut want = a;
        ensure!(t.set_position(i, f).is_ok() == (i < 2), "set_position({})", i);
        if i < 2 {
            want[i] = f;
        }
        ok("set_position", &t, want, 0.0)?;
    }
    let edit = |what: &str, g: &dyn Fn(&mut T), want: [f64; 2]| -> R {
        let mut t = at.clone();
        g(&mut t);
        ok(what, &t, want, m)
    };
    edit("set_x", &|t| t.set_x(f), [f, a[1]])?;
    edit("set_y", &|t| t.set_y(f), [a[0], f])?;
    edit("set_xy", &|t| IsEditable2D::set_xy(t, b[1], f), [b[1], f])?;
    edit("add", &|t| IsEditable2D::add(t, &q), zip(a, b, |x, y| x + y))?;
    edit("subtract", &|t| t.subtract(&q), zip(a, b, |x, y| x - y))?;
    edit("scale_pos", &|t| t.scale_pos(f), zip(a, b, |x, _| x * f))?;
    edit("rotate", &|t| t.rotate(Rad(0.5 * std::f64::consts::PI), &q), [b[0] - (a[1] - b[1]), b[1] + (a[0] - b[0])])?;
    if f > 0.0 {
        edit("increase_distance_to_by", &|t| t.increase_distance_to_by(&q, Positive::new(f).unwrap()), zip(a, b, |x, y| y + f * (x - y)))?;
    }
    let fresh = |what: &str, t: T, want: [f64; 2]| -> R {
        vnear(what, &a2(&t), &want, m)?;
        vnear(&format!("size of {}", what), &rest(&t), &rest(&<T as IsBuildable2D>::zero()), 1e3 * (1.0 + m))
    };
    fresh("new", <T as IsBuildable2D>::new(a[0], a[1]), a)?;
    fresh("new_from", T::new_from(&p2(a)), a)?;
    fresh("zero", <T as IsBuildable2D>::zero(), [0.0; 2])?;
    fresh("zero_nd", T::zero_nd(), [0.0; 2])?;
    let n = [a[0], a[1], b[0]];
    for k in 0..=3 {
        let r = T::new_nd(&n[..k]);
        ensure!(r.is_ok() == (k == 2), "new_nd of {} coordinates", k);
        if let Ok(t) = r {
            fresh("new_nd", t, a)?
        }
    }
    fresh("center", IsBuildable2D::center(&at, &q), zip(a, b, |x, y| 0.5 * (x + y)))?;
    fresh("center_2d", center_2d(&at, &T::new_from(&q)), zip(a, b, |x, y| 0.5 * (x + y)))?;
    Ok(())
}
fn placed3<T: IsBuildable3D + IsBuildableND + IsEditable3D + Clone + std::fmt::Debug>(start: &T, rest: &dyn Fn(&T) -> Vec<f64>, a: [f64; 3], b: [f64; 3], f: f64) -> R {
    let q = p3(b);
    let r0 = rest(start);
    let ok = |what: &str, t: &T, want: [f64; 3], m: f64| -> R {
        vnear(what, &a3(t), &want, m)?;
        for i in 0..3 {
            ensure!(t.position_nd(i) == Some(a3(t)[i]), "{}: position_nd {}", what, i);
        }
        vnear(&format!("size after {}", what), &rest(t), &r0, 1e3 * (1.0 + sum_abs(&a) + sum_abs(&b)))
    };
    let m = (sum_abs(&a) + sum_abs(&b)) * (1.0 + f.abs());
    let mut t = start.clone();
    IsBuildable3D::from(&mut t, &p3(a));
    ok("from", &t, a, 0.0)?;
    reading3(&t, &q, a, b)?;
    let at = t;
    let mut t = start.clone();
    ensure!(t.from_nd(p3(a)).is_ok(), "from_nd");
    ok("from_nd", &t, a, 0.0)?;
    ensure!(t.from_nd(p2([1.0, 2.0])).is_err(), "from_nd with another dimension");
    ok("rejected from_nd", &t, a, 0.0)?;
    for i in [0usize, 1, 2, 3].iter().cloned().chain(far(3)) {
        let mut t = at.clone();
        let mut want = a;
        ensure!(t.set_position(i, f).is_ok() == (i < 3), "set_position({})", i);
        if i < 3 {
            want[i] = f;
        }
        ok("set_position", &t, want, 0.0)?;
    }
    let edit = |what: &str, g: &dyn Fn(&mut T), want: [f64; 3]| -> R {
        let mut t = at.clone();
        g(&mut t);
        ok(what, &t, want, m)
    };
    edit("set_x", &|t| t.set_x(f), [f, a[1], a[2]])?;
    edit("set_y", &|t| t.set_y(f), [a[0], f, a[2]])?;
    edit("set_z", &|t| t.set_z(f), [a[0], a[1], f])?;
    edit("set_xyz", &|t| t.set_xyz(b[1], f, b[0]), [b[1], f, b[0]])?;
    edit("set_xy", &|t| IsEditable3D::set_xy(t, b[1], f), [b[1], f, a[2]])?;
    edit("set_xz", &|t| t.set_xz(b[1], f), [b[1], a[1], f])?;
    edit("set_yz", &|t| t.set_yz(b[1], f), [a[0], b[1], f])?;
    edit("add", &|t| IsEditable3D::add(t, &q), zip(a, b, |x, y| x + y))?;
    edit("subtract", &|t| t.subtract(&q), zip(a, b, |x, y| x - y))?;
    edit("scale_pos", &|t| t.scale_pos(f), zip(a, b, |x, _| x * f))?;
    if f > 0.0 {
        edit("increase_distance_to_by", &|t| t.increase_distance_to_by(&q, Positive::new(f).unwrap()), zip(a, b, |x, y| y + f * (x - y)))?;
    }
    let fresh = |what: &str, t: T, want: [f64; 3]| -> R {
        vnear(what, &a3(&t), &want, m)?;
        vnear(&format!("size of {}", what), &rest(&t), &rest(&<T as IsBuildable3D>::zero()), 1e3 * (1.0 + m))
    };
    fresh("new", <T as IsBuildable3D>::new(a[0], a[1], a[2]), a)?;
    fresh("new_from", T::new_from(&p3(a)), a)?;
    fresh("zero", <T as IsBuildable3D>::zero(), [0.0; 3])?;
    fresh("zero_nd", T::zero_nd(), [0.0; 3])?;
    let n = [a[0], a[1], a[2], b[0]];
    for k in 0..=4 {
        let r = T::new_nd(&n[..k]);
        ensure!(r.is_ok() == (k == 3), "new_nd of {} coordinates", k);
        if let Ok(t) = r {
            fresh("new_nd", t, a)?
        }
    }
    fresh("center", IsBuildable3D::center(&at, &q), zip(a, b, |x, y| 0.5 * (x + y)))?;
    fresh("center_3d", center_3d(&at, &T::new_from(&q)), zip(a, b, |x, y| 0.5 * (x + y)))?;
    Ok(())
}
fn sizes2<T: HasBoundingBox2D>(t: &T) -> Vec<f64> {
    let b = t.bounding_box();
    vec![*b.size_x(), *b.size_y()]
}
fn sizes3<T: HasBoundingBox3D>(t: &T) -> Vec<f64> {
    let b = t.bounding_box();
    vec![*b.size_x(), *b.size_y(), *b.size_z()]
}
fn shapes2(a: [f64; 2], b: [f64; 2], f: f64) -> R {
    let s = |x| Positive::new(x).unwrap();
    let bx = Box2D { center: p2(b), size_x: s(2.5), size_y: s(4.0) };
    let ci = Circle { center: p2(b), radius: s(3.5) };
    placed2(&p2(b), &|_| vec![], a, b, f)?;
    placed2(&bx, &|t| t.sizes().iter().map(|x| **x).collect(), a, b, f)?;
    placed2(&ci, &|t| vec![*t.radius], a, b, f)?;
    placed2(&FilterBox2D::new(bx.clone()), &sizes2, a, b, f)?;
    placed2(&FilterCircle::new(ci.clone()), &sizes2, a, b, f)?;
    // a bounding box is positioned at its center as well
    let bb = bx.bounding_box();
    reading2(&bb, &p2(a), a2(&bb), a)?;
    vnear("center of a bounding box", &a2(&bb), &b, 100.0 + sum_abs(&b))
}
fn shapes3(a: [f64; 3], b: [f64; 3], f: f64) -> R {
    let s = |x| Positive::new(x).unwrap();
    let bx = Box3D { center: p3(b), size_x: s(2.5), size_y: s(4.0), size_z: s(0.75) };
    let sp = Sphere { center: p3(b), radius: s(3.5) };
    placed3(&p3(b), &|_| vec![], a, b, f)?;
    placed3(&bx, &|t| t.sizes().iter().map(|x| **x).collect(), a, b, f)?;
    placed3(&sp, &|t| vec![*t.radius], a, b, f)?;
    placed3(&FilterBox3D::new(bx.clone()), &sizes3, a, b, f)?;
    placed3(&FilterSphere::new(sp.clone()), &sizes3, a, b, f)?;
    let bb = bx.bounding_box();
    reading3(&bb, &p3(a), a3(&bb), a)?;
    vnear("center of a bounding box", &a3(&bb), &b, 100.0 + sum_abs(&b))
}
/// coordinates: exact binary fractions, decimal ones, other magnitudes
const A: [f64; 6] = [0.0, 1.0, -2.0, 0.5, -0.25, 3.0];
const B: [f64; 7] = [0.0, -0.0, 0.1, -7.3, 1.0e5, -3.0e-5, 33.3];
const L: [f64; 5] = [0.0, 1.0e70, -2.0e70, 5.0e-70, 1.0];
const F: [f64; 6] = [0.0, 1.0, 0.5, -3.0, 0.1, 1.0e4];
fn case<const N: usize>(c: &mut Ctx, a: [f64; N], b: [f64; N], f: f64, g: fn([f64; N], [f64; N], f64) -> R) {
    c.state(&(a.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), b.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), f.to_bits()));
    c.trans(70);
    c.case(|| format!("{:?} {:?} factor {}", a, b, f), |_| g(a, b, f));
}
fn all2(c: &mut Ctx, s: &[f64]) {
    tuples(s.len(), 4, |t| {
        for f in F {
            case(c, [s[t[0]], s[t[1]]], [s[t[2]], s[t[3]]], f, ops2);
        }
        !c.stopped()
    });
}
fn all3(c: &mut Ctx, s: &[f64], all: bool) {
    tuples(s.len(), 6, |t| {
        let (a, b) = ([s[t[0]], s[t[1]], s[t[2]]], [s[t[3]], s[t[4]], s[t[5]]]);
        if all {
            for f in F {
                case(c, a, b, f, ops3);
            }
        } else {
            case(c, a, b, F[(t[0] + 2 * t[3] + t[5]) % F.len()], ops3);
        }
        !c.stopped()
    });
}
fn main() {
    let mut gs = vec![];
    gs.push(g("2D exact", |c| all2(c, &A)));
    gs.push(g("2D decimal", |c| all2(c, &B)));
    gs.push(g("2D magnitudes", |c| all2(c, &L)));
    gs.push(g("3D exact", |c| all3(c, &A, c.thorough())));
    gs.push(g("3D decimal", |c| all3(c, &B, c.thorough())));
    gs.push(g("3D magnitudes", |c| all3(c, &L, c.thorough())));
    gs.push(g("3D all factors", |c| all3(c, &A[..c.q(4, 5)], true)));
    gs.push(g("2D shapes", |c| {
        let s: [f64; 5] = [0.0, 1.0, -2.5, 10.0, 0.3];
        tuples(5, 4, |t| {
            for f in F {
                case(c, [s[t[0]], s[t[1]]], [s[t[2]], s[t[3]]], f, shapes2);
            }
            !c.stopped()
        });
    }));
    gs.push(g("3D shapes", |c| {
        let s: [f64; 5] = [0.0, 1.0, -2.5, 10.0, 0.3];
        let n = c.q(4, 5);
        tuples(n, 6, |t| {
            case(c, [s[t[0]], s[t[1]], s[t[2]]], [s[t[3]], s[t[4]], s[t[5]]], F[(t[0] + 2 * t[3] + t[5]) % F.len()], shapes3);
            !c.stopped()
        });
    }));
    gs.push(g("named directions", |c| {
        c.case(
            || "Norm2D/Norm3D constants".into(),
            |_| {
                exact("norm_x", &a2(&Norm2D::norm_x()), &[1.0, 0.0])?;
                exact("norm_y", &a2(&Norm2D::norm_y()), &[0.0, 1.0])?;
                exact("norm_x_neg", &a2(&Norm2D::norm_x_neg()), &[-1.0, 0.0])?;
                exact("norm_y_neg", &a2(&Norm2D::norm_y_neg()), &[0.0, -1.0])?;
                exact("norm_x", &a3(&Norm3D::norm_x()), &[1.0, 0.0, 0.0])?;
                exact("norm_y", &a3(&Norm3D::norm_y()), &[0.0, 1.0, 0.0])?;
                exact("norm_z", &a3(&Norm3D::norm_z()), &[0.0, 0.0, 1.0])?;
                exact("norm_x_neg", &a3(&Norm3D::norm_x_neg()), &[-1.0, 0.0, 0.0])?;
                exact("norm_y_neg", &a3(&Norm3D::norm_y_neg()), &[0.0, -1.0, 0.0])?;
                exact("norm_z_neg", &a3(&Norm3D::norm_z_neg()), &[0.0, 0.0, -1.0])?;
                let d = Plane3D::<Point3D, Norm3D>::default();
                exact("default plane", &a3(&IsPlane3D::origin(&d)), &[0.0; 3])?;
                exact("default plane", &a3(&IsPlane3D::u(&d)), &[1.0, 0.0, 0.0])?;
                exact("default plane", &a3(&IsPlane3D::v(&d)), &[0.0, 1.0, 0.0])
            },
        );
    }));
    // unit vectors of any finite vector, those whose squares can't be represented included
    gs.push(g("unit vectors", |c| {
        let v: [f64; 15] =
            [0.0, -0.0, 1.0, -2.5, 5e-324, 2.2250738585072014e-308, 1e-200, -1e-160, 1e-150, 1e-149, 1e149, 1e150, -1e200, f64::MAX, f64::MIN];
        let bad: [f64; 3] = [f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
        let s: Vec<f64> = v.iter().chain(bad.iter()).cloned().collect();
        tuples(s.len(), 3, |t| {
            let a = [s[t[0]], s[t[1]], s[t[2]]];
            c.state(&("unit", a.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
            c.trans(2);
            c.case(
                || format!("{:?}", a),
                |_| {
                    let unit = |what: &str, v: &[f64], r: Option<Vec<f64>>| -> R {
                        let fine = v.iter().all(|x| x.is_finite()) && v.iter().any(|x| *x != 0.0);
                        ensure!(r.is_some() == fine, "{} of {:?}: {:?}", what, v, r);
                        if let Some(r) = r {
                            ensure!((len(&r) - 1.0).abs() < 1e-12, "{} of {:?}: length {}", what, v, len(&r));
                            let m = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
                            let w: Vec<f64> = v.iter().map(|x| x / m).collect();
                            let l = len(&w);
                            vnear(what, &r, &w.iter().map(|x| x / l).collect::<Vec<_>>(), 10.0)?;
                        }
                        Ok(())
                    };
                    unit("Norm3D", &a, Norm3D::new(p3(a)).ok().map(|n| a3(&n).to_vec()))?;
                    unit("Norm2D", &a[..2], Norm2D::new(p2([a[0], a[1]])).ok().map(|n| a2(&n).to_vec()))
                },
            );
            !c.stopped()
        });
    }));
    gs.push(g("rotation", |c| {
        let s: [f64; 5] = [0.0, 1.0, -2.5, 10.0, 0.3];
        let k = c.q(24, 96);
        for i in -k..=k {
            let r = i as f64 * std::f64::consts::PI / 12.0;
            tuples(s.len(), 4, |t| {
                let (a, o) = ([s[t[0]], s[t[1]]], [s[t[2]], s[t[3]]]);
                c.state(&("rot", i, t.to_vec()));
                c.trans(1);
                c.case(
                    || format!("{:?} around {:?} by {}", a, o, r),
                    |_| {
                        let mut p = p2(a);
                        p.rotate(Rad(r), &p2(o));
                        let (x, y) = (a[0] - o[0], a[1] - o[1]);
                        vnear("rotate", &a2(&p), &[o[0] + x * r.cos() - y * r.sin(), o[1] + x * r.sin() + y * r.cos()], 100.0)
                    },
                );
                !c.stopped()
            });
        }
    }));
    gs.push(g("matrices", |c| {
        // one entry at a time and all entries distinct: every entry of the matrix is told apart
        let mut ms3 = vec![[[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 8.0, 9.0]]];
        let mut ms4 = vec![[[1.0, 2.0, 3.0, 4.0], [5.0, 6.0, 7.0, 8.0], [9.0, 10.0, 11.0, 12.0], [13.0, 14.0, 15.0, 16.0]]];
        for i in 0..16 {
            let mut m = [[0.0f64; 4]; 4];
            m[i / 4][i % 4] = -3.5;
            ms4.push(m);
            let mut m = [[0.0f64; 3]; 3];
            m[i / 4 % 3][i % 3] = -3.5;
            ms3.push(m);
        }
        tuples(A.len(), 3, |t| {
            let a = [A[t[0]], A[t[1]], A[t[2]]];
            for (k, (m3, m4)) in ms3.iter().zip(&ms4).enumerate() {
                c.state(&("mat", k, t.to_vec()));
                c.trans(2);
                c.case(
                    || format!("{:?} {:?} {:?}", a, m3, m4),
                    |_| {
                        let mut m = Matrix4::identity();
                        m.data = *m4;
                        let w: Vec<f64> = (0..3).map(|r| m4[r][0] * a[0] + m4[r][1] * a[1] + m4[r][2] * a[2] + m4[r][3]).collect();
                        vnear("multiply_m", &a3(&p3(a).multiply_m(&m)), &w, 100.0)?;
                        let mut m = Matrix3::identity();
                        m.data = *m3;
                        let w: Vec<f64> = (0..2).map(|r| m3[r][0] * a[0] + m3[r][1] * a[1] + m3[r][2]).collect();
                        vnear("multiply_m", &a2(&p2([a[0], a[1]]).multiply_m(&m)), &w, 100.0)
                    },
                );
            }
            !c.stopped()
        });
    }));
    gs.push(g("text", |c| {
        let words: [&str; 14] = ["1", "-2.5", "0.1", "1e-7", "-0", "+3", "1e400", ".5", "5.", "x", "1,0", "0x1", "--1", "1.0.0"];
        for n in 0..=4usize {
            tuples(words.len(), n, |t| {
                let w: Vec<&str> = t.iter().map(|i| words[*i]).collect();
                for sep in [" ", "  "] {
                    for (pre, post) in [("", ""), (" ", ""), ("", "  ")] {
                        let text = format!("{}{}{}", pre, w.join(sep), post);
                        c.state(&("text", text.clone()));
                        c.trans(2);
                        c.case(
                            || format!("{:?}", text),
                            |_| {
                                let v: Option<Vec<f64>> = w.iter().map(|x| x.parse::<f64>().ok()).collect();
                                let w2 = v.clone().filter(|v| v.len() == 2);
                                let w3 = v.filter(|v| v.len() == 3);
                                let r2 = <Point2D as IsBuildable2D>::parse(&text).ok().map(|p| a2(&p).to_vec());
                                let r3 = <Point3D as IsBuildable3D>::parse(&text).ok().map(|p| a3(&p).to_vec());
                                ensure!(r2 == w2, "2D: {:?} instead of {:?}", r2, w2);
                                ensure!(r3 == w3, "3D: {:?} instead of {:?}", r3, w3);
                                Ok(())
                            },
                        );
                    }
                }
                !c.stopped()
            });
        }
        // what to_str writes is read back exactly
        let s: [f64; 12] = [0.0, -0.0, 1.0, -0.1, 1.0 / 3.0, 1e300, -5e-324, f64::MAX, 123456789.123456, 1e21, 1e-7, f64::EPSILON];
        tuples(s.len(), 3, |t| {
            let a = [s[t[0]], s[t[1]], s[t[2]]];
            c.state(&("back", t.to_vec()));
            c.trans(2);
            c.case(
                || format!("{:?}", a),
                |_| {
                    let bits = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
                    let p = p3(a);
                    ensure!(<Point3D as IsBuildable3D>::parse(&Is3D::to_str(&p)).map_or(false, |q| bits(&a3(&q)) == bits(&a)), "{:?}", Is3D::to_str(&p));
                    let p = p2([a[0], a[1]]);
                    ensure!(<Point2D as IsBuildable2D>::parse(&Is2D::to_str(&p)).map_or(false, |q| bits(&a2(&q)) == bits(&a[..2])), "{:?}", Is2D::to_str(&p));
                    Ok(())
                },
            );
            !c.stopped()
        });
    }));
    gs.push(g("normals of faces", |c| {
        let s: [f64; 3] = [0.0, 1.0, -2.0];
        let pt = |i: usize| [s[i % 3], s[i / 3 % 3], s[i / 9]];
        tuples(27, 3, |t| {
            let (a, b, d) = (pt(t[0]), pt(t[1]), pt(t[2]));
            for (k, (f, m)) in MAGNITUDES.iter().enumerate() {
                let (a, b, d) = (mag(a, *f, *m), mag(b, *f, *m), mag(d, *f, *m));
            c.state(&("face", t.to_vec(), k));
            c.trans(2);
            c.case(
                || format!("{:?} {:?} {:?}", a, b, d),
                |_| {
                    let n = crossv(&zip(b, a, |x, y| x - y), &zip(d, a, |x, y| x - y));
                    let l = len(&n);
                    let got = normal_of_face(&p3(a), &p3(b), &p3(d));
                    if l == 0.0 {
                        return exact("normal of a degenerate face", &a3(&got), &[0.0, 0.0, 1.0]);
                    }
                    let want = zip(n, n, |x, _| x / l);
                    vnear("normal_of_face", &a3(&got), &want, 10.0)?;
                    let mut m = Mesh3D::<Point3D, PointCloud3D<Point3D>, Vec<usize>>::default();
                    m.add_face(p3(a), p3(b), p3(d));
                    match m.face_normal(FId(0)) {
                        Ok(x) => vnear("face_normal", &a3(&x), &want, 10.0)?,
                        Err(e) => ensure!(false, "face_normal {:?}", e),
                    }
                    ensure!(m.face_normal(FId(1)).is_err() && far(1).into_iter().all(|i| m.face_normal(FId(i)).is_err()), "normal of an unknown face");
                    Ok(())
                },
            );
            }
            !c.stopped()
        });
    }));
    gs.push(g("normals of meshes", |c| {
        let pts: [[f64; 3]; 5] = [[0.0, 0.0, 0.0], [2.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 3.0], [1.0, 1.0, 1.0]];
        let mut faces = vec![];
        tuples(5, 3, |t| {
            if t[0] != t[1] && t[1] != t[2] && t[0] != t[2] {
                faces.push([t[0], t[1], t[2]]);
            }
            true
        });
        for n in 0..=3usize {
            tuples(faces.len(), n, |t| {
                let k = t.iter().sum::<usize>() % MAGNITUDES.len();
                let pts = pts.map(|p| mag(p, MAGNITUDES[k].0, MAGNITUDES[k].1));
                c.state(&("mesh", t.to_vec()));
                c.trans(1);
                c.case(
                    || format!("magnitude {} {:?}", k, t.iter().map(|i| faces[*i]).collect::<Vec<_>>()),
                    |_| {
                        let mut m = Mesh3D::<Point3D, PointCloud3D<Point3D>, Vec<usize>>::default();
                        for p in pts {
                            m.add_vertex(p3(p));
                        }
                        let mut sum = [[0.0f64; 3]; 5];
                        for i in t {
                            let [a, b, d] = faces[*i];
                            ensure!(m.try_add_connection(VId(a), VId(b), VId(d)).is_ok(), "face rejected");
                            let n = crossv(&zip(pts[b], pts[a], |x, y| x - y), &zip(pts[d], pts[a], |x, y| x - y));
                            let l = len(&n);
                            for v in [a, b, d] {
                                sum[v] = zip(sum[v], n, |x, y| x + y / l);
                            }
                        }
                        let r = normals_of_mesh(&m);
                        ensure!(r.as_slice().iter().count() == 5, "one normal per vertex expected, got {:?}", r);
                        for v in 0..5 {
                            let l = len(&sum[v]);
                            let got = a3(&r[v]);
                            ensure!((len(&got) - 1.0).abs() < 1e-9, "normal {:?}", got);
                            if l > 1e-6 {
                                vnear(&format!("normal of vertex {}", v), &got, &zip(sum[v], sum[v], |x, _| x / l), 1e4)?;
                            } else if !t.iter().any(|i| faces[*i].contains(&v)) {
                                exact("normal of an isolated vertex", &got, &[0.0, 0.0, 1.0])?;
                            }
                        }
                        Ok(())
                    },
                );
                !c.stopped()
            });
        }
    }));
    gs.push(g("normals of large meshes", |c| {
        for n in sizes(c.thorough()) {
            c.state(&("large", n));
            c.case(
                || format!("{} faces", n),
                |c| {
                    c.trans(n);
                    let mut m = Mesh3D::<Point3D, PointCloud3D<Point3D>, Vec<usize>>::default();
                    // separate faces towards every direction of an axis, and a fan around the first vertex of the first one
                    let dir = |i: usize| {
                        let mut n = [0.0; 3];
                        n[i / 2 % 3] = if i % 2 == 0 { 1.0 } else { -1.0 };
                        n
                    };
                    for i in 0..n {
                        let (a, b) = ((i / 2 + 1) % 3, (i / 2 + 2) % 3);
                        let (a, b) = if i % 2 == 0 { (a, b) } else { (b, a) };
                        let o = [i as f64, -(i as f64), 0.5];
                        let mut p = [o; 3];
                        p[1][a] += 2.0;
                        p[2][b] += 3.0;
                        m.add_face(p3(p[0]), p3(p[1]), p3(p[2]));
                    }
                    for i in 1..n {
                        ensure!(m.try_add_connection(VId(0), VId(3 * i), VId(3 * i - 3)).is_ok() || i == 1, "face rejected");
                    }
                    let r = normals_of_mesh(&m);
                    ensure!(r.as_slice().iter().count() == 3 * n, "one normal per vertex expected, got {}", r.as_slice().iter().count());
                    for i in 0..n {
                        for k in 1..3 {
                            exact(&format!("normal of vertex {}", 3 * i + k), &a3(&r[3 * i + k]), &dir(i))?;
                        }
                        let f = m.face_normal(FId(i));
                        ensure!(f.as_ref().map_or(false, |f| a3(f) == dir(i)), "normal of face {}: {:?}", i, f);
                    }
                    Ok(())
                },
            );
        }
    }));
    gs.push(g("planes and extrusion", |c| {
        let s: [f64; 3] = [0.0, 1.5, -2.0];
        let pt = |i: usize| [s[i % 3], s[i / 3 % 3], s[i / 9]];
        let dirs: [([f64; 3], [f64; 3]); 4] =
            [([1.0, 0.0, 0.0], [0.0, 1.0, 0.0]), ([0.0, 0.0, -1.0], [0.0, 1.0, 0.0]), ([0.6, 0.8, 0.0], [0.0, 0.0, 1.0]), ([0.6, 0.0, 0.8], [-0.8, 0.0, 0.6])];
        for o in 0..27 {
            for p in 0..27 {
                for (k, (u, v)) in dirs.iter().enumerate() {
                    for (j, (f, m)) in MAGNITUDES.iter().enumerate() {
                    let pt = |i: usize| mag(pt(i), *f, *m);
                    let big = 100.0 * f * (1.0 + m.abs());
                    c.state(&("plane", o, p, k, j));
                    c.trans(2);
                    c.case(
                        || format!("origin {:?} point {:?} axes {:?} {:?}", pt(o), pt(p), u, v),
                        |_| {
                            let plane = <Plane3D<Point3D, Norm3D> as IsPlane3D<Point3D, Norm3D>>::new(p3(pt(o)), Norm3D::new(p3(*u)).unwrap(), Norm3D::new(p3(*v)).unwrap());
                            exact("origin", &a3(&IsPlane3D::origin(&plane)), &pt(o))?;
                            let rel = zip(pt(p), pt(o), |x, y| x - y);
                            let r: Point2D = project_point_on_plane(&plane, &p3(pt(p)));
                            vnear("projection", &a2(&r), &[dot(&rel, u).0, dot(&rel, v).0], big)?;
                            let base = vec![p2([pt(o)[0], pt(o)[1]]), p2([pt(p)[2], pt(p)[1]])];
                            let (lo, hi) = extrude(&base[..(o + p) % 3].to_vec(), &p3(*u));
                            let n = (o + p) % 3;
                            ensure!(lo.data.len() == n && hi.data.len() == n, "extruded sizes");
                            for i in 0..n {
                                let w = [base[i].x, base[i].y, 0.0];
                                exact("extruded bottom", &a3(&lo.data[i]), &w)?;
                                vnear("extruded top", &a3(&hi.data[i]), &zip(w, *u, |x, y| x + y), 100.0 + big)?;
                            }
                            Ok(())
                        },
                    );
                    }
                }
            }
        }
    }));
    gs.push(g("numbers and ids", |c| {
        let s: [f64; 8] = [0.0, -0.0, 1.0, -1.0, 1e300, f64::INFINITY, f64::NEG_INFINITY, 5e-324];
        for a in s {
            for b in s {
                c.state(&("minmax", a.to_bits(), b.to_bits()));
                c.trans(4);
                c.case(
                    || format!("{} {}", a, b),
                    |_| {
                        exact("min64", &[min64(a, b)], &[if a < b { a } else { b }])?;
                        exact("max64", &[max64(a, b)], &[if a > b { a } else { b }])?;
                        exact("max_f64", &[max_f64(a, b)], &[if a > b { a } else { b }])?;
                        for d in s {
                            exact("max_f64_3", &[max_f64_3(a, b, d)], &[[a, b, d].iter().cloned().fold(f64::NEG_INFINITY, |m, x| if x > m { x } else { m })])?;
                        }
                        Ok(())
                    },
                );
            }
            c.case(
                || format!("angle {}", a),
                |_| {
                    let f: f64 = Rad(a).into();
                    let h: f64 = Deg(a).into();
                    exact("into", &[f, h], &[a, a])?;
                    exact("as_ref", &[*Rad(a).as_ref(), *Deg(a).as_ref()], &[a, a])?;
                    let mut r = Rad(3.0);
                    *r.as_mut() = a;
                    exact("as_mut", &[r.0], &[a])?;
                    ensure!(format!("{} {}", Rad(a), Deg(a)) == format!("{} {}", a, a), "display");
                    Ok(())
                },
            );
        }
        for a in [0usize, 1, 255, 65536].iter().cloned().chain(far(100_000)) {
            c.case(
                || format!("id {}", a),
                |_| {
                    let f: [usize; 4] = [VId(a).into(), FId(a).into(), EId(a).into(), SId(a).into()];
                    ensure!(f == [a; 4], "into {:?}", f);
                    ensure!([*VId(a).as_ref(), *FId(a).as_ref(), *EId(a).as_ref(), *SId(a).as_ref()] == [a; 4], "as_ref");
                    let mut v = VId(7);
                    *v.as_mut() = a;
                    ensure!(v == VId(a), "as_mut");
                    ensure!(format!("{} {} {} {}", VId(a), FId(a), EId(a), SId(a)) == format!("{} {} {} {}", a, a, a, a), "display");
                    let face = Face3::new(VId(a), VId(1), VId(2));
                    ensure!(Face3::n_vids() == 3 && face.vid(0) == Some(VId(a)) && face.vid(1) == Some(VId(1)) && face.vid(2) == Some(VId(2)), "vid");
                    ensure!(face.vid(3).is_none() && far(3).into_iter().all(|i| face.vid(i).is_none()), "vid outside");
                    Ok(())
                },
            );
        }
    }));
    mc::main(
        Spec {
            prop: "C40",
            level: "model_checking",
            rule: "all pairs of 2D and 3D vectors over three coordinate sets (exact, decimal, extreme magnitudes) x factors through every operation and form (value, reference, boxed, in place, free function, point and unit vector types), all triangles/face lists/planes over lattices, all word sequences for parsing, compared with the definition by coordinate; states = distinct operand tuples, transitions = operations compared",
            assumptions: &["coordinates whose squares are representable (unit vectors: any)"],
        },
        gs,
    )
}
