//! C14: points written as text read back identically.
use mc::io::*;
use mc::*;
use rust_3d::io::*;
use rust_3d::*;

const DELIMS: [&str; 7] = [" ", ";", ",", "\t", "  ", ";;", "\t\t"];
const SEPS: [&str; 2] = ["\n", "\r\n"];

fn values(more: bool) -> Vec<f64> {
    let mut v: Vec<f64> = vec![0.0, -0.0, 1.0, -1.0, 0.1, 1.0 / 3.0, -1e-7, 1e21, 123456789.123456789, 5e-324, f64::MIN_POSITIVE, f64::MAX, -f64::MAX, f64::EPSILON, 1e300, -2.5e-310, 9007199254740993.0, 4503599627370496.5];
    if more {
        // neighbours of powers of two and ten: the values whose shortest text is hardest
        for e in [-1074i32, -1000, -500, -100, -60, -30, -10, -1, 1, 10, 30, 52, 53, 54, 60, 100, 500, 1000, 1023] {
            let x = 2f64.powi(e);
            v.extend_from_slice(&[x, -f64::from_bits(x.to_bits() + 1), f64::from_bits(x.to_bits().saturating_sub(1))]);
        }
        for e in (-307..309).step_by(7) {
            let x: f64 = format!("1e{}", e).parse().unwrap();
            v.extend_from_slice(&[x, f64::from_bits(x.to_bits() + 1), -f64::from_bits(x.to_bits() - 1)]);
        }
    }
    v
}
fn check3(c: &mut Ctx, pts: &[[f64; 3]], d: &str, s: &str) {
    c.case(
        || format!("3D {:?} delimiter {:?} separator {:?}", pts, d, s),
        |c| {
            let v: Vec<Point3D> = pts.iter().map(|p| Point3D::new(p[0], p[1], p[2])).collect();
            let mut w: Vec<u8> = Vec::new();
            save_xyz(&mut w, &v, d, s).map_err(|e| format!("{:?}", e))?;
            c.state(&w[..]);
            c.trans(1);
            let want: Vec<B3> = pts.iter().map(|p| b3(*p)).collect();
            let r = load_bytes(Kind::Xyz, &w)?;
            ensure!(r.pts == want, "{:?} from {:?}", r, String::from_utf8_lossy(&w));
            // from and to other containers
            let mut pc = PointCloud3D::<Point3D>::new();
            for p in v.as_slice() {
                pc.push(p.clone())
            }
            let mut w2: Vec<u8> = Vec::new();
            save_xyz(&mut w2, &pc, d, s).map_err(|e| format!("{:?}", e))?;
            ensure!(w2 == w, "a cloud is written differently");
            let mut back = PointCloud3D::<Point3D>::new();
            load_xyz(&w2[..], &mut back).map_err(|e| format!("{:?}", e))?;
            let got: Vec<B3> = (0..back.len()).map(|i| pb(&back[i])).collect();
            ensure!(got == want, "cloud of {} points", got.as_slice().iter().count());
            Ok(())
        },
    );
}
fn check2(c: &mut Ctx, pts: &[[f64; 2]], d: &str, s: &str) {
    c.case(
        || format!("2D {:?} delimiter {:?} separator {:?}", pts, d, s),
        |c| {
            let v: Vec<Point2D> = pts.iter().map(|p| Point2D::new(p[0], p[1])).collect();
            let mut w: Vec<u8> = Vec::new();
            save_xy(&mut w, &v, d, s).map_err(|e| format!("{:?}", e))?;
            c.state(&w[..]);
            c.trans(1);
            let want: Vec<B3> = pts.iter().map(|p| b3([p[0], p[1], 0.0])).collect();
            let r = load_bytes(Kind::Xy, &w)?;
            ensure!(r.pts == want, "{:?} from {:?}", r, String::from_utf8_lossy(&w));
            let mut pc = PointCloud2D::<Point2D>::new();
            for p in v.as_slice() {
                pc.push(p.clone())
            }
            let mut w2: Vec<u8> = Vec::new();
            save_xy(&mut w2, &pc, d, s).map_err(|e| format!("{:?}", e))?;
            ensure!(w2 == w, "a cloud is written differently");
            let mut back = PointCloud2D::<Point2D>::new();
            load_xy(&w2[..], &mut back).map_err(|e| format!("{:?}", e))?;
            let got: Vec<B3> = (0..back.len()).map(|i| b3([back[i].x, back[i].y, 0.0])).collect();
            ensure!(got == want, "cloud of {} points", got.as_slice().iter().count());
            Ok(())
        },
    );
}
fn singles(c: &mut Ctx, d: &'static str, s: &'static str) {
    check3(c, &[], d, s);
    check2(c, &[], d, s);
    let v = values(false);
    let n = v.as_slice().iter().count();
    // every point over the values
    tuples(n, 3, |t| {
        check3(c, &[[v[t[0]], v[t[1]], v[t[2]]]], d, s);
        !c.stopped()
    });
    tuples(n, 2, |t| {
        check2(c, &[[v[t[0]], v[t[1]]]], d, s);
        !c.stopped()
    });
    for x in values(true) {
        for y in [0.0, x] {
            check3(c, &[[x, y, -x]], d, s);
            check2(c, &[[y, x]], d, s);
        }
    }
}
fn lists(c: &mut Ctx, d: &'static str, s: &'static str) {
    // every list of points over a few
    let p3: [[f64; 3]; 6] = [[0.0, 0.0, 0.0], [1.0, -2.0, 3.5], [-0.0, 1e300, 5e-324], [0.1, 0.2, 0.3], [-1.0, -1.0, -1.0], [1e21, 1e-7, 1.0 / 3.0]];
    let p2: [[f64; 2]; 6] = [[0.0, 0.0], [1.0, -2.0], [-0.0, 1e300], [0.1, 5e-324], [-1.0, -1.0], [1e21, 1e-7]];
    for len in 2..=c.q(4, 5) {
        tuples(6, len, |t| {
            check3(c, &t.iter().map(|i| p3[*i]).collect::<Vec<_>>(), d, s);
            check2(c, &t.iter().map(|i| p2[*i]).collect::<Vec<_>>(), d, s);
            !c.stopped()
        });
    }
    let sp = values(false);
    for n in sizes(c.thorough()) {
        for (_, pts) in patterns(n) {
            // a value with a long or a special text at every interesting place
            for at in [0, 1, n / 2, n - 2, n - 1] {
                let mut p3: Vec<[f64; 3]> = pts.as_slice().iter().map(|p| [p[0] as f64 * 0.1, p[1] as f64, p[2] as f64 / 3.0]).collect();
                p3[at][n % 3] = sp[(n + at) % sp.as_slice().iter().count()];
                let mut p2: Vec<[f64; 2]> = p3.as_slice().iter().map(|p| [p[0], p[2]]).collect();
                p2[at][n % 2] = sp[(n + at) % sp.as_slice().iter().count()];
                check3(c, &p3, d, s);
                check2(c, &p2, d, s);
            }
        }
        if c.stopped() {
            return;
        }
    }
    for n in [10usize, 257, 5000] {
        check3(c, &(0..n).map(|i| [i as f64, 1.0 / (i as f64 + 0.5), -(i as f64) * 1e10]).collect::<Vec<_>>(), d, s);
        check2(c, &(0..n).map(|i| [i as f64, 1.0 / (i as f64 + 0.5)]).collect::<Vec<_>>(), d, s);
    }
}
fn main() {
    let mut v = vec![];
    for d in DELIMS {
        for s in SEPS {
            v.push(g(format!("points {:?} {:?}", d, s), move |c| singles(c, d, s)));
            v.push(g(format!("lists {:?} {:?}", d, s), move |c| lists(c, d, s)));
        }
    }
    mc::main(
        Spec {
            prop: "C14",
            level: "model_checking",
            rule: "a state is one written file; every point over 18 representative values (both zeros, subnormal, largest, values whose text needs all digits), every list up to the length over representative points, every supported delimiter (also repeated) and line separator",
            assumptions: &["supported delimiters: blank, semicolon, comma, tab"],
        },
        v,
    )
}
