//! C15: meshes written as PLY or STL read back as the same mesh; what is written is also decoded independently of the
//! readers of the library.
use mc::io::*;
use mc::*;
use rust_3d::io::*;
use rust_3d::*;

const PLY: [Save; 6] = [Save::PlyAscii, Save::PlyAsciiColored, Save::PlyBinary(false), Save::PlyBinary(true), Save::PlyBinaryColored(false), Save::PlyBinaryColored(true)];

fn rounded(s: Save, p: [f64; 3]) -> [f64; 3] {
    match s {
        Save::PlyBinary(false) | Save::PlyBinaryColored(false) => p.map(|x| x as f32 as f64),
        _ => p,
    }
}
/// Independent decoding of a PLY file: for every element the names of its properties and the values of its rows
struct Elem {
    name: String,
    n: usize,
    props: Vec<(String, Vec<String>)>,
    rows: Vec<Vec<Vec<f64>>>,
}
fn size(t: &str) -> Res<usize> {
    Ok(match t {
        "char" | "uchar" | "int8" | "uint8" => 1,
        "short" | "ushort" | "int16" | "uint16" => 2,
        "int" | "uint" | "float" | "int32" | "uint32" | "float32" => 4,
        "double" | "float64" => 8,
        _ => return Err(format!("unknown type {}", t)),
    })
}
fn num(t: &str, b: &[u8], be: bool) -> Res<f64> {
    let mut v = b.to_vec();
    if be {
        v.reverse()
    }
    let mut a = [0u8; 8];
    a[..v.as_slice().iter().count()].copy_from_slice(&v);
    let u = u64::from_le_bytes(a);
    Ok(match t {
        "uchar" | "ushort" | "uint" | "uint8" | "uint16" | "uint32" => u as f64,
        "char" | "int8" => u as u8 as i8 as f64,
        "short" | "int16" => u as u16 as i16 as f64,
        "int" | "int32" => u as u32 as i32 as f64,
        "float" | "float32" => f32::from_bits(u as u32) as f64,
        "double" | "float64" => f64::from_bits(u),
        _ => return Err(format!("unknown type {}", t)),
    })
}
fn decode(d: &[u8]) -> Res<Vec<Elem>> {
    let mut pos = 0;
    let mut el: Vec<Elem> = vec![];
    let mut fmt = String::new();
    let mut first = true;
    loop {
        let e = d[pos..].iter().position(|b| *b == b'\n').ok_or("header without end")? + pos;
        let l = std::str::from_utf8(&d[pos..e]).map_err(|e| e.to_string())?.to_string();
        pos = e + 1;
        let w: Vec<&str> = l.split(' ').collect();
        if first {
            ensure!(l == "ply", "starts with {:?}", l);
            first = false;
            continue;
        }
        match w[0] {
            "format" => fmt = w[1].to_string(),
            "comment" => (),
            "element" => el.push(Elem { name: w[1].into(), n: w[2].parse().map_err(|_| format!("bad count {:?}", l))?, props: vec![], rows: vec![] }),
            "property" => {
                let e = el.as_mut_slice().last_mut().ok_or("property before element")?;
                let last = w.as_slice().last().unwrap().to_string();
                e.props.push((last, w[1..w.as_slice().iter().count() - 1].iter().map(|s| s.to_string()).collect()))
            }
            "end_header" => break,
            _ => return Err(format!("unknown line {:?}", l)),
        }
    }
    let mut lines = d[pos..].split(|b| *b == b'\n');
    for e in el.as_mut_slice() {
        for _ in 0..e.n {
            let mut row = vec![];
            if fmt == "ascii" {
                let l = std::str::from_utf8(lines.next().ok_or("rows missing")?).map_err(|e| e.to_string())?;
                let mut w = l.split(' ');
                let mut next = || -> Res<f64> { w.next().ok_or("value missing")?.parse().map_err(|_| format!("bad value in {:?}", l)) };
                for (_, t) in e.props.as_slice() {
                    if t[0] == "list" {
                        let n = next()? as usize;
                        row.push((0..n).map(|_| next()).collect::<Res<Vec<f64>>>()?)
                    } else {
                        row.push(vec![next()?])
                    }
                }
                ensure!(w.next().is_none(), "more values in {:?}", l);
            } else {
                let be = fmt == "binary_big_endian";
                ensure!(be || fmt == "binary_little_endian", "format {:?}", fmt);
                let mut next = |t: &str| -> Res<f64> {
                    let n = size(t)?;
                    let b = d.get(pos..pos + n).ok_or("bytes missing")?;
                    pos += n;
                    num(t, b, be)
                };
                for (_, t) in e.props.as_slice() {
                    if t[0] == "list" {
                        let n = next(&t[1])? as usize;
                        row.push((0..n).map(|_| next(&t[2])).collect::<Res<Vec<f64>>>()?)
                    } else {
                        row.push(vec![next(&t[0])?])
                    }
                }
            }
            e.rows.push(row)
        }
    }
    if fmt == "ascii" {
        ensure!(lines.next() == Some(b"") && lines.next().is_none(), "something behind the last row");
    } else {
        ensure!(pos == d.iter().count(), "{} bytes behind the last row", d.iter().count() - pos);
    }
    Ok(el)
}
fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}
fn check_ply(c: &mut Ctx, s: Save, pts: &[[f64; 3]], faces: &[[usize; 3]]) {
    c.case(
        || format!("{:?} {:?} {:?}", s, &pts[..pts.len().min(6)], &faces[..faces.len().min(6)]),
        |c| {
            let m = build_mesh(pts, faces);
            let mut w: Vec<u8> = Vec::new();
            save(s, &m, &mut w)?;
            c.state(&w[..]);
            c.trans(1);
            let want: Vec<[f64; 3]> = pts.iter().map(|p| rounded(s, *p)).collect();
            let wb: Vec<B3> = want.as_slice().iter().map(|p| b3(*p)).collect();
            for k in [Kind::PlyMesh, Kind::PlyEither] {
                let r = load_bytes(k, &w)?;
                ensure!(r.pts == wb, "{:?}: vertices {:?}", k, r);
                ensure!(r.faces == faces, "{:?}: faces {:?}", k, r);
            }
            let r = load_bytes(Kind::PlyPoints, &w)?;
            ensure!(r.pts == wb, "points {:?}", r);
            // independent decoding
            let el = decode(&w)?;
            ensure!(el.as_slice().iter().map(|e| e.name.as_str()).collect::<Vec<_>>() == ["vertex", "face"], "elements");
            let col = |n: &str| el[0].props.as_slice().iter().position(|p| p.0 == n).ok_or(format!("no property {}", n));
            let (x, y, z) = (col("x")?, col("y")?, col("z")?);
            ensure!(el[0].rows.as_slice().iter().count() == pts.len() && el[1].rows.as_slice().iter().count() == faces.len(), "row counts");
            for (r, p) in el[0].rows.as_slice().iter().zip(want.as_slice()) {
                ensure!(same(r[x][0], p[0]) && same(r[y][0], p[1]) && same(r[z][0], p[2]), "vertex written as {:?} instead of {:?}", r, p);
            }
            for (r, f) in el[1].rows.as_slice().iter().zip(faces) {
                ensure!(r[0] == f.iter().map(|i| *i as f64).collect::<Vec<_>>(), "face written as {:?} instead of {:?}", r, f);
            }
            if matches!(s, Save::PlyAsciiColored | Save::PlyBinaryColored(_)) {
                let (r, g, b) = (col("red")?, col("green")?, col("blue")?);
                for (row, q) in el[0].rows.as_slice().iter().zip(colors(pts.len()).as_slice()) {
                    ensure!([row[r][0], row[g][0], row[b][0]] == [q.r as f64, q.g as f64, q.b as f64], "color written as {:?} instead of {:?}", row, q);
                }
            }
            Ok(())
        },
    );
}
fn check_stl(c: &mut Ctx, pts: &[[f64; 3]], faces: &[[usize; 3]]) {
    c.case(
        || format!("stl {:?} {:?}", &pts[..pts.len().min(6)], &faces[..faces.len().min(6)]),
        |c| {
            let m = build_mesh(pts, faces);
            let mut w: Vec<u8> = Vec::new();
            save(Save::StlAscii, &m, &mut w)?;
            c.state(&w[..]);
            c.trans(1);
            let flat: Vec<B3> = faces.iter().flat_map(|f| f.iter().map(|i| b3(pts[*i]))).collect();
            let all: Vec<[usize; 3]> = (0..faces.len()).map(|i| [3 * i, 3 * i + 1, 3 * i + 2]).collect();
            for f in [Fm::Ascii, Fm::Auto] {
                let d = load_bytes(Kind::StlDuped(f), &w)?;
                ensure!(d.pts == flat && d.faces == all, "duplicated vertices: {:?}", d);
                let t = load_bytes(Kind::StlTriplets(f), &w)?;
                ensure!(t.pts == flat, "triplets: {:?}", t);
                ensure!(t.normals == d.normals && t.normals.as_slice().iter().count() == faces.len(), "normals");
                let u = load_bytes(Kind::StlUnique(f), &w)?;
                // the triangles whose three positions differ
                let pos = |p: usize| pts[p].map(|x| if x == 0.0 { 0.0f64.to_bits() } else { x.to_bits() });
                let proper: Vec<[usize; 3]> = faces.iter().copied().filter(|f| pos(f[0]) != pos(f[1]) && pos(f[0]) != pos(f[2]) && pos(f[1]) != pos(f[2])).collect();
                let got: Vec<[[f64; 3]; 3]> = u.faces.as_slice().iter().map(|f| f.map(|i| f3(&u.pts[i]))).collect();
                let exp: Vec<[[f64; 3]; 3]> = proper.as_slice().iter().map(|f| f.map(|i| pts[i])).collect();
                ensure!(got == exp, "unique vertices: {:?}", u);
                // normals: unit and perpendicular where the triangle has an area that can be computed
                let usual = !pts.iter().flatten().any(|x| x.abs() > 1e6 || *x != 0.0 && x.abs() < 1e-6);
                for (f, n) in faces.iter().zip(d.normals.as_slice()).filter(|_| usual) {
                    let [a, b, e] = f.map(|i| pts[i]);
                    let u = [b[0] - a[0], b[1] - a[1], b[2] - a[2]];
                    let v = [e[0] - a[0], e[1] - a[1], e[2] - a[2]];
                    let x = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]];
                    let l = (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]).sqrt();
                    let n = f3(n);
                    if l > 1e-6 {
                        let len = |p: [f64; 3]| (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).sqrt();
                        // rounding of needle-like triangles
                        let tol = 1e-9 + 1e-14 * (len(u) * len(v) + (len(a) + len(b) + len(e)) * (len(u) + len(v))) / l;
                        ensure!((0..3).all(|i| (n[i] - x[i] / l).abs() < tol), "normal {:?} of {:?} {:?} {:?}", n, a, b, e);
                    }
                }
            }
            Ok(())
        },
    );
}
fn face_list(nv: usize) -> Vec<[usize; 3]> {
    let mut v = vec![];
    for a in 0..nv {
        for b in 0..nv {
            for c in 0..nv {
                if a != b && a != c && b != c {
                    v.push([a, b, c])
                }
            }
        }
    }
    v
}
/// All meshes with up to four vertices over representative positions and up to `nf` faces
fn small(c: &mut Ctx, saves: &[Save], stl: bool, nv: usize, nf: usize) {
    let vals: [[f64; 3]; 6] = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.5, -0.25], [0.1, 1e30, -1e-30], [-0.0, 0.0, 3.0], [2.0, 0.0, 0.0]];
    let fl = face_list(nv);
    tuples(vals.len(), nv, |t| {
        let pts: Vec<[f64; 3]> = t.iter().map(|i| vals[*i]).collect();
        for n in 0..=nf {
            let m = fl.as_slice().iter().count();
            tuples(m, n, |q| {
                let faces: Vec<[usize; 3]> = q.iter().map(|i| fl[*i]).collect();
                for s in saves {
                    check_ply(c, *s, &pts, &faces);
                }
                if stl {
                    check_stl(c, &pts, &faces);
                }
                !c.stopped()
            });
        }
        !c.stopped()
    });
}
fn special(c: &mut Ctx) {
    // coordinates that do not fit into the precision, all special ones
    let v: [f64; 16] = [0.0, -0.0, 0.1, 1.0 / 3.0, 1e39, -1e39, 1e-46, 1e-40, f64::MAX, f64::MIN_POSITIVE, 5e-324, 16777217.0, 1.00000005960464477539, f32::MAX as f64, 3.4028235677973366e38, -1e21];
    tuples(v.iter().count(), 3, |t| {
        let pts = [[v[t[0]], v[t[1]], v[t[2]]], [v[t[1]], v[t[2]], v[t[0]]], [v[t[2]], v[t[2]], v[t[2]]]];
        for s in PLY {
            check_ply(c, s, &pts, &[[0, 1, 2]]);
        }
        check_stl(c, &pts, &[[0, 1, 2]]);
        !c.stopped()
    });
    // many vertices: indices and counts beyond 8 and 16 bits
    for n in [200usize, 300, 40_000, 70_000] {
        let pts: Vec<[f64; 3]> = (0..n).map(|i| [i as f64 * 0.25, (i % 7) as f64, (i % 11) as f64]).collect();
        let faces: Vec<[usize; 3]> = (0..n - 2).map(|i| [i, n - 1, i + 1]).filter(|f| f[2] != n - 1).chain([[0, 127, 128], [255 % n, 256 % n, 0], [65_535 % n, 65_536 % n, 2]]).filter(|f| f[0] != f[1] && f[1] != f[2] && f[0] != f[2]).collect();
        for s in PLY {
            check_ply(c, s, &pts, &faces);
        }
        if n < 1000 {
            check_stl(c, &pts, &faces);
        }
    }
}
/// meshes of every size class, with and without coincident vertices
fn large(c: &mut Ctx, n: usize) {
    for (_, pts) in patterns(n) {
        for (k, off) in [(1.0, 0.0), (0.1, -7.0), (-1.0 / 3.0, 0.125)] {
            if n >= HUGE && k != 1.0 {
                continue;
            }
            let p: Vec<[f64; 3]> = pts.as_slice().iter().map(|p| [p[0] as f64 * k + off, p[1] as f64 * k, p[2] as f64 * k - off]).collect();
            let strip: Vec<[usize; 3]> = (2..n).map(|i| if i % 2 == 0 { [i - 2, i - 1, i] } else { [i - 1, i - 2, i] }).collect();
            let far: Vec<[usize; 3]> = (0..2 * n).map(|i| [i % n, (i * 5 + 1) % n, (n - 1 - i % n + i / n) % n]).filter(|f| f[0] != f[1] && f[1] != f[2] && f[0] != f[2]).collect();
            for f in [&strip, &far] {
                for s in PLY {
                    check_ply(c, s, &p, f);
                }
                check_stl(c, &p, f);
                if c.stopped() {
                    return;
                }
            }
        }
    }
}
/// Colors have to match the vertices
fn color_counts(c: &mut Ctx) {
    for nv in 0..6usize {
        for nc in 0..8usize {
            for b in 0..3 {
                c.case(
                    || format!("{} vertices {} colors variant {}", nv, nc, b),
                    |c| {
                        c.state(&(nv, nc, b));
                        let m = build_mesh(&vec![[1.0, 2.0, 3.0]; nv], &[]);
                        let mut w: Vec<u8> = vec![];
                        let col = colors(nc);
                        let r = match b {
                            0 => save_ply_ascii_colored(&mut w, &m, &col),
                            1 => save_ply_binary_colored(&mut w, &m, &Precision::P32, &col),
                            _ => save_ply_binary_colored(&mut w, &m, &Precision::P64, &col),
                        };
                        ensure!(r.is_ok() == (nv == nc), "{:?}", r);
                        Ok(())
                    },
                );
            }
        }
    }
}
/// All color values appear in the file as they are
fn color_values(c: &mut Ctx) {
    for s in 0..3 {
        for x in 0..=255u8 {
            c.case(
                || format!("variant {} color value {}", s, x),
                |c| {
                    c.state(&(s, x));
                    let m = build_mesh(&[[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]], &[]);
                    let col = vec![Rgb::new(x, 1, 2), Rgb::new(255 - x, x, x)];
                    let mut w: Vec<u8> = vec![];
                    match s {
                        0 => save_ply_ascii_colored(&mut w, &m, &col),
                        1 => save_ply_binary_colored(&mut w, &m, &Precision::P32, &col),
                        _ => save_ply_binary_colored(&mut w, &m, &Precision::P64, &col),
                    }
                    .map_err(|e| format!("{:?}", e))?;
                    let el = decode(&w)?;
                    for (row, q) in el[0].rows.as_slice().iter().zip(col.as_slice()) {
                        ensure!([row[3][0], row[4][0], row[5][0]] == [q.r as f64, q.g as f64, q.b as f64], "{:?} for {:?}", row, q);
                    }
                    let r = load_bytes(Kind::PlyPoints, &w)?;
                    ensure!(r.pts == [b3([1.0, 2.0, 3.0]), b3([4.0, 5.0, 6.0])], "{:?}", r);
                    Ok(())
                },
            );
        }
    }
}
fn main() {
    let mut v = vec![];
    for s in PLY {
        v.push(g(format!("{:?} up to 2 vertices", s), move |c| {
            for n in 0..3 {
                small(c, &[s], false, n, 0)
            }
        }));
        v.push(g(format!("{:?} 3 vertices", s), move |c| small(c, &[s], false, 3, c.q(2, 3))));
        v.push(g(format!("{:?} 4 vertices", s), move |c| small(c, &[s], false, 4, c.q(1, 2))));
    }
    v.push(g("stl 3 vertices", |c| {
        small(c, &[], true, 0, 0);
        small(c, &[], true, 3, c.q(2, 3))
    }));
    v.push(g("stl 4 vertices", |c| small(c, &[], true, 4, c.q(1, 2))));
    for n in sizes(true) {
        v.extend(parts(format!("large {}", n), if n > 1000 { 8 } else { 1 }, move |c| {
            if c.size(n, HUGE) {
                large(c, n)
            }
        }));
    }
    v.push(g("special", special));
    v.push(g("color counts", color_counts));
    v.push(g("color values", color_values));
    mc::main(
        Spec {
            prop: "C15",
            level: "model_checking",
            rule: "a state is one written file; every mesh with up to four vertices over representative positions (coincident ones, both zeros, huge and tiny values) and every face list up to the length, every writer; every triple of special coordinates; large meshes with indices beyond 8 and 16 bits",
            assumptions: &["there is no binary STL writer in the library"],
        },
        v,
    )
}
