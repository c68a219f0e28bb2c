//! C16: what is read from a PLY file does not depend on how the file is laid out; a header the reader does not support is
//! rejected, never misread. The files are written by an independent encoder that follows the header.
use mc::io::*;
use mc::*;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Pr {
    /// name, type
    S(String, String),
    /// name, count type, index type, number of values
    L(String, String, String, usize),
}
#[derive(Clone, Debug)]
struct El {
    name: String,
    n: usize,
    props: Vec<Pr>,
}
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Enc {
    A,
    L,
    B,
}
const ENCS: [Enc; 3] = [Enc::A, Enc::L, Enc::B];
const TYPES: [&str; 8] = ["char", "uchar", "short", "ushort", "int", "uint", "float", "double"];
const ALIAS: [&str; 8] = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "float32", "float64"];
const INTS: [&str; 6] = ["char", "uchar", "short", "ushort", "int", "uint"];

fn base(t: &str) -> &str {
    ALIAS.iter().position(|a| *a == t).map(|i| TYPES[i]).unwrap_or(t)
}
fn put(d: &mut Vec<u8>, t: &str, x: f64, e: Enc) {
    let be = e == Enc::B;
    macro_rules! w {
        ($t:ty) => {{
            let y = x as $t;
            d.extend_from_slice(&if be { y.to_be_bytes() } else { y.to_le_bytes() })
        }};
    }
    match base(t) {
        "char" => w!(i8),
        "uchar" => w!(u8),
        "short" => w!(i16),
        "ushort" => w!(u16),
        "int" => w!(i32),
        "uint" => w!(u32),
        "float" => w!(f32),
        _ => w!(f64),
    }
}
/// coordinates of vertex i, exact in every float type and within every integer type
fn coord(i: usize, c: usize, exact: bool) -> f64 {
    let v = [[0.0, 1.0, 2.0], [10.0, 0.0, 13.0], [3.0, 32.0, 45.0], [59.0, 4.0, 5.0], [7.0, 8.0, 9.0]][i % 5][c];
    if exact {
        v
    } else {
        [v + 0.5, -v - 0.25, v * 1024.0][c]
    }
}
fn index(f: usize, j: usize) -> usize {
    [[0, 1, 2, 3], [2, 1, 3, 0], [3, 0, 2, 1]][f % 3][j % 4]
}
/// values that look like line ends, blanks, signs in binary data
fn extra(i: usize, p: usize) -> f64 {
    [10.0, 13.0, 32.0, 0.0, 51.0, 3.0, 127.0][(i * 3 + p) % 7]
}
struct File {
    head: Vec<String>,
    els: Vec<El>,
    enc: Enc,
    exact: bool,
    crlf: bool,
}
impl File {
    fn bytes(&self) -> Vec<u8> {
        let nl = if self.crlf { "\r\n" } else { "\n" };
        let mut h = String::new();
        for l in &self.head {
            h += l;
            h += nl;
        }
        let mut d = h.into_bytes();
        for e in &self.els {
            let is_v = e.name == "vertex";
            for i in 0..e.n {
                let mut vals: Vec<(String, f64)> = vec![];
                for (pi, p) in e.props.iter().enumerate() {
                    match p {
                        Pr::S(n, t) => {
                            let c = ["x", "y", "z"].iter().position(|x| x == n);
                            let v = match c {
                                Some(c) if is_v => coord(i, c, self.exact || !["float", "double"].contains(&base(t))),
                                _ => extra(i, pi),
                            };
                            vals.push((t.clone(), v))
                        }
                        Pr::L(n, t, u, k) => {
                            vals.push((t.clone(), *k as f64));
                            for j in 0..*k {
                                vals.push((u.clone(), if n == "vertex_indices" || n == "vertex_index" { index(i, j) as f64 } else { [1.0, 3.0, 2.0, 0.0][(i + j) % 4] }))
                            }
                        }
                    }
                }
                if self.enc == Enc::A {
                    let w: Vec<String> = vals.iter().map(|v| format!("{}", v.1)).collect();
                    d.extend_from_slice(w.join(" ").as_bytes());
                    d.extend_from_slice(nl.as_bytes());
                } else {
                    for (t, v) in vals {
                        put(&mut d, &t, v, self.enc)
                    }
                }
            }
        }
        d
    }
}
fn header(enc: Enc, els: &[El]) -> Vec<String> {
    let mut v = vec!["ply".to_string(), format!("format {} 1.0", match enc { Enc::A => "ascii", Enc::L => "binary_little_endian", Enc::B => "binary_big_endian" })];
    for e in els {
        v.push(format!("element {} {}", e.name, e.n));
        for p in &e.props {
            v.push(match p {
                Pr::S(n, t) => format!("property {} {}", t, n),
                Pr::L(n, t, u, _) => format!("property list {} {} {}", t, u, n),
            })
        }
    }
    v.push("end_header".into());
    v
}
fn s(n: &str, t: &str) -> Pr {
    Pr::S(n.into(), t.into())
}
fn l(n: &str, t: &str, u: &str, k: usize) -> Pr {
    Pr::L(n.into(), t.into(), u.into(), k)
}
/// The points and faces a file holds; None: it holds no clear x, y and z
fn meaning(f: &File) -> Option<Out> {
    let vs: Vec<&El> = f.els.iter().filter(|e| e.name == "vertex").collect();
    if vs.len() != 1 {
        return None;
    }
    let mut o = Out::default();
    for i in 0..vs[0].n {
        let mut p = [0.0; 3];
        for (c, n) in ["x", "y", "z"].iter().enumerate() {
            let m: Vec<&String> = vs[0].props.iter().filter_map(|q| if let Pr::S(a, t) = q { if a == n { Some(t) } else { None } } else { None }).collect();
            if m.len() != 1 {
                return None;
            }
            p[c] = coord(i, c, f.exact || !["float", "double"].contains(&base(m[0])));
        }
        o.pts.push(b3(p))
    }
    if vs[0].n == 0 {
        for n in ["x", "y", "z"] {
            if vs[0].props.iter().filter(|q| matches!(q, Pr::S(a, _) if a == n)).count() != 1 {
                return None;
            }
        }
    }
    for e in f.els.iter().filter(|e| e.name == "face") {
        for i in 0..e.n {
            for p in &e.props {
                if let Pr::L(n, _, _, k) = p {
                    if n == "vertex_indices" || n == "vertex_index" {
                        for j in 2..*k {
                            o.faces.push([index(i, 0), index(i, j - 1), index(i, j)])
                        }
                        if *k < 3 {
                            // no triangle
                            o.faces.push([usize::MAX; 3])
                        }
                    }
                }
            }
        }
    }
    Some(o)
}
const READERS: [Kind; 3] = [Kind::PlyMesh, Kind::PlyPoints, Kind::PlyEither];
fn key(f: &File) -> String {
    format!("{} ({:?}, crlf {})", f.head.join(" | "), f.enc, f.crlf)
}
/// supported: must be read; otherwise it must be rejected or read correctly
fn check(c: &mut Ctx, f: &File, supported: bool) {
    let d = Rc::new(f.bytes());
    let want = meaning(f);
    for k in READERS {
        c.case(
            || format!("{:?} {}", k, key(f)),
            |c| {
                c.state(&(k, &d[..]));
                c.trans(1);
                let r = load(k, Src::new(&d, Plan::Whole));
                match (&want, r) {
                    (None, Ok(o)) => Err(format!("without clear x, y, z but read as {:?}", o)),
                    (_, Err(e)) => {
                        c.note("rejected", 1);
                        ensure!(!supported, "rejected: {}", e);
                        Ok(())
                    }
                    (Some(w), Ok(o)) => {
                        c.note("read", 1);
                        ensure!(o.pts == w.pts, "read {:?} instead of {:?}", o, w);
                        let faces = match k {
                            Kind::PlyPoints => o.faces.is_empty(),
                            _ if supported || k == Kind::PlyMesh => o.faces == w.faces,
                            // reported as points
                            _ => o.faces == w.faces || o.faces.is_empty(),
                        };
                        ensure!(faces, "read {:?} instead of {:?}", o, w);
                        Ok(())
                    }
                }
            },
        );
    }
    if supported {
        for k in [Kind::PlyMesh, Kind::PlyPoints] {
            c.case(
                || format!("stream {:?} {}", k, key(f)),
                |_| {
                    let items: Vec<Item> = match stream(k, Src::new(&d, Plan::Piece(3))) {
                        Some(Ok(it)) => it.collect::<std::result::Result<Vec<_>, _>>()?,
                        Some(Err(e)) => return Err(e),
                        None => return Ok(()),
                    };
                    let o = assemble(k, &items)?;
                    let w = want.as_ref().unwrap();
                    ensure!(o.pts == w.pts && (k == Kind::PlyPoints || o.faces == w.faces), "streamed {:?} instead of {:?}", o, w);
                    Ok(())
                },
            );
        }
    }
}
fn mk(enc: Enc, els: Vec<El>) -> File {
    File { head: header(enc, &els), els, enc, exact: false, crlf: false }
}
fn el(name: &str, n: usize, props: Vec<Pr>) -> El {
    El { name: name.into(), n, props }
}
const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
const XYZ: [&str; 3] = ["x", "y", "z"];
fn std_face() -> Vec<Pr> {
    vec![l("vertex_indices", "uchar", "int", 3)]
}
fn std_vertex() -> Vec<Pr> {
    vec![s("x", "float"), s("y", "float"), s("z", "float")]
}
/// Every order and type of the coordinates with additional properties in every combination of the four gaps
fn vertex_layouts(c: &mut Ctx, enc: Enc) {
    for o in ORDERS {
        for tm in 0..8 {
            for mask in 0..16 {
                for t in 0..8 {
                    for per in 1..=c.q(1, 2) {
                        if mask == 0 && t > 0 {
                            continue;
                        }
                        let mut props = vec![];
                        for gap in 0..4 {
                            if mask >> gap & 1 == 1 {
                                for j in 0..per {
                                    // neighbouring gaps have different types
                                    props.push(s(&format!("q{}{}", gap, j), TYPES[(t + gap * 3 + j) % 8]))
                                }
                            }
                            if gap < 3 {
                                props.push(s(XYZ[o[gap]], if tm >> o[gap] & 1 == 1 { "double" } else { "float" }))
                            }
                        }
                        check(c, &mk(enc, vec![el("vertex", 4, props), el("face", 2, std_face())]), true);
                        if c.stopped() {
                            return;
                        }
                    }
                }
            }
        }
    }
}
/// Every type of count and index with additional properties in front and behind
fn face_layouts(c: &mut Ctx, enc: Enc) {
    for ct in INTS {
        for it in INTS {
            for name in ["vertex_indices", "vertex_index"] {
                for nb in 0..=c.q(1, 2) {
                    for na in 0..=c.q(1, 2) {
                        for t in 0..8 {
                            if nb + na == 0 && t > 0 {
                                continue;
                            }
                            let mut props = vec![];
                            for j in 0..nb {
                                props.push(s(&format!("b{}", j), TYPES[(t + j) % 8]))
                            }
                            props.push(l(name, ct, it, 3));
                            for j in 0..na {
                                props.push(s(&format!("a{}", j), TYPES[(t + 3 + j) % 8]))
                            }
                            for v in [std_vertex(), vec![s("z", "double"), s("q", "uchar"), s("x", "float"), s("y", "double"), s("r", "short")]] {
                                check(c, &mk(enc, vec![el("vertex", 4, v), el("face", 3, props.clone())]), true);
                            }
                            if c.stopped() {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
}
/// Very many additional properties at one place or everywhere
fn many_properties(c: &mut Ctx, enc: Enc) {
    for n in [9usize, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 1025, 3001, 4097, HUGE] {
        for gaps in [1usize, 2, 4, 8, 16, 32, 63] {
            for t in 0..9usize {
                if n > 300 && ![0, 7, 8].contains(&t) || n > 4097 && (t != 7 || gaps == 63) {
                    continue;
                }
                let fill = |v: &mut Vec<Pr>, gap: usize| {
                    if gaps >> gap & 1 == 1 {
                        for j in 0..n {
                            v.push(s(&format!("q{}_{}", gap, j), TYPES[if t == 8 { j % 8 } else { t }]))
                        }
                    }
                };
                let mut v = vec![];
                for gap in 0..4 {
                    fill(&mut v, gap);
                    if gap < 3 {
                        v.push(s(XYZ[[1, 2, 0][gap]], if gap == 1 { "double" } else { "float" }))
                    }
                }
                let mut f = vec![];
                fill(&mut f, 4);
                f.push(l("vertex_indices", "uchar", "ushort", 3));
                fill(&mut f, 5);
                check(c, &mk(enc, vec![el("vertex", 4, v), el("face", 2, f)]), true);
                if c.stopped() {
                    return;
                }
            }
        }
    }
}
/// Faces of every number of vertices: only triangles are read
fn polygon_sizes(c: &mut Ctx, enc: Enc) {
    let extra: &[usize] = &[511, 512, 515, 768, 771, 1027, 32767, 65535, 65536, 65539, 131075];
    for ct in INTS {
        let max = match ct {
            "char" => 127,
            "uchar" => 255,
            "short" => 32767,
            "ushort" => 65535,
            _ => usize::MAX,
        };
        for k in (0..c.q(320, 520)).chain(extra.iter().cloned()).filter(|k| *k != 3 && *k <= max) {
            for it in ["uchar", "int"] {
                for tail in &[vec![], vec![s("a", "uchar"), s("b", "float")]] {
                    let mut props = vec![l("vertex_indices", ct, it, k)];
                    props.extend(tail.iter().cloned());
                    check(c, &mk(enc, vec![el("vertex", 4, std_vertex()), el("face", 1, props)]), false);
                }
            }
            if c.stopped() {
                return;
            }
        }
    }
}
/// Alternative type names, comments everywhere, line ends, element counts
fn header_texts(c: &mut Ctx, enc: Enc) {
    for i in 0..8 {
        for j in 0..8 {
            let ty = |k: usize| if k < 6 { "float32" } else { "float64" };
            let props = vec![s("q", ALIAS[i]), s("x", ty(i)), s("r", TYPES[j]), s("y", ty(j)), s("z", "float32")];
            let f = vec![s("b", ALIAS[j]), l("vertex_indices", ALIAS[i % 6], ALIAS[j % 6], 3)];
            check(c, &mk(enc, vec![el("vertex", 4, props), el("face", 2, f)]), true);
        }
    }
    // comments (also misleading ones) at every pair of positions
    let els = vec![el("vertex", 4, vec![s("y", "float"), s("q", "uchar"), s("z", "double"), s("x", "float")]), el("face", 2, vec![s("m", "short"), l("vertex_indices", "uchar", "int", 3)])];
    let base = mk(enc, els.clone());
    let comments = ["comment", "comment end_header", "comment property float x", "obj_info element vertex 7", "comment element face 9", "comment   two  blanks "];
    let n = base.head.len();
    for a in 1..n {
        for x in comments {
            for b in a..n {
                for y in ["", "comment property double y", "obj_info"] {
                    for crlf in [false, true] {
                        let mut f = mk(enc, els.clone());
                        f.crlf = crlf;
                        if !y.is_empty() {
                            f.head.insert(b, y.into());
                        } else if b > a {
                            continue;
                        }
                        f.head.insert(a, x.into());
                        check(c, &f, true);
                    }
                }
            }
        }
    }
    // lines of every length before the data
    for k in (0..c.q(300usize, 1500)).chain([1023, 1024, 4095, 4096, 8191, 8192, 8193, 65535, 65536, 70000]) {
        for (word, x) in [("comment", "x"), ("comment", " "), ("comment", "end_header "), ("obj_info", "7 "), ("comment", "property float x "), ("comment", "element vertex 9 ")] {
            let line = format!("{} {}", word, x.repeat(k / x.as_bytes().iter().count() + 1).chars().take(k).collect::<String>());
            for at in [1, 3, n - 1] {
                for crlf in [false, true] {
                    let mut f = mk(enc, els.clone());
                    f.crlf = crlf;
                    f.head.insert(at, line.clone());
                    check(c, &f, true);
                }
            }
        }
        if c.stopped() {
            return;
        }
    }
    // names of every length of properties that are not read
    for k in (2..c.q(150usize, 600)).chain([1024, 4096, 8192, 65536]) {
        let name = "q".repeat(k);
        for pos in 0..4 {
            let mut p = std_vertex();
            p.insert(pos, s(&name, "uchar"));
            check(c, &mk(enc, vec![el("vertex", 4, p), el("face", 2, std_face())]), true);
        }
        let mut q = std_face();
        q.insert(0, s(&name, "float"));
        check(c, &mk(enc, vec![el("vertex", 4, std_vertex()), el("face", 2, q)]), true);
    }
    for nv in 0..6 {
        for nf in 0..4 {
            if nv < 4 && nf > 0 {
                continue;
            }
            for crlf in [false, true] {
                let mut f = mk(enc, vec![el("vertex", nv, std_vertex()), el("face", nf, std_face())]);
                f.crlf = crlf;
                check(c, &f, true);
            }
        }
    }
    // names that are close to the coordinates and the indices are other properties
    for n in ["xx", "X", "nx", "x1", "vx", "", "_x"] {
        for t in ["float", "uchar", "double"] {
            if n.is_empty() {
                continue;
            }
            for pos in 0..4 {
                let mut p = std_vertex();
                p.insert(pos, s(n, t));
                check(c, &mk(enc, vec![el("vertex", 4, p), el("face", 2, std_face())]), true);
            }
        }
    }
}
/// The whole range of every index type, with the largest ones in use
/// indices below zero never become vertices, however many there are
fn negative_indices(c: &mut Ctx, enc: Enc) {
    for (it, ns) in [("char", vec![200usize, 256, 300]), ("short", vec![300, 65536, 65539]), ("int", vec![300, 65536, 70000])] {
        for n in ns {
            let mut v: Vec<i64> = vec![-1, -2, -3, -100, -127, -128];
            if it != "char" {
                v.extend([-129, -255, -256, -257, -32767, -32768]);
            }
            if it == "int" {
                v.extend([-32769, -65535, -65536, -65537, i32::MIN as i64, i32::MIN as i64 + 1]);
            }
            for x in v {
                for slot in 0..3 {
                    for ct in ["uchar", "int"] {
                        let mut d = header(enc, &[el("vertex", n, std_vertex()), el("face", 2, vec![l("vertex_indices", ct, it, 3)])]).join("\n").into_bytes();
                        d.push(b'\n');
                        let mut vals: Vec<Vec<(&str, f64)>> = (0..n).map(|i| vec![("float", i as f64), ("float", 1.0), ("float", 2.0)]).collect();
                        for f in 0..2 {
                            let mut w = vec![(ct, 3.0), (it, 5.0), (it, 1.0), (it, 2.0)];
                            if f == 1 {
                                w[slot + 1].1 = x as f64
                            }
                            vals.push(w)
                        }
                        for v in vals {
                            if enc == Enc::A {
                                d.extend_from_slice((v.as_slice().iter().map(|x| x.1.to_string()).collect::<Vec<_>>().join(" ") + "\n").as_bytes())
                            } else {
                                for (t, x) in v {
                                    put(&mut d, t, x, enc)
                                }
                            }
                        }
                        for k in [Kind::PlyMesh, Kind::PlyEither] {
                            c.case(
                                || format!("{:?} {:?} {} vertices, {} index {} in slot {} (count {})", k, enc, n, it, x, slot, ct),
                                |c| {
                                    c.state(&(k, enc, it, n, x, slot, ct));
                                    c.trans(1);
                                    match load_bytes(k, &d) {
                                        Err(_) => Ok(()),
                                        Ok(o) => Err(format!("read as faces {:?}", o.faces)),
                                    }
                                },
                            );
                        }
                    }
                }
                if c.stopped() {
                    return;
                }
            }
        }
    }
}
fn index_ranges(c: &mut Ctx, enc: Enc) {
    for it in INTS {
        let top: usize = match it {
            "char" => 127,
            "uchar" => 255,
            "short" => 32767,
            "ushort" => 65535,
            _ => 70000,
        };
        for ct in INTS {
            if top > 255 && ct != "uchar" && ct != "uint" {
                continue;
            }
            let faces: Vec<[usize; 3]> = vec![[top, 0, 1], [top / 2, top / 2 + 1, top], [top - 1, top, top / 2 + 2], [255.min(top), 256.min(top - 1), 3], [128.min(top), 126, 10], [32.min(top), 13, 10]];
            let mut d = header(enc, &[el("vertex", top + 1, std_vertex()), el("face", 6, vec![l("vertex_indices", ct, it, 3)])]).join("\n").into_bytes();
            d.push(b'\n');
            let coord = |i: usize| [i as f64, (i % 256) as f64, (i / 256) as f64];
            let mut pts = vec![];
            let mut vals: Vec<Vec<(&str, f64)>> = vec![];
            for i in 0..=top {
                let p = coord(i);
                pts.push(b3(p));
                vals.push(p.iter().map(|x| ("float", *x)).collect())
            }
            for f in &faces {
                vals.push(vec![(ct, 3.0), (it, f[0] as f64), (it, f[1] as f64), (it, f[2] as f64)])
            }
            for v in vals {
                if enc == Enc::A {
                    d.extend_from_slice((v.as_slice().iter().map(|x| x.1.to_string()).collect::<Vec<_>>().join(" ") + "\n").as_bytes())
                } else {
                    for (t, x) in v {
                        put(&mut d, t, x, enc)
                    }
                }
            }
            for k in [Kind::PlyMesh, Kind::PlyEither] {
                c.case(
                    || format!("{:?} {:?} count {} index {} up to {}", k, enc, ct, it, top),
                    |c| {
                        c.state(&(k, enc, ct, it));
                        c.trans(1);
                        let o = load_bytes(k, &d)?;
                        ensure!(o.pts == pts, "other vertices");
                        ensure!(o.faces == faces, "faces {:?} instead of {:?}", o.faces, faces);
                        Ok(())
                    },
                );
            }
        }
    }
}
/// Headers made of all orders of elements, with vertex and face properties of many kinds: read correctly or rejected
fn any_header(c: &mut Ctx, enc: Enc) {
    let vp: Vec<Vec<Pr>> = vec![
        std_vertex(),
        vec![s("x", "double"), s("z", "float"), s("y", "double")],
        vec![s("x", "int"), s("y", "float"), s("z", "float")],
        vec![s("x", "uchar"), s("y", "short"), s("z", "uint")],
        vec![s("x", "float"), s("y", "float")],
        vec![s("y", "float"), s("z", "float"), s("q", "float")],
        vec![],
        vec![s("x", "float"), s("x", "float"), s("y", "float"), s("z", "float")],
        vec![s("x", "float"), s("y", "float"), s("z", "float"), s("x", "float")],
        vec![s("x", "float"), s("y", "float"), s("z", "float"), s("z", "double")],
        vec![s("x", "float"), s("y", "float"), s("y", "float")],
        vec![s("x", "float"), s("y", "float"), s("z", "float"), l("w", "uchar", "int", 2)],
        vec![l("w", "uchar", "float", 2), s("x", "float"), s("y", "float"), s("z", "float")],
        vec![s("x", "float"), l("vertex_indices", "uchar", "float", 2), s("y", "float"), s("z", "float")],
        vec![s("x", "float"), s("y", "float"), s("z", "float"), s("q", "quad")],
        vec![s("x", "float"), s("y", "half"), s("z", "float")],
        vec![s("q", "uchar"), s("x", "float"), s("y", "float"), s("z", "float"), s("nx", "float"), s("ny", "float"), s("nz", "float"), s("red", "uchar"), s("green", "uchar"), s("blue", "uchar"), s("alpha", "uchar")],
    ];
    let fp: Vec<Vec<Pr>> = vec![
        std_face(),
        vec![l("vertex_index", "uint", "ushort", 3)],
        vec![l("vertex_indices", "uchar", "int", 4)],
        vec![l("vertex_indices", "uchar", "int", 2)],
        vec![l("vertex_indices", "uchar", "int", 5)],
        vec![],
        vec![s("q", "uchar")],
        vec![l("other", "uchar", "int", 3)],
        vec![l("old_vertex_indices", "uchar", "int", 3)],
        vec![l("vertex_indices_of", "uchar", "int", 3), l("vertex_indices", "uchar", "int", 3)],
        vec![l("other", "uchar", "int", 3), l("vertex_indices", "uchar", "int", 3)],
        vec![l("vertex_indices", "uchar", "int", 3), l("texcoord", "uchar", "float", 6)],
        vec![l("vertex_indices", "uchar", "int", 3), l("vertex_index", "uchar", "int", 3)],
        vec![l("vertex_indices", "float", "int", 3)],
        vec![l("vertex_indices", "uchar", "float", 3)],
        vec![l("vertex_indices", "uchar", "double", 3)],
        vec![s("a", "int"), l("vertex_indices", "uchar", "int", 3), s("b", "double")],
        vec![s("x", "float"), s("y", "float"), s("z", "float"), l("vertex_indices", "uchar", "int", 3)],
        vec![l("vertex_indices", "uchar", "long", 3)],
    ];
    let op: Vec<Vec<Pr>> = vec![vec![s("vertex1", "int"), s("vertex2", "int")], vec![l("vertex_indices", "uchar", "int", 3)], vec![s("x", "float"), s("y", "float"), s("z", "float")], vec![]];
    let names = ["vertex", "face", "edge", "vertexgroup", "facegroup", "vertices", "material"];
    let mut orders: Vec<Vec<usize>> = vec![];
    for n in 1..=3 {
        tuples(names.len(), n, |t| {
            // vertex and face at most twice, at most one other
            let others = t.iter().filter(|i| **i > 1).count();
            if t.contains(&0) && others <= 1 {
                orders.push(t.to_vec())
            }
            true
        });
    }
    for o in &orders {
        for (vi, v) in vp.iter().enumerate() {
            for (fi, f) in fp.iter().enumerate() {
                if !o.contains(&1) && fi > 0 {
                    continue;
                }
                for (pi, p) in op.iter().enumerate() {
                    if o.iter().all(|i| *i < 2) && pi > 0 {
                        continue;
                    }
                    if !c.thorough() && o.len() > 2 && vi > 2 && fi > 2 && (vi + fi + pi) % 4 > 0 {
                        continue;
                    }
                    let els: Vec<El> = o
                        .iter()
                        .map(|i| match i {
                            0 => el("vertex", 4, v.clone()),
                            1 => el("face", 2, f.clone()),
                            i => el(names[*i], 3, p.clone()),
                        })
                        .collect();
                    let mut file = mk(enc, els);
                    file.exact = true;
                    let supported = (o[..] == [0, 1] && [0, 1, 16].contains(&vi) && [0, 1, 16, 17].contains(&fi)) && file.head.len() > 0;
                    check(c, &file, supported);
                    if c.stopped() {
                        return;
                    }
                }
            }
        }
    }
}
/// Header lines removed, doubled, exchanged, altered: rejected or the same meaning as the changed header has
fn broken_headers(c: &mut Ctx, enc: Enc) {
    let els = vec![el("vertex", 4, vec![s("x", "float"), s("q", "uchar"), s("y", "double"), s("z", "float")]), el("face", 2, std_face())];
    let good = mk(enc, els.clone());
    let n = good.head.len();
    let body = |h: Vec<String>| -> Vec<u8> {
        let mut d = h.join("\n").into_bytes();
        d.push(b'\n');
        let whole = good.bytes();
        let at = good.head.join("\n").len() + 1;
        d.extend_from_slice(&whole[at..]);
        d
    };
    let mut reject = |c: &mut Ctx, what: String, h: Vec<String>, kinds: &[Kind]| {
        let d = body(h);
        for k in kinds {
            c.case(
                || format!("{:?} {} {:?}", k, what, enc),
                |c| {
                    c.state(&(k, &d[..]));
                    c.trans(1);
                    match load_bytes(*k, &d) {
                        Err(_) => Ok(()),
                        Ok(o) => Err(format!("read as {:?}", o)),
                    }
                },
            );
        }
    };
    for a in 0..n {
        // without the vertex part nothing can be read, without the face part no mesh
        let mut h = good.head.clone();
        let gone = h.remove(a);
        if a == 4 {
            // the additional property: the columns shift, which can only be noticed in ascii... not at all
            continue;
        }
        if a <= 6 {
            reject(c, format!("without line {:?}", gone), h, &READERS);
        } else if a == n - 1 {
            reject(c, format!("without line {:?}", gone), h, &READERS);
        } else {
            reject(c, format!("without line {:?}", gone), h, &[Kind::PlyMesh]);
        }
        let mut h = good.head.clone();
        if a != 4 && a != n - 1 {
            h.insert(a, good.head[a].clone());
            let r: &[Kind] = if enc == Enc::A { &[Kind::PlyMesh] } else { &READERS };
            let _ = r;
            reject(c, format!("twice line {:?}", good.head[a]), h, &READERS);
        }
    }
    for (a, t) in [
        (0, "PLY"),
        (0, "plyx"),
        (0, ""),
        (0, "OFF"),
        (1, "format ascii 2.0"),
        (1, "format binary 1.0"),
        (1, "format binary_middle_endian 1.0"),
        (1, "format"),
        (2, "element vertex"),
        (2, "element vertex -1"),
        (2, "element vertex x"),
        (2, "element vertex 4.5"),
        (2, "element vertex 18446744073709551616"),
        (2, "element vertices 4"),
        (3, "property float"),
        (3, "property"),
        (3, "property x float"),
        (3, "property float32x x"),
        (3, "property float xx"),
        (3, "propertyfloat x"),
        (7, "element face"),
        (7, "element face -2"),
        (7, "element face x"),
        (7, "element faces 2"),
        (8, "property list uchar vertex_indices"),
        (8, "property list vertex_indices"),
        (8, "property list uchar"),
        (8, "property list float int vertex_indices"),
        (8, "property list uchar int indices"),
        (9, "endheader"),
        (9, "end_header x"),
        (9, "END_HEADER"),
    ] {
        let mut h = good.head.clone();
        h[a] = t.into();
        let kinds: &[Kind] = if a >= 7 && a < 9 { &[Kind::PlyMesh] } else { &READERS };
        reject(c, format!("line {:?} instead of {:?}", t, good.head[a]), h, kinds);
    }
}
fn odd(c: &mut Ctx) {
    use Must::*;
    let ply = "ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty double y\nproperty float z\nelement face 2\nproperty list uchar int vertex_indices\nend_header\n1.5 -2 70\n30 4e1 8\n5 60 9\n3 0 1 2\n3 1 0 2\n";
    let mut w: Vec<(usize, usize, Must)> = (9..12).flat_map(|l| (0..3).map(move |w| (l, w, Float))).collect();
    w.extend([(2, 2, Count), (6, 2, Count)]);
    w.extend([(0, 0, Exact), (1, 1, Exact), (1, 2, Exact), (2, 1, Exact), (3, 1, Exact), (4, 1, Exact), (3, 2, Exact), (4, 2, Exact), (6, 1, Exact), (7, 2, Exact)]);
    odd_words(c, Kind::PlyPoints, ply, &w, "");
    w.extend((12..14).flat_map(|l| (1..4).map(move |w| (l, w, Count))));
    w.extend([(12, 0, Exact), (13, 0, Exact)]);
    odd_words(c, Kind::PlyMesh, ply, &w, "");
    odd_words(c, Kind::PlyEither, ply, &w, "");
}
fn main() {
    let mut v = vec![g("odd words", odd)];
    for e in ENCS {
        v.push(g(format!("vertex layouts {:?}", e), move |c| vertex_layouts(c, e)));
        v.push(g(format!("face layouts {:?}", e), move |c| face_layouts(c, e)));
        v.push(g(format!("many properties {:?}", e), move |c| many_properties(c, e)));
        v.push(g(format!("polygon sizes {:?}", e), move |c| polygon_sizes(c, e)));
        v.push(g(format!("header texts {:?}", e), move |c| header_texts(c, e)));
        v.push(g(format!("index ranges {:?}", e), move |c| index_ranges(c, e)));
        v.push(g(format!("negative indices {:?}", e), move |c| negative_indices(c, e)));
        v.push(g(format!("any header {:?}", e), move |c| any_header(c, e)));
        v.push(g(format!("broken headers {:?}", e), move |c| broken_headers(c, e)));
    }
    mc::main(
        Spec {
            prop: "C16",
            level: "model_checking",
            rule: "a state is one (reader, file); every order and float type of the coordinates x additional properties of every type in every subset of the gaps x encodings, every count/index type x properties around the list, the whole range of every index type, comments at every pair of positions, all orders of elements x vertex and face property lists, broken headers; files are written by an encoder that only follows the header",
            assumptions: &["supported: float or double coordinates, three indices per face, vertices in front of the faces, no other elements or lists"],
        },
        v,
    )
}
