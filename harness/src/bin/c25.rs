//! C25: a file that ends before the contents it declares is an error, never a shorter result presented as success.
use mc::io::*;
use mc::*;

/// Positions p (start < p <= end) where cutting the file leaves complete contents, or cuts its last number (which can't be
/// noticed): start, end of the token, end.
fn zones(s: &Sample, k: Kind) -> Vec<(usize, usize, usize)> {
    let d = &s.data;
    let n = d.len();
    let t = String::from_utf8_lossy(d).to_string();
    // zone of the token that ends at e
    let tok = |e: usize, end: usize| {
        let mut a = e;
        while a > 0 && !(d[a - 1] as char).is_whitespace() {
            a -= 1
        }
        (a, e, end)
    };
    match k {
        Kind::Pts => {
            let b = t.find("6\n1\n").unwrap() + 1;
            let z = t.find(" 90").unwrap() + 3;
            vec![(0, 0, 0), tok(b, b + 1), tok(z, n)]
        }
        Kind::Ptx => {
            let b = t.find("6 0.5\n").unwrap() + 1;
            let z = t.find("9 0.25").unwrap() + 1;
            vec![(0, 0, 0), tok(b, b + 5), tok(z, n)]
        }
        Kind::StlDuped(_) | Kind::StlUnique(_) | Kind::StlTriplets(_) if s.text => {
            let first = t.find("endfacet").unwrap() + 8;
            let last = t.rfind("endfacet").unwrap() + 8;
            vec![(4, 5, 11), (first - 1, first, first + 1), (last - 1, last, n)]
        }
        _ if s.text => {
            let e = *s.complete.last().unwrap();
            vec![tok(e, n)]
        }
        _ => {
            let e = *s.complete.last().unwrap();
            vec![(e - 1, e, n)]
        }
    }
}
fn cut(c: &mut Ctx, i: usize) {
    let s = &corpus()[i];
    if s.complete.is_empty() {
        return;
    }
    let n = s.data.len();
    for (k, w) in s.kinds.iter().zip(&s.want) {
        let z = zones(s, *k);
        for p in 0..n {
            if c.stopped() {
                return;
            }
            c.case(
                || format!("{} {:?} cut at {} of {}: {:?}", s.name, k, p, n, String::from_utf8_lossy(&s.data[p.saturating_sub(20)..p])),
                |c| {
                    c.state(&(&s.name, k, p));
                    c.trans(1);
                    let r = load_bytes(*k, &s.data[..p]);
                    let zone = z.iter().position(|z| p > z.0 && p <= z.2 || p == 0 && z.2 == 0);
                    match (zone, r) {
                        (None, Ok(o)) => return Err(format!("loaded {:?}", o)),
                        (None, Err(_)) => c.note("rejected", 1),
                        (Some(j), Ok(o)) => {
                            c.note("complete", 1);
                            // what is loaded begins with everything complete
                            ensure!(w.pts.len() >= o.pts.len() && w.faces.len() >= o.faces.len(), "more loaded than the whole file has: {:?}", o);
                            if j + 1 == z.len() {
                                ensure!(w.pts.len() == o.pts.len() && w.faces.len() == o.faces.len() && w.normals.len() == o.normals.len(), "{:?} instead of {:?}", o, w);
                                ensure!(p < z[j].1 || o == *w, "{:?} instead of {:?}", o, w);
                            } else {
                                let m = o.pts.len();
                                ensure!(m == 0 || o.pts[..m - 1] == w.pts[..m - 1] && (p < z[j].1 || o.pts[m - 1] == w.pts[m - 1]), "{:?} is no begin of {:?}", o, w);
                                ensure!(o.faces[..] == w.faces[..o.faces.len()], "{:?} is no begin of {:?}", o, w);
                            }
                        }
                        (Some(j), Err(e)) => ensure!(p < z[j].1 || p > z[j].1 + 1 || j + 1 < z.len(), "complete but rejected: {}", e),
                    }
                    Ok(())
                },
            );
        }
    }
}
/// Files of many elements cut at many positions
fn large(c: &mut Ctx, n: usize, wide: bool) {
    for (i, f) in if wide { wide_files(n) } else { large_files(n) }.iter().enumerate() {
        if !f.declares {
            continue;
        }
        let len = f.data.as_slice().iter().count();
        let mut at = if wide && (len < 4000 || c.thorough()) { (0..=len).collect() } else { positions(len) };
        at.extend(positions(f.need));
        for p in at {
            if p == 0 || p > f.need && p < len || c.stopped() {
                continue;
            }
            c.case(
                || format!("{} {} {:?} cut at {} of {}", n, if wide { "more bytes per line or element" } else { "points" }, f.kind, p, len),
                |c| {
                    c.state(&(n, i, p));
                    c.trans(1);
                    let r = load_bytes(f.kind, &f.data[..p]);
                    if p == len {
                        return r.map(|_| ());
                    }
                    if let Ok(o) = r {
                        return Err(format!("loaded {} points {} faces", o.pts.len(), o.faces.len()));
                    }
                    c.note("rejected", 1);
                    Ok(())
                },
            );
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum F {
    OffV,
    OffF,
    Pts,
    PtsSecond,
    PtxRows,
    PtxColumns,
    PtxSecond,
    Las,
    Las14,
    Psl,
    PslLines,
    PslPoints,
    Stl,
    Ply(u8, bool),
}
/// A file that declares a elements of a kind and has b of them
fn declared(f: F, a: usize, b: usize) -> Vec<(Kind, Vec<u8>)> {
    let v = |n: usize| (0..n).map(|i| format!("{} {} 7\n", i, i * i)).collect::<String>();
    let fc = |n: usize| (0..n).map(|i| format!("3 {} {} {}\n", i % 3, (i + 1) % 3, (i + 2) % 3)).collect::<String>();
    let ptx = |c: usize, r: usize, n: usize| format!("{}\n{}\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n{}", c, r, v(n));
    match f {
        F::OffV => {
            let t = format!("OFF\n{} 0 0\n{}", a, v(b)).into_bytes();
            vec![(Kind::OffMesh, t.clone()), (Kind::OffPoints, t)]
        }
        F::OffF => vec![(Kind::OffMesh, format!("OFF\n3 {} 0\n{}{}", a, v(3), fc(b)).into_bytes())],
        F::Pts => vec![(Kind::Pts, format!("{}\n{}", a, v(b)).into_bytes())],
        F::PtsSecond => vec![(Kind::Pts, format!("2\n{}{}\n{}", v(2), a, v(b)).into_bytes())],
        F::PtxRows => vec![(Kind::Ptx, ptx(1, a, b).into_bytes())],
        F::PtxColumns => vec![(Kind::Ptx, ptx(a, 1, b).into_bytes())],
        F::PtxSecond => vec![(Kind::Ptx, (ptx(1, 2, 2) + &ptx(2, a, 2 * b)).into_bytes())],
        F::Las | F::Las14 => {
            let mut l = LasFile { recs: (0..b).map(|i| [i as i32, 2, 3]).collect(), ..Default::default() };
            if f == F::Las {
                l.minor = 2;
                l.header_size = 227;
                l.legacy_count = a as u32
            } else {
                l.count = a as u64
            }
            vec![(Kind::Las, l.bytes())]
        }
        F::Psl => {
            let mut d = enc_psl(&vec![vec![vec![[1.0f32; 3]; 2]]; b]);
            d[136..140].copy_from_slice(&(a as i32).to_le_bytes());
            vec![(Kind::Psl, d)]
        }
        F::PslLines => {
            let mut d = enc_psl(&[vec![vec![[1.0f32; 3]; 2]; b]]);
            d[512..516].copy_from_slice(&(a as i32).to_le_bytes());
            vec![(Kind::Psl, d)]
        }
        F::PslPoints => {
            let mut d = enc_psl(&[vec![vec![[1.0f32; 3]; b]]]);
            d[576..580].copy_from_slice(&(a as i32).to_le_bytes());
            vec![(Kind::Psl, d)]
        }
        F::Stl => {
            let mut d = enc_stl_binary(&[b'h'; 80], &vec![[[0f32; 3], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]; b], 0);
            d[80..84].copy_from_slice(&(a as u32).to_le_bytes());
            [Fm::Binary, Fm::Auto].iter().flat_map(|f| [Kind::StlDuped(*f), Kind::StlUnique(*f), Kind::StlTriplets(*f)]).map(|k| (k, d.clone())).collect()
        }
        F::Ply(fmt, faces) => {
            let name = ["ascii", "binary_little_endian", "binary_big_endian"][fmt as usize];
            let (nv, nf) = if faces { (3, a) } else { (a, 0) };
            let (hv, hf) = if faces { (3, b) } else { (b, 0) };
            let mut d = format!("ply\nformat {} 1.0\nelement vertex {}\nproperty float x\nproperty float y\nproperty double z\nelement face {}\nproperty list uchar ushort vertex_indices\nend_header\n", name, nv, nf).into_bytes();
            if fmt == 0 {
                d.extend_from_slice((v(hv) + &fc(hf)).as_bytes())
            } else {
                let be = fmt == 2;
                for i in 0..hv {
                    push32(&mut d, i as f32, be);
                    push32(&mut d, 2.0, be);
                    d.extend_from_slice(&if be { 3f64.to_be_bytes() } else { 3f64.to_le_bytes() });
                }
                for i in 0..hf {
                    d.push(3);
                    for j in 0..3 {
                        let x = ((i + j) % 3) as u16;
                        d.extend_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() });
                    }
                }
            }
            let mut r = vec![(Kind::PlyMesh, d.clone()), (Kind::PlyEither, d.clone())];
            if !faces {
                r.push((Kind::PlyPoints, d))
            }
            r
        }
    }
}
const FORMATS: [F; 19] = [
    F::OffV,
    F::OffF,
    F::Pts,
    F::PtsSecond,
    F::PtxRows,
    F::PtxColumns,
    F::PtxSecond,
    F::Las,
    F::Las14,
    F::Psl,
    F::PslLines,
    F::PslPoints,
    F::Stl,
    F::Ply(0, false),
    F::Ply(0, true),
    F::Ply(1, false),
    F::Ply(1, true),
    F::Ply(2, false),
    F::Ply(2, true),
];
/// Every pair of declared and present numbers of elements
fn counts(c: &mut Ctx, f: F) {
    let n = c.q(12, 40);
    let mut all: Vec<(usize, usize)> = vec![];
    for a in 0..=n {
        for b in 0..=a {
            all.push((a, b))
        }
    }
    for a in [255usize, 256, 257, 65_535, 65_536, 70_000, 1 << 31, u32::MAX as usize] {
        if a > i32::MAX as usize && matches!(f, F::Psl | F::PslLines | F::PslPoints) {
            continue;
        }
        for b in [0, 1, 7] {
            all.push((a, b));
        }
        if a <= 65_536 {
            for m in [-1i64, 0] {
                all.push((a, (a as i64 + m) as usize))
            }
        }
    }
    for (a, b) in all {
        for (k, d) in declared(f, a, b) {
            if c.stopped() {
                return;
            }
            c.case(
                || format!("{:?} {:?} declares {} has {}", f, k, a, b),
                |c| {
                    c.state(&(k, format!("{:?}", f), a, b));
                    c.trans(b);
                    let r = load_bytes(k, &d);
                    if a > b {
                        if let Ok(o) = r {
                            return Err(format!("loaded {:?}", o));
                        }
                    } else {
                        let o = r?;
                        let points = |per: usize, more: usize| {
                            ensure!(o.pts.len() == per * a + more, "{} points instead of {}", o.pts.len(), per * a + more);
                            Ok(())
                        };
                        match f {
                            F::OffF | F::Ply(_, true) => ensure!(o.faces.len() == a, "{} faces instead of {}", o.faces.len(), a),
                            F::PtsSecond => points(1, 2)?,
                            F::PtxSecond => points(2, 2)?,
                            F::Psl | F::PslLines => points(2, 0)?,
                            F::Stl => ensure!(o.normals.len() == a, "{} normals", o.normals.len()),
                            _ => points(1, 0)?,
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}
/// Text formats: every line (and every pair of lines) of the declared contents missing
fn missing_lines(c: &mut Ctx, i: usize) {
    let s = &corpus()[i];
    if s.complete.is_empty() || !s.text {
        return;
    }
    let t = String::from_utf8(s.data.clone()).unwrap();
    let lines: Vec<&str> = t.lines().collect();
    // the lines of the contents, not of the header or the counts
    let from = lines.iter().position(|l| *l == "end_header").map(|p| p + 1).unwrap_or(1);
    let skip = |l: &str| l.starts_with('#') || l == "OFF" || l.starts_with("endsolid") || !l.contains(' ');
    for k in &s.kinds {
        // points readers do not need the faces
        let need = if matches!(k, Kind::OffPoints | Kind::PlyPoints) && t.contains("\n3 0") { lines.iter().position(|l| l.starts_with("3 0")).unwrap() } else { lines.len() };
        for a in from..need {
            if skip(lines[a]) {
                continue;
            }
            let d: String = lines.iter().enumerate().filter(|(j, _)| *j != a).map(|(_, l)| format!("{}\n", l)).collect();
            c.case(
                || format!("{} {:?} without line {}: {:?}", s.name, k, a + 1, lines[a]),
                |c| {
                    c.state(&(&s.name, k, a));
                    c.trans(1);
                    match load_bytes(*k, d.as_bytes()) {
                        Err(_) => Ok(()),
                        // a point file may go on with other lines that look like points
                        Ok(_) if matches!(k, Kind::OffPoints | Kind::PlyPoints) => Ok(()),
                        Ok(o) => Err(format!("loaded {:?}", o)),
                    }
                },
            );
        }
    }
}
/// Binary PLY files with further properties, and LAS files with longer records, ending anywhere within their elements
fn properties_cut(c: &mut Ctx, be: bool, faces: bool) {
    let types = [("char", 1usize), ("short", 2), ("float", 4), ("double", 8)];
    // nothing, or one or two of each type
    let mut extra: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..4 {
        extra.push(vec![i]);
        extra.push(vec![i, (i + 1) % 4]);
    }
    let some: Vec<usize> = if c.thorough() { (0..extra.len()).collect() } else { vec![0, 1, 4, 8] };
    let put = |d: &mut Vec<u8>, n: usize| (0..n).for_each(|k| d.push(if k == 0 { 3 } else { 0 }));
    for slot in 0..4usize {
        for x in 0..extra.len() {
            for y in some.iter() {
                // at the given slot among the coordinates, and behind the last one; faces get the second one
                let mut head = format!("ply\nformat binary_{}_endian 1.0\nelement vertex 3\n", if be { "big" } else { "little" });
                let mut layout = vec![]; // None: a coordinate
                let mut names = 0;
                let mut add = |head: &mut String, layout: &mut Vec<Option<usize>>, l: &[usize]| {
                    for t in l {
                        names += 1;
                        head.push_str(&format!("property {} e{}\n", types[*t].0, names));
                        layout.push(Some(types[*t].1));
                    }
                };
                for k in 0..3 {
                    if slot == k {
                        add(&mut head, &mut layout, &extra[x]);
                    }
                    head.push_str(&format!("property float {}\n", ["x", "y", "z"][k]));
                    layout.push(None);
                }
                if slot == 3 {
                    add(&mut head, &mut layout, &extra[x]);
                }
                add(&mut head, &mut layout, &extra[*y]);
                if faces {
                    head.push_str("element face 2\nproperty list uchar int vertex_indices\n");
                    for t in extra[*y].iter() {
                        head.push_str(&format!("property {} f{}\n", types[*t].0, t));
                    }
                }
                head.push_str("end_header\n");
                let start = head.len();
                let mut d = head.into_bytes();
                for v in 0..3 {
                    for l in layout.iter() {
                        match l {
                            None => push32(&mut d, v as f32, be),
                            Some(n) => put(&mut d, *n),
                        }
                    }
                }
                if faces {
                    for _ in 0..2 {
                        d.push(3);
                        for i in [0i32, 1, 2] {
                            d.extend_from_slice(&if be { i.to_be_bytes() } else { i.to_le_bytes() });
                        }
                        for t in extra[*y].iter() {
                            put(&mut d, types[*t].1);
                        }
                    }
                }
                for end in start..=d.len() {
                    let ks: &[Kind] = if faces { &[Kind::PlyMesh, Kind::PlyEither] } else { &[Kind::PlyPoints, Kind::PlyEither] };
                    for k in ks {
                        if c.stopped() {
                            return;
                        }
                        c.case(
                            || format!("{:?} properties {:?} at {}, {:?} behind, ends after {} of {} bytes", k, extra[x], slot, extra[*y], end, d.len()),
                            |c| {
                                c.state(&(k, be, faces, slot, x, y, end));
                                c.trans(1);
                                let r = load_bytes(*k, &d[..end]);
                                ensure!(r.is_ok() == (end == d.len()) , "accepted: {}", r.is_ok());
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
}
fn records_cut(c: &mut Ctx) {
    for record in (20u16..=67).chain([100, 255, 256, 300]) {
        for minor in [2u8, 4] {
            let l = LasFile {
                minor,
                header_size: if minor == 4 { 375 } else { 227 },
                record,
                legacy_count: if minor == 4 { 0 } else { 2 },
                count: if minor == 4 { 2 } else { 0 },
                recs: vec![[1, 2, 3], [4, 5, 6]],
                ..Default::default()
            };
            let d = l.bytes();
            let body = 2 * record as usize;
            for end in d.len() - body..=d.len() {
                c.case(
                    || format!("1.{} records of {} bytes, ends after {} of {} bytes", minor, record, end, d.len()),
                    |c| {
                        c.state(&(record, minor, end));
                        c.trans(1);
                        let r = load_bytes(Kind::Las, &d[..end]);
                        ensure!(r.is_ok() == (end == d.len()), "accepted: {}", r.is_ok());
                        Ok(())
                    },
                );
            }
        }
    }
}
fn main() {
    let mut v = vec![];
    for (i, s) in corpus().iter().enumerate() {
        v.push(g(format!("cut {}", s.name), move |c| cut(c, i)));
        v.push(g(format!("missing line {}", s.name), move |c| missing_lines(c, i)));
    }
    for f in FORMATS {
        v.push(g(format!("counts {:?}", f), move |c| counts(c, f)));
    }
    for be in [false, true] {
        for faces in [false, true] {
            v.push(g(format!("properties cut {} {}", if be { "big" } else { "little" }, faces), move |c| properties_cut(c, be, faces)));
        }
    }
    v.push(g("records cut", records_cut));
    for n in [300usize, 1025, 4097, 65_539] {
        v.push(g(format!("large {}", n), move |c| {
            if n < 100_000 || c.thorough() {
                large(c, n, false)
            }
        }));
    }
    for w in [20usize, 80, 300, 5000] {
        v.push(g(format!("wide {}", w), move |c| large(c, w, true)));
    }
    mc::main(
        Spec {
            prop: "C25",
            level: "model_checking",
            rule: "a state is one (reader, crash point or declared/present counts); every byte position of every file of the corpus as the end of the file, every pair of declared and present counts up to the bound and around 2^8, 2^16, 2^31, 2^32",
            assumptions: &["a cut within the digits of the very last number of a text file is not noticeable"],
        },
        v,
    )
}
