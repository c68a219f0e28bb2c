//! C27: line ends, trailing blanks, blank lines where the format allows them and a missing final line break do not change
//! what is loaded from text files.
use mc::io::*;
use mc::*;

/// kinds of line ends
const ENDS: [&str; 6] = ["\n", "\r\n", " \n", "\t\r\n", "   \t \n", " \r\n"];
/// additional blank lines
const BLANK: [&str; 4] = ["\n", "\r\n", "  \n", "\t\r\n\n"];

fn blank_allowed(k: Kind) -> bool {
    matches!(k, Kind::ObjMesh | Kind::ObjPoints | Kind::OffMesh | Kind::OffPoints | Kind::Pts | Kind::Gcode)
}
fn render(l: &[&str], ends: &[usize], last: bool, ends_of: &[&str]) -> Vec<u8> {
    let mut s = String::new();
    for (i, x) in l.iter().enumerate() {
        s += x;
        let e = ends_of[ends[i]];
        if i + 1 == l.len() && !last {
            s += e.trim_end_matches(|c| c == '\n' || c == '\r');
        } else {
            s += e;
        }
    }
    s.into_bytes()
}
fn check(c: &mut Ctx, name: &str, k: Kind, want: &LR, d: &[u8]) {
    c.case(
        || format!("{} {:?} {:?}", name, k, String::from_utf8_lossy(d)),
        |c| {
            c.state(&(k, d));
            c.trans(1);
            let r = load_bytes(k, d);
            match want {
                Ok(_) => ensure!(r == *want, "{:?} instead of {:?}", r, want),
                Err(e) => ensure!(r.is_err(), "{:?} instead of the error {}", r, e),
            }
            Ok(())
        },
    );
}
fn all_ends(c: &mut Ctx, name: &str, k: Kind, want: &LR, l: &[&str], bound: usize) {
    let n = l.len();
    // every assignment with a bounded number of lines that deviate from one common line end
    for base in 0..ENDS.len() {
        explore(bound, |ch| {
            let ends: Vec<usize> = (0..n).map(|_| (base + ch.dev(ENDS.len())) % ENDS.len()).collect();
            let last = ch.pick(2) == 0;
            check(c, name, k, want, &render(l, &ends, last, &ENDS));
            !c.stopped()
        });
    }
    // every subset of lines with the other line end
    if n <= 14 {
        for m in 0u32..1 << n {
            let ends: Vec<usize> = (0..n).map(|i| (m >> i & 1) as usize).collect();
            for last in [true, false] {
                check(c, name, k, want, &render(l, &ends, last, &ENDS));
            }
            if c.stopped() {
                return;
            }
        }
    }
}
fn sample(c: &mut Ctx, i: usize) {
    let s = &corpus()[i];
    if !s.text {
        return;
    }
    let t = String::from_utf8(s.data.clone()).unwrap();
    let l: Vec<&str> = t.lines().collect();
    let n = l.len();
    for (k, w) in s.kinds.iter().zip(&s.want) {
        let w: LR = Ok(w.clone());
        let bound = c.q(if n > 16 { 1 } else { 2 }, 2);
        all_ends(c, &s.name, *k, &w, &l, bound);
        if blank_allowed(*k) {
            // blank lines at any (pair of) positions
            for base in ["\n", "\r\n"] {
                explore(c.q(2, 3), |ch| {
                    let mut d = String::new();
                    for i in 0..=n {
                        let b = ch.dev(BLANK.len() + 1);
                        if b > 0 {
                            d += BLANK[b - 1]
                        }
                        if i < n {
                            d += l[i];
                            d += base;
                        }
                    }
                    check(c, &s.name, *k, &w, d.as_bytes());
                    !c.stopped()
                });
            }
        }
    }
}
/// All short files over an alphabet of lines, valid or not: the same verdict and data for every line end
fn short(c: &mut Ctx, kinds: &[Kind], alphabet: &[&str], prefix: &str, len: usize) {
    let pre: Vec<&str> = prefix.lines().collect();
    for n in 1..=len {
        tuples(alphabet.len(), n, |t| {
            let mut l = pre.clone();
            l.extend(t.iter().map(|i| alphabet[*i]));
            for k in kinds {
                let want = load_bytes(*k, &render(&l, &vec![0; l.len()], true, &ENDS));
                for e in 0..ENDS.len() {
                    check(c, "short", *k, &want, &render(&l, &vec![e; l.len()], true, &ENDS));
                    if !l.last().unwrap().is_empty() {
                        check(c, "short", *k, &want, &render(&l, &vec![e; l.len()], false, &ENDS));
                    }
                }
            }
            !c.stopped()
        });
    }
}
/// the lines of a valid file with about n records
fn lines_of(k: Kind, n: usize) -> Vec<String> {
    let p = |i: usize| format!("{} {} {}", i as f64 * 0.5 - 3.0, (i * 7) % 11, -((i % 5) as i64));
    let f = |i: usize| [i % n, (i + 1) % n, (i + 2) % n];
    let mut l: Vec<String> = vec![];
    match k {
        Kind::Xy => l.extend((0..n).map(|i| format!("{} {}", i as f64 * 0.25, i % 9))),
        Kind::Xyz => l.extend((0..n).map(p)),
        Kind::ObjMesh | Kind::ObjPoints => {
            l.extend((0..n).map(|i| format!("v {}", p(i))));
            l.extend((0..n).map(|i| format!("f {} {} {}", f(i)[0] + 1, f(i)[1] + 1, f(i)[2] + 1)));
        }
        Kind::OffMesh | Kind::OffPoints => {
            l.push("OFF".into());
            l.push(format!("{} {} 0", n, n));
            l.extend((0..n).map(p));
            l.extend((0..n).map(|i| format!("3 {} {} {}", f(i)[0], f(i)[1], f(i)[2])));
        }
        Kind::Pts => {
            for m in [n / 2, n - n / 2] {
                l.push(m.to_string());
                l.extend((0..m).map(|i| format!("{} 7 8 9", p(i))));
            }
        }
        Kind::Ptx => {
            for m in [n / 2, n - n / 2] {
                l.push(m.to_string());
                l.push("1".into());
                for x in ["0 0 0", "1 0 0", "0 1 0", "0 0 1", "1 0 0 0", "0 1 0 0", "0 0 1 0", "3 4 5 1"] {
                    l.push(x.into());
                }
                l.extend((0..m).map(|i| format!("{} 0.5", p(i))));
            }
        }
        Kind::Gcode => l.extend((0..n).map(|i| match i % 7 {
            0 => "G90".into(),
            3 => "G91 ; now relative".into(),
            5 => "M104 S200".into(),
            _ => format!("G1 X{} Y-{} ; c", i % 13, i % 3),
        })),
        Kind::StlDuped(_) | Kind::StlUnique(_) | Kind::StlTriplets(_) => {
            l.push("solid x".into());
            for i in 0..n {
                l.push("  facet normal 0 0 1".into());
                l.push("    outer loop".into());
                for j in 0..3 {
                    l.push(format!("      vertex {} {} {}", i + j, (i * j) % 5, j * j));
                }
                l.push("    endloop".into());
                l.push("  endfacet".into());
            }
            l.push("endsolid x".into());
        }
        _ => {
            l.extend(["ply", "format ascii 1.0", "comment c"].iter().map(|x| x.to_string()));
            l.push(format!("element vertex {}", n));
            l.extend(["property float x", "property float y", "property float z"].iter().map(|x| x.to_string()));
            l.push(format!("element face {}", n));
            l.push("property list uchar int vertex_indices".into());
            l.push("end_header".into());
            l.extend((0..n).map(p));
            l.extend((0..n).map(|i| format!("3 {} {} {}", f(i)[0], f(i)[1], f(i)[2])));
        }
    }
    l
}
/// Files longer than any buffer, and lines with long runs of blanks
fn large(c: &mut Ctx, n: usize) {
    let kinds = [
        Kind::Xy,
        Kind::Xyz,
        Kind::ObjMesh,
        Kind::ObjPoints,
        Kind::OffMesh,
        Kind::OffPoints,
        Kind::Pts,
        Kind::Ptx,
        Kind::Gcode,
        Kind::StlDuped(Fm::Ascii),
        Kind::StlUnique(Fm::Ascii),
        Kind::StlTriplets(Fm::Auto),
        Kind::PlyMesh,
        Kind::PlyPoints,
        Kind::PlyEither,
    ];
    for k in kinds {
        let l = lines_of(k, n);
        let l: Vec<&str> = l.as_slice().iter().map(|x| x.as_str()).collect();
        let m = l.as_slice().iter().count();
        let want = load_bytes(k, &render(&l, &vec![0; m], true, &ENDS));
        let mut one = |c: &mut Ctx, what: String, d: Vec<u8>| {
            c.case(
                || format!("{:?} of {} records: {}", k, n, what),
                |c| {
                    c.state(&(k, &d));
                    c.trans(1);
                    ensure!(want.is_ok(), "the plain file does not load");
                    let r = load_bytes(k, &d);
                    ensure!(r == want, "other data than from the plain file");
                    Ok(())
                },
            );
        };
        for e in 0..ENDS.len() {
            for last in [true, false] {
                one(c, format!("ends {:?}, final {}", ENDS[e], last), render(&l, &vec![e; m], last, &ENDS));
            }
            // the other line end on every s-th line from the o-th on
            for s in [2, 3, 5, 64, 1000] {
                for o in 0..2 {
                    let ends: Vec<usize> = (0..m).map(|i| if i % s == o { e } else { 0 }).collect();
                    one(c, format!("ends {:?} on every {} from {}", ENDS[e], s, o), render(&l, &ends, e % 2 == 0, &ENDS));
                }
            }
        }
        // a long run of blanks behind a line (first, second, middle, last lines)
        for run in [100usize, 4095, 4096, 8191, 8192, 8193, 20_000, HUGE] {
            if run > 20_000 && n != 60 {
                continue;
            }
            let blanks = [" ".repeat(run) + "\n", "\t".repeat(run) + "\r\n"];
            for at in [0, 1, 2, m / 2, m - 2, m - 1] {
                for b in 0..2 {
                    let of = ["\n", blanks[b].as_str()];
                    let ends: Vec<usize> = (0..m).map(|i| (i == at) as usize).collect();
                    for last in [true, false] {
                        one(c, format!("{} blanks behind line {}, kind {}, final {}", run, at, b, last), render(&l, &ends, last, &of));
                    }
                }
            }
        }
        if blank_allowed(k) {
            for e in 0..BLANK.len() {
                for s in [1, 2, 3, 50, 1000] {
                    let mut d = String::new();
                    for (i, x) in l.as_slice().iter().enumerate() {
                        d += x;
                        d += "\n";
                        if i % s == s - 1 {
                            d += BLANK[e]
                        }
                    }
                    one(c, format!("blank lines {:?} behind every {}", BLANK[e], s), d.into_bytes());
                }
            }
            // thousands of blank lines at one place
            for at in [0, 1, m / 2, m] {
                for run in [300usize, 10_000, 100_000] {
                    for e in ["\n", "\r\n", " \n"] {
                        let mut d = String::new();
                        for (i, x) in l.as_slice().iter().enumerate() {
                            if i == at {
                                d += &e.repeat(run)
                            }
                            d += x;
                            d += "\n";
                        }
                        if at == m {
                            d += &e.repeat(run)
                        }
                        one(c, format!("{} blank lines {:?} before line {}", run, e, at), d.into_bytes());
                    }
                }
            }
        }
    }
}
fn main() {
    let mut v = vec![];
    for n in [7usize, 60, 300, 3000] {
        v.push(g(format!("large {}", n), move |c| {
            if n > 300 && !c.thorough() {
                return;
            }
            large(c, n);
        }));
    }
    for (i, s) in corpus().iter().enumerate() {
        if s.text {
            v.push(g(s.name.clone(), move |c| sample(c, i)));
        }
    }
    let stl = [Kind::StlDuped(Fm::Ascii), Kind::StlTriplets(Fm::Auto)];
    v.push(g("short xy", |c| short(c, &[Kind::Xy, Kind::Xyz], &["1 2 3", "4 5", "1;2;3", "x 1 2", "", "7", "1,2"], "", c.q(4, 5))));
    v.push(g("short obj", |c| short(c, &[Kind::ObjMesh, Kind::ObjPoints], &["v 1 2 3", "v 4 5", "f 1 2 3", "f 1 2 3 4", "f 2 2 1", "vn 1 2 3", "", "# f 1", "v", "f"], "", c.q(4, 5))));
    v.push(g("short off", |c| short(c, &[Kind::OffMesh, Kind::OffPoints], &["2 1 0", "0 0", "1 2 3", "3 0 1 2", "4 0 1 2 3", "", "# c", "x"], "OFF", c.q(4, 5))));
    v.push(g("short pts", |c| short(c, &[Kind::Pts], &["0", "1", "2", "1 2 3", "4 5 6 7", "", "x"], "", c.q(5, 6))));
    v.push(g("short ptx", |c| short(c, &[Kind::Ptx], &["0", "1", "1 2 3", "1 0 0 0", "0 1 0 0", "0 0 1 0", "x", ""], "1\n1\n0 0 0\n1 0 0\n0 1 0\n0 0 1", c.q(5, 6))));
    v.push(g("short gcode", |c| short(c, &[Kind::Gcode], &["G1 X1", "G91", "G2 Y-2 Z3", "G92 X5", "G90", "G1 Xq", ";", "G28", "G1 X1;c", "G91 ; c", ""], "", c.q(4, 5))));
    v.push(g("short stl", move |c| {
        short(c, &stl, &["facet normal 0 0 1", "outer loop", "vertex 1 2 3", "vertex 4 5 6", "endloop", "endfacet", "endsolid", ""], "solid\nfacet\nouter loop\nvertex 0 0 0", c.q(5, 6))
    }));
    v.push(g("short ply", |c| {
        short(
            c,
            &[Kind::PlyMesh, Kind::PlyPoints, Kind::PlyEither],
            &["1 2 3", "4 5", "3 0 1 2", "3 0 1 1", "4 0 1 2 3", ""],
            "ply\nformat ascii 1.0\ncomment\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 1\nproperty list uchar int vertex_indices\nend_header",
            c.q(5, 6),
        )
    }));
    v.push(g("short ply header", |c| {
        short(
            c,
            &[Kind::PlyMesh, Kind::PlyPoints, Kind::PlyEither],
            &["comment x", "obj_info y", "element vertex 0", "property float x", "property float y", "property float z", "element face 0", "property list uchar int vertex_indices", "end_header"],
            "ply\nformat ascii 1.0",
            c.q(4, 5),
        )
    }));
    mc::main(
        Spec {
            prop: "C27",
            level: "model_checking",
            rule: "a state is one (reader, rendering of the lines); every assignment of six kinds of line ends (with and without trailing blanks) to the lines with a bounded number of deviations from a common one, every subset of lines with CRLF, every position of additional blank lines, with and without the final line break",
            assumptions: &["blank lines are only added where the format allows them (OBJ, OFF, PTS, G-code)"],
        },
        v,
    )
}
