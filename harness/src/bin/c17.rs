//! C17: all STL entry points describe the same triangles, in every encoding and layout of the file.
use mc::io::*;
use mc::*;
use std::rc::Rc;

type T = [[f64; 3]; 4]; // a b c n
fn items(ts: &[T]) -> Vec<Item> {
    ts.iter().map(|t| Item::T([b3(t[0]), b3(t[1]), b3(t[2]), b3(t[3])])).collect()
}
fn bin(ts: &[T], header: &[u8; 80], attr: u16) -> Vec<u8> {
    let v: Vec<[[f32; 3]; 4]> = ts
        .iter()
        .map(|t| {
            let mut o = [[0f32; 3]; 4];
            for (i, p) in t.iter().enumerate() {
                for c in 0..3 {
                    o[i][c] = p[c] as f32
                }
            }
            o
        })
        .collect();
    enc_stl_binary(header, &v, attr)
}
const FORMS: usize = 4;
fn num(x: f64, form: usize) -> String {
    match form {
        0 => format!("{}", x),
        1 => format!("{:e}", x),
        2 => format!("{:?}", x),
        _ => {
            let s = format!("{:E}", x);
            if s.starts_with('-') {
                s
            } else {
                format!("+{}", s)
            }
        }
    }
}
/// layout of an ASCII file
#[derive(Clone, Copy)]
struct Lay {
    first: &'static str,
    last: &'static str,
    indent: [&'static str; 3],
    gap: &'static str,
    trail: &'static str,
    nl: &'static str,
    form: usize,
}
const STD: Lay = Lay { first: "solid test", last: "endsolid test", indent: ["", "", ""], gap: " ", trail: "", nl: "\n", form: 0 };
fn ascii(ts: &[T], l: &Lay) -> Vec<u8> {
    let mut s = format!("{}{}", l.first, l.nl);
    let mut line = |i: usize, w: &[String]| {
        s += l.indent[i];
        s += &w.join(l.gap);
        s += l.trail;
        s += l.nl;
    };
    for t in ts {
        let p = |a: &[&str], p: [f64; 3]| -> Vec<String> { a.iter().map(|x| x.to_string()).chain(p.iter().map(|x| num(*x, l.form))).collect() };
        line(0, &p(&["facet", "normal"], t[3]));
        line(1, &["outer loop".to_string()]);
        for i in 0..3 {
            line(2, &p(&["vertex"], t[i]))
        }
        line(1, &["endloop".to_string()]);
        line(0, &["endfacet".to_string()]);
    }
    if !l.last.is_empty() {
        s += l.last;
        s += l.nl;
    }
    s.into_bytes()
}
fn kinds(f: Fm) -> [Kind; 3] {
    [Kind::StlTriplets(f), Kind::StlDuped(f), Kind::StlUnique(f)]
}
/// every entry point describes these triangles
fn all(c: &mut Ctx, key: &str, d: Vec<u8>, ts: &[T], formats: &[Fm]) {
    let d = Rc::new(d);
    let it = items(ts);
    for f in formats {
        for k in kinds(*f) {
            c.case(
                || format!("{:?} of {} {:?}", k, key, ts.iter().take(3).collect::<Vec<_>>()),
                |c| {
                    c.state(&(k, &d[..]));
                    c.trans(1);
                    let want = assemble(k, &it)?;
                    let got = load(k, Src::new(&d, Plan::Whole))?;
                    ensure!(got == want, "loaded {:?} instead of {:?}", got, want);
                    Ok(())
                },
            );
        }
        c.case(
            || format!("stream {:?} of {} {:?}", f, key, ts.iter().take(3).collect::<Vec<_>>()),
            |c| {
                c.trans(1);
                let got: Vec<Item> = match stream(Kind::StlTriplets(*f), Src::new(&d, Plan::Whole)) {
                    Some(Ok(i)) => i.collect::<std::result::Result<Vec<_>, _>>()?,
                    Some(Err(e)) => return Err(e),
                    None => return Err("no stream".into()),
                };
                let data: Vec<&Item> = got.iter().filter(|i| !matches!(i, Item::Reserve(..))).collect();
                ensure!(data == it.iter().collect::<Vec<_>>(), "streamed {:?} instead of {:?}", data, it);
                Ok(())
            },
        );
    }
}
const AA: [Fm; 2] = [Fm::Ascii, Fm::Auto];
const BA: [Fm; 2] = [Fm::Binary, Fm::Auto];
fn verts() -> Vec<[f64; 3]> {
    vec![[0.0, 1.0, 2.0], [-0.0, 1.0, 2.0], [1.0, 0.0, 2.0], [2.0, 1.0, 0.0], [0.5, -0.25, 1024.0]]
}
fn norms() -> Vec<[f64; 3]> {
    vec![[0.0, 0.0, 1.0], [0.0, 0.0, 0.0], [-1.0, 0.5, 0.25], [3.0, -0.0, 8.0]]
}
fn triangle_lists(c: &mut Ctx) {
    let vs = verts();
    let ns = norms();
    for n in 0..=c.q(2, 3) {
        // three triangles: over the first three vertices
        let m = if n == 3 { 4usize } else { 5 };
        let per = m * m * m;
        tuples(per, n, |t| {
            let ts: Vec<T> = t.iter().enumerate().map(|(i, x)| [vs[x % m], vs[x / m % m], vs[x / m / m], ns[(x + i) % 4]]).collect();
            all(c, "ascii", ascii(&ts, &STD), &ts, &AA);
            all(c, "binary", bin(&ts, &[0; 80], 0), &ts, &BA);
            !c.stopped()
        });
    }
}
fn sizes(c: &mut Ctx) {
    let vs = verts();
    for n in (0..=c.q(200usize, 1200)).chain([1025, 4097, HUGE]) {
        for pat in 0..3 {
            if n >= HUGE && pat < 2 {
                continue;
            }
            let ts: Vec<T> = (0..n)
                .map(|i: usize| {
                    let p = |j: usize| -> [f64; 3] {
                        match pat {
                            0 => [i as f64, j as f64, (i * j) as f64],
                            1 => [((i + j) % 7) as f64, (i % 5) as f64, j as f64],
                            _ => vs[(i * 3 + j * (i % 4)) % 5],
                        }
                    };
                    [p(0), p(1), p(2), norms()[i % 4]]
                })
                .collect();
            all(c, &format!("{} triangles ascii", n), ascii(&ts, &STD), &ts, &AA);
            all(c, &format!("{} triangles binary", n), bin(&ts, &[32; 80], 0xffff), &ts, &BA);
        }
        if c.stopped() {
            return;
        }
    }
}
fn sample() -> Vec<T> {
    let vs = verts();
    let ns = norms();
    vec![[vs[0], vs[2], vs[3], ns[2]], [vs[3], vs[1], vs[4], ns[3]], [vs[2], vs[2], vs[4], ns[1]], [vs[4], vs[2], vs[0], ns[0]]]
}
/// every layout of the text
fn ascii_layouts(c: &mut Ctx) {
    for first in ["solid", "solid ", "solid test", "solid facet normal 1 2 3", "solid endsolid", "solid  caf\u{e9}", "solidfoo"] {
        for last in ["endsolid", "endsolid test", "  endsolid", "endsolid test\n\n\n", "endsolid\nsolid more\nfacet", "endsolid\nrubbish", ""] {
            for indent in [["", "", ""], ["  ", "    ", "      "], ["\t", "\t\t", "\t\t\t"], ["", " ", "  "], [" \t", "\t ", " \t "]] {
                for gap in [" ", "  ", "     "] {
                    for trail in ["", " ", "\t", "   "] {
                        for nl in ["\n", "\r\n"] {
                            for form in 0..FORMS {
                                for n in [0usize, 1, 4] {
                                    let ts: Vec<T> = sample().as_slice()[..n].to_vec();
                                    let l = Lay { first, last, indent, gap, trail, nl, form };
                                    all(c, &format!("ascii {:?} {:?} {:?} {:?} {:?} {:?} {}", first, last, indent, gap, trail, nl, form), ascii(&ts, &l), &ts, &AA);
                                    if c.stopped() {
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}
/// headers and attributes of binary files are not interpreted
fn binary_layouts(c: &mut Ctx) {
    for attr in [0u16, 1, 10, 13, 0x0a0d, 0x6f73, 0xffff] {
        for byte in 0..=255u8 {
            for n in [0usize, 1, 4] {
                let ts: Vec<T> = sample().as_slice()[..n].to_vec();
                // everywhere, or at one position of an otherwise clear header
                all(c, &format!("binary header {}, attribute {}", byte, attr), bin(&ts, &[byte; 80], attr), &ts, &BA);
            }
        }
        for text in ["solid test", "solid", "solid\n", "SOLID x", "Solid", "soli", "solix", "xolid", "COLOR=abcd", "\nsolid", " solid", "solid \nfacet normal 0 0 1\n"] {
            for at in [0usize, 1, 5, 60] {
                for n in [0usize, 1, 4] {
                    let ts: Vec<T> = sample().as_slice()[..n].to_vec();
                    let mut h = [0u8; 80];
                    for (i, b) in text.bytes().enumerate() {
                        if at + i < 80 {
                            h[at + i] = b
                        }
                    }
                    let f: &[Fm] = if h.starts_with(b"solid") { &[Fm::Binary] } else { &BA };
                    all(c, &format!("binary header {:?} at {}, attribute {}", text, at, attr), bin(&ts, &h, attr), &ts, f);
                }
            }
        }
    }
    // trailing bytes behind the last triangle belong to nobody
    for extra in 1..60 {
        let ts = sample();
        let mut d = bin(&ts, &[0; 80], 0);
        d.extend(std::iter::repeat(b's').take(extra));
        all(c, &format!("binary with {} bytes behind", extra), d, &ts, &BA);
    }
}
/// one or two special values at every place
fn values(c: &mut Ctx) {
    let d: Vec<f64> = vec![0.1, -0.0, 1.0 / 3.0, -1e-7, 1e21, 1.7976931348623157e308, -5e-324, 2.2250738585072014e-308, 9007199254740993.0, 123456789.125, 4.35, 1e-300, 0.3, 1e23];
    let f: Vec<f64> = vec![0.1f32 as f64, -0.0, f32::MAX as f64, f32::MIN_POSITIVE as f64, -1e-45f32 as f64, 16777217.0, -3.5, (1.0f32 / 3.0) as f64, 2.612e-36f32 as f64];
    let base = sample();
    for i in 0..24 {
        for j in i..24 {
            for x in 0..14 {
                for y in 0..14 {
                    let put = |v: &Vec<f64>| -> Vec<T> {
                        let mut ts: Vec<T> = base.as_slice()[..2].to_vec();
                        ts[i / 12][i / 3 % 4][i % 3] = v[x];
                        ts[j / 12][j / 3 % 4][j % 3] = v[y];
                        ts
                    };
                    if i == j && x != y || !c.thorough() && (x * 5 + y + i + j) % 4 > 0 {
                        continue;
                    }
                    let ts = put(&d);
                    let form = (i + j + x + y) % FORMS;
                    all(c, &format!("ascii form {}", form), ascii(&ts, &Lay { form, ..STD }), &ts, &AA);
                    if x < 9 && y < 9 {
                        let mut ts = put(&f);
                        for t in ts.iter_mut() {
                            for p in t.iter_mut() {
                                for q in p.iter_mut() {
                                    *q = *q as f32 as f64
                                }
                            }
                        }
                        all(c, "binary", bin(&ts, &[7; 80], 0), &ts, &BA);
                    }
                }
            }
        }
        if c.stopped() {
            return;
        }
    }
}
/// vertices that differ by a tolerance of any size
fn close_vertices(c: &mut Ctx) {
    for l in ladders() {
        for axis in 0..3usize {
            let at = |i: usize| {
                let mut p = [1.0, -2.0, 0.5];
                p[axis] = l[i % 6];
                p
            };
            for step in [1usize, 5] {
                let ts: Vec<T> = (0..6).map(|i| [at(i * step), at((i + 1) * step), at((i + 2) * step), [0.0, 0.0, 1.0]]).collect();
                all(c, "ascii", ascii(&ts, &STD), &ts, &AA);
                let ts: Vec<T> = ts.into_iter().map(|t| t.map(|p| p.map(|x| x as f32 as f64))).collect();
                all(c, "binary", bin(&ts, &[0; 80], 0), &ts, &BA);
            }
        }
    }
}
/// Every line of an ASCII file removed, doubled, or altered: an error or the triangles of the intact facets, never something else
fn broken(c: &mut Ctx) {
    let ts = sample();
    let d = ascii(&ts, &STD);
    let lines: Vec<String> = String::from_utf8(d).unwrap().lines().map(|x| x.to_string()).collect();
    let n = lines.as_slice().iter().count();
    for i in 1..n - 1 {
        let mut alts: Vec<(String, Vec<String>)> = vec![("removed".into(), vec![]), ("doubled".into(), vec![lines[i].clone(), lines[i].clone()])];
        for r in ["", "facet", "facet normal 0 0 1", "outer loop", "vertex 1 2 3", "endloop", "endfacet", "vertex 1 2", "vertex", "vertex a b c", "vertex 1 2 c", "solid test", "end"] {
            if r != lines[i] {
                alts.push((format!("{:?}", r), vec![r.to_string()]))
            }
        }
        for (what, by) in alts {
            let role = (i - 1) % 7; // facet, outer loop, 3 vertices, endloop, endfacet
            // still the structure of a facet
            let same = by.as_slice().iter().count() == 1
                && match role {
                    0 => by[0].starts_with("facet"),
                    1 => by[0] == "outer loop",
                    2..=4 => by[0] == "vertex 1 2 3",
                    5 => by[0] == "endloop",
                    _ => by[0] == "endfacet",
                };
            let mut text: Vec<String> = lines.as_slice()[..i].to_vec();
            text.extend(by);
            text.extend_from_slice(&lines.as_slice()[i + 1..]);
            let d = Rc::new((text.join("\n") + "\n").into_bytes());
            for f in AA {
                for k in kinds(f) {
                    c.case(
                        || format!("{:?} line {} ({}) {}", k, i + 1, lines[i], what),
                        |c| {
                            c.state(&(k, &d[..]));
                            c.trans(1);
                            match load(k, Src::new(&d, Plan::Whole)) {
                                Err(_) => ensure!(!same, "rejected"),
                                Ok(o) => {
                                    ensure!(same, "accepted as {:?}", o);
                                    let mut ts = ts.clone();
                                    let t = &mut ts[(i - 1) / 7];
                                    match role {
                                        0 => t[3] = [0.0, 0.0, 1.0],
                                        2..=4 => t[role - 2] = [1.0, 2.0, 3.0],
                                        _ => (),
                                    }
                                    let want = assemble(k, &items(&ts))?;
                                    ensure!(o == want, "loaded {:?} instead of {:?}", o, want)
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}
fn odd(c: &mut Ctx) {
    use Must::*;
    let stl = "solid a\nfacet normal 0.5 -2 1\nouter loop\nvertex 1.5 -2 70\nvertex 30 4e1 8\nvertex 5 60 9\nendloop\nendfacet\nfacet normal 0 0 1\nouter loop\nvertex 1.5 -2 71\nvertex 30 4e1 8\nvertex 5 60 9\nendloop\nendfacet\nendsolid a\n";
    let mut w: Vec<(usize, usize, Must)> = [3, 4, 5, 10, 11, 12].iter().flat_map(|l| (1..4).map(move |w| (*l, w, Float))).collect();
    w.extend([1, 2, 6, 7, 8, 9, 13, 14].iter().map(|l| (*l, 0, Keyword)));
    for f in [Fm::Ascii, Fm::Auto] {
        for k in [Kind::StlDuped(f), Kind::StlUnique(f), Kind::StlTriplets(f)] {
            odd_words(c, k, stl, &w, "");
        }
    }
}
fn main() {
    mc::main(
        Spec {
            prop: "C17",
            level: "model_checking",
            rule: "a state is one (entry point and format, file); all triangle lists up to the stated length over five vertices (two of them equal as numbers), all sizes up to a bound, all ASCII layouts (first/last line, indentation, gaps, line ends, number forms), binary headers/attributes, special values at every pair of places, every line removed/doubled/replaced; compared with the list of triangles the file was written from",
            assumptions: &["finite coordinates", "auto detection only of binary files whose header does not start with 'solid'"],
        },
        vec![g("triangle lists", triangle_lists), g("sizes", sizes), g("ascii layouts", ascii_layouts), g("odd words", odd), g("binary layouts", binary_layouts), g("values", values), g("close vertices", close_vertices), g("broken lines", broken)],
    )
}
