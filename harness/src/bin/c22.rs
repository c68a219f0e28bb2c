//! C22: whatever bytes a reader is given, it returns a value or an error within time and memory proportional to the input.
use mc::io::*;
use mc::*;
use std::rc::Rc;
use std::time::Instant;

fn run(k: Kind, d: &Rc<Vec<u8>>) -> R {
    let len = d.len();
    let once = || {
        calls();
        let t = Instant::now();
        let (r, peak) = peak_of(|| load(k, Src::new(d, Plan::Whole)));
        (r, peak, calls(), t.elapsed().as_secs_f64())
    };
    let (r, peak, n, mut t) = once();
    for _ in 0..3 {
        // confirmed before it counts, the machine might be busy
        if t > 0.5 {
            t = t.min(once().3)
        }
    }
    ensure!(t <= 0.5, "took {} s for {} bytes", t, len);
    ensure!(peak <= (16 << 20) + 400 * len, "used {} bytes for a file of {} bytes", peak, len);
    ensure!(n <= 1000 + 8 * len, "asked {} times for a file of {} bytes", n, len);
    if let Ok(o) = &r {
        ensure!(o.pts.len() <= 3 * len + 3 && o.faces.len() <= len, "{} points, {} faces from {} bytes", o.pts.len(), o.faces.len(), len);
    }
    Ok(())
}
fn items(k: Kind, d: &Rc<Vec<u8>>) -> R {
    let len = d.len();
    let (r, peak) = peak_of(|| -> R {
        if let Some(Ok(s)) = stream(k, Src::new(d, Plan::Whole)) {
            let mut n = 0;
            // keep asking: an iterator that goes on behind an error must not panic or go on forever either
            for _ in s.take(2 * len + 100) {
                n += 1
            }
            ensure!(n <= len + 16, "{} items from {} bytes", n, len);
        }
        Ok(())
    });
    r?;
    ensure!(peak <= (16 << 20) + 400 * len, "used {} bytes for a file of {} bytes", peak, len);
    Ok(())
}
fn feed(c: &mut Ctx, kinds: &[Kind], what: &str, d: Vec<u8>) -> bool {
    let d = Rc::new(d);
    for k in kinds {
        if c.stopped() {
            return false;
        }
        c.case(
            || {
                let t = String::from_utf8_lossy(&d[..d.len().min(400)]).to_string();
                format!("{} {:?} {:?}{}", what, k, t, if d.len() > 400 { format!(" ... ({} bytes)", d.len()) } else { String::new() })
            },
            |c| {
                if d.len() < 2000 {
                    c.state(&(k, &d[..]));
                }
                c.trans(1);
                run(*k, &d)?;
                items(*k, &d)
            },
        );
    }
    true
}
fn hostile_tokens() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "", "-1", "0", "1", "2", "255", "256", "-128", "32768", "65536", "65537", "1000000", "100000000", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615",
        "18446744073709551616", "99999999999999999999999999", "1e999", "-1e999", "1e-999", "nan", "NaN", "inf", "-inf", "-0", "+1", "0x10", "1_0", "1.", ".5", ".", "-", "+", "e", "1e", "é", "½", "\u{feff}1", "\u{1F600}", "#", ";", "//", "/", "1/", "/1", "1//", "1/2/3/4", "\0",
        "ply", "OFF", "G1", "v", "f", "end_header", "endsolid", "element", "property", "list", "uchar", "double", "comment", "format", "x", "vertex", "face",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    v.push(vec![0xff]);
    v.push(vec![0xff, 0xfe]);
    v.push(vec![b'1', 0xff]);
    v.push(vec![0xc3]);
    v.push(vec![0xa0]);
    v.push(vec![b'9'; 5000]);
    v.push(vec![b' '; 5000]);
    v.push(vec![b'1', b'\n', b'2']);
    v.push(vec![b'\r']);
    v
}
/// token ranges of a text
fn tokens(d: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut a = 0;
    for i in 0..=d.len() {
        if i == d.len() || (d[i] as char).is_whitespace() || d[i] == b';' || d[i] == b',' {
            if i > a {
                v.push((a, i))
            }
            a = i + 1;
        }
    }
    v
}
fn put(d: &[u8], r: (usize, usize), x: &[u8]) -> Vec<u8> {
    let mut v = d[..r.0].to_vec();
    v.extend_from_slice(x);
    v.extend_from_slice(&d[r.1..]);
    v
}
fn binary_start(s: &Sample) -> usize {
    // where the text header of a binary file ends
    let t = String::from_utf8_lossy(&s.data[..s.data.len().min(400)]).to_string();
    t.find("end_header\n").map(|p| p + 11).unwrap_or(0)
}
fn near(c: &mut Ctx, i: usize) {
    let s = &corpus()[i];
    let n = s.data.len();
    for p in 0..=n {
        feed(c, &KINDS, "cut", s.data[..p].to_vec());
    }
    // every byte replaced by every value
    for p in 0..n {
        for b in 0..=255u8 {
            if b == s.data[p] {
                continue;
            }
            if !c.thorough() && n > 200 && !(b < 3 || b == 255 || b == 128 || b == 127 || b.is_ascii_punctuation() || b.is_ascii_whitespace() || b == b'9' || b == b'0') {
                continue;
            }
            let mut d = s.data.clone();
            d[p] = b;
            if !feed(c, &s.kinds, "byte", d) {
                return;
            }
        }
        // bytes inserted, removed
        for b in [b' ', b'\n', b'-', b'9', 0, 255] {
            let mut d = s.data.clone();
            d.insert(p, b);
            feed(c, &s.kinds, "insert", d);
        }
        let mut d = s.data.clone();
        d.remove(p);
        feed(c, &s.kinds, "remove", d);
    }
    let start = binary_start(s);
    if s.text || start > 0 {
        let h = hostile_tokens();
        let end = if s.text { n } else { start };
        let t = tokens(&s.data[..end]);
        for r in &t {
            for x in &h {
                feed(c, &s.kinds, "token", put(&s.data, *r, x));
            }
        }
        // two tokens
        let few: Vec<&Vec<u8>> = h.iter().filter(|x| [&b"-1"[..], b"0", b"18446744073709551615", b"4294967295", b"100000000", b"nan", b"", b"3"].contains(&&x[..])).collect();
        for a in 0..t.len() {
            for b in a + 1..t.len() {
                if !c.thorough() && n > 200 && b > a + 6 {
                    continue;
                }
                for x in &few {
                    for y in &few {
                        if !feed(c, &s.kinds, "tokens", put(&put(&s.data, t[b], y), t[a], x)) {
                            return;
                        }
                    }
                }
            }
        }
    }
    if !s.text {
        // integers and floats of every size at every position
        let mut v: Vec<Vec<u8>> = vec![];
        for x in [0u32, 1, 2, 11, 12, 0xffff, 0x10000, 1_000_000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0x7fc0_0000, 0x7f80_0000] {
            v.push(x.to_le_bytes().to_vec());
            v.push(x.to_be_bytes().to_vec());
        }
        for x in [0u64, 1, 1 << 32, (1 << 32) - 1, 1 << 40, i64::MAX as u64, 1 << 63, u64::MAX, u64::MAX - 1, f64::NAN.to_bits(), f64::INFINITY.to_bits(), f64::MAX.to_bits()] {
            v.push(x.to_le_bytes().to_vec());
            v.push(x.to_be_bytes().to_vec());
        }
        for x in [0u16, 1, 11, 12, 255, 256, 0x7fff, 0x8000, 0xffff] {
            v.push(x.to_le_bytes().to_vec());
        }
        for p in start..n {
            for x in &v {
                if p + x.len() <= n {
                    feed(c, &s.kinds, "number", put(&s.data, (p, p + x.len()), x));
                }
            }
            if c.stopped() {
                return;
            }
        }
        if c.thorough() {
            // two hostile numbers within the header / at the counts
            for p in start..n.min(start + 300) {
                for q in p + 2..n.min(start + 300) {
                    for (x, y) in [(0xffu8, 0xffu8), (0xff, 0), (0, 0xff), (0x7f, 0x80)] {
                        let mut d = s.data.clone();
                        for j in 0..4 {
                            if p + j < n {
                                d[p + j] = x
                            }
                        }
                        for j in 0..4 {
                            if q + j < n {
                                d[q + j] = y
                            }
                        }
                        if !feed(c, &s.kinds, "numbers", d) {
                            return;
                        }
                    }
                }
            }
        }
    }
}
/// Every string up to the length over an alphabet, given to every reader
fn strings(c: &mut Ctx, alphabet: &'static [&'static [u8]], prefix: &'static [u8], kinds: &[Kind], len: usize) {
    for n in 0..=len {
        tuples(alphabet.len(), n, |t| {
            let mut d = prefix.to_vec();
            for i in t {
                d.extend_from_slice(alphabet[*i])
            }
            feed(c, kinds, "string", d)
        });
    }
}
/// Long lines, many lines, deep repetition: proportional to the input
fn long(c: &mut Ctx) {
    for n in [100usize, 10_000, 300_000] {
        for (what, x) in [("digits", &b"9"[..]), ("blanks", b" "), ("newlines", b"\n"), ("zeros", b"\0"), ("ff", b"\xff"), ("words", b"1 "), ("points", b"1 2 3\n"), ("faces", b"f 1 1 1 1 1 1\n"), ("semicolons", b";"), ("slashes", b"f 1/1/1/ 2// 3/\n"), ("crs", b"\r")] {
            let d: Vec<u8> = x.iter().copied().cycle().take(n).collect();
            feed(c, &KINDS, what, d.clone());
            for pre in [&b"f "[..], b"v ", b"OFF\n", b"G1 X", b"G1 ", b"ply\n", b"ply\nformat ascii 1.0\n", b"ply\nformat ascii 1.0\ncomment ", b"solid ", b"solid\nfacet ", b"1\n", b"1\n1\n"] {
                let mut e = pre.to_vec();
                e.extend_from_slice(&d);
                feed(c, &KINDS, what, e);
            }
        }
        // declared counts without the content
        for cnt in ["65535", "65536", "1000000", "4294967295", "18446744073709551615"] {
            for t in [
                format!("OFF\n{} 0 0\n", cnt),
                format!("OFF\n0 {} 0\n", cnt),
                format!("OFF\n{} {} 0\n1 2 3\n", cnt, cnt),
                format!("{}\n1 2 3\n", cnt),
                format!("1\n{}\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n1 2 3\n", cnt),
                format!("{}\n{}\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n1 2 3\n", cnt, cnt),
                format!("ply\nformat ascii 1.0\nelement vertex {}\nproperty float x\nproperty float y\nproperty float z\nelement face {}\nproperty list uchar int vertex_indices\nend_header\n", cnt, cnt),
                format!("ply\nformat binary_little_endian 1.0\nelement vertex {}\nproperty float x\nproperty float y\nproperty float z\nelement face {}\nproperty list uint int vertex_indices\nend_header\n\0\0\0", cnt, cnt),
                format!("ply\nformat binary_big_endian 1.0\nelement vertex 0\nproperty float x\nproperty float y\nproperty float z\nelement face {}\nproperty list uint int vertex_indices\nproperty uchar q\nend_header\n\0\0\0", cnt),
                format!("ply\nformat ascii 1.0\nelement vertex {}\nelement face {}\nend_header\n", cnt, cnt),
            ] {
                feed(c, &KINDS, "count", t.into_bytes());
            }
        }
    }
}
/// PLY headers made of every sequence of header lines
fn ply_headers(c: &mut Ctx, fmt: &'static str, len: usize) {
    const L: [&str; 12] = [
        "comment c\n",
        "element vertex 2\n",
        "element vertex 0\n",
        "property float x\n",
        "property double y\n",
        "property float z\n",
        "property uchar q\n",
        "element face 1\n",
        "property list uchar int vertex_indices\n",
        "property list uint uint vertex_index\n",
        "element edge 3\n",
        "property\n",
    ];
    for body in ["end_header\n", "end_header\n1 2 3\n4 5 6\n3 0 1 0\n", "end_header\n\u{3}\0\0\0\u{3}\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\u{1}\0\0"] {
        for n in 0..=len {
            tuples(L.len(), n, |t| {
                let d = format!("ply\nformat {} 1.0\n{}{}", fmt, t.iter().map(|i| L[*i]).collect::<String>(), body);
                feed(c, &[Kind::PlyMesh, Kind::PlyPoints, Kind::PlyEither], "ply header", d.into_bytes())
            });
        }
    }
}
const BYTES: &[&[u8]] = &[b"\0", b"\xff", b"\n", b" ", b"1", b"-", b";", b"\r"];
const TOKENS: &[&[u8]] = &[b"1", b" ", b"\n", b"v ", b"f ", b"OFF", b"G1 ", b"X", b"/", b"-", b"#", b"9999999999", b"solid", b"facet ", b"ply\n", b"\xc3", b".", b"G92 ", b"G91"];
const STL: &[&[u8]] = &[b"facet", b" ", b"normal 0 0 1", b"\n", b"outer loop", b"vertex 1 2 3", b"endloop", b"endfacet", b"endsolid", b"vertex", b"1"];
const GCODE: &[&[u8]] = &[b"G1", b"G92", b"G91", b" ", b"X", b"Y1", b"Z-", b"1", b";", b"\n", b"E", b"X1e400", b"\xff"];
const OBJ: &[&[u8]] = &[b"v", b"f", b" ", b"1", b"/", b"2/3", b"0", b"\n", b"-1", b"#", b"\t", b"\xff", b"18446744073709551615"];
const XY: &[&[u8]] = &[b"1", b" ", b",", b";", b"\t", b"\n", b"x", b"-", b"\xff", b"1e9", b"\r"];
const COUNTS: &[&[u8]] = &[b"0", b"1", b"2", b" ", b"\n", b"-", b"1 2 3\n", b"18446744073709551615", b"3 0 0 0\n", b"1.5", b"3 0 1 2\n"];

fn main() {
    let mut v = vec![];
    for (i, s) in corpus().iter().enumerate() {
        v.push(g(format!("near {}", s.name), move |c| near(c, i)));
    }
    v.push(g("bytes", |c| strings(c, BYTES, b"", &KINDS, c.q(5, 6))));
    v.push(g("tokens", |c| strings(c, TOKENS, b"", &KINDS, c.q(3, 4))));
    v.push(g("stl tokens", |c| strings(c, STL, b"solid\nfacet normal 1 0 0\nouter loop\nvertex 1 2 3\n", &[Kind::StlDuped(Fm::Ascii), Kind::StlUnique(Fm::Auto), Kind::StlTriplets(Fm::Ascii)], c.q(4, 5))));
    v.push(g("stl tokens 0", |c| strings(c, STL, b"solid\n", &[Kind::StlDuped(Fm::Ascii), Kind::StlUnique(Fm::Auto), Kind::StlTriplets(Fm::Ascii)], c.q(4, 5))));
    v.push(g("gcode tokens", |c| strings(c, GCODE, b"", &[Kind::Gcode], c.q(5, 6))));
    v.push(g("obj tokens", |c| strings(c, OBJ, b"v 1 2 3\nv 2 3 4\n", &[Kind::ObjMesh, Kind::ObjPoints], c.q(5, 6))));
    v.push(g("xy tokens", |c| strings(c, XY, b"", &[Kind::Xy, Kind::Xyz], c.q(5, 6))));
    v.push(g("off tokens", |c| strings(c, COUNTS, b"OFF\n", &[Kind::OffMesh, Kind::OffPoints], c.q(5, 6))));
    v.push(g("pts tokens", |c| strings(c, COUNTS, b"", &[Kind::Pts], c.q(5, 6))));
    v.push(g("ptx tokens", |c| strings(c, COUNTS, b"", &[Kind::Ptx], c.q(4, 5))));
    v.push(g("ptx tokens 2", |c| strings(c, COUNTS, b"2\n1\n0\n0\n0\n0\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n", &[Kind::Ptx], c.q(4, 5))));
    for f in ["ascii", "binary_little_endian", "binary_big_endian"] {
        v.push(g(format!("ply headers {}", f), move |c| ply_headers(c, f, c.q(4, 5))));
    }
    v.push(g("long", long));
    mc::main(
        Spec {
            prop: "C22",
            level: "model_checking",
            rule: "a state is one (reader, input); every truncation of every file of the corpus given to every reader, every byte replaced, inserted, removed, every token (pair of tokens) replaced by hostile ones, hostile numbers at every position of the binary files, every string over byte and token alphabets up to the length; panics, aborts, runtime, memory, requests and number of elements are monitored",
            assumptions: &["overflow checks and debug assertions are on", "memory is accounted by the allocator of the harness"],
        },
        v,
    )
}
