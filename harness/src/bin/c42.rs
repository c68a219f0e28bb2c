//! C42: an error of a text reader names the line it is about.
use mc::io::*;
use mc::*;
use std::io::ErrorKind as EK;
use std::rc::Rc;

/// what an error says about its place
#[derive(Debug, PartialEq)]
enum At {
    Nothing,
    Number(usize),
    Line(usize, String),
}
/// reads the debug output of an error with line information
fn parse(e: &str) -> std::result::Result<(At, String), String> {
    let body = |s: &str| s.strip_suffix(')').map(|x| x.to_string()).ok_or(format!("not an error with line information: {}", e));
    let number = |s: &str| -> std::result::Result<(usize, String), String> {
        let k = s.find(", ").ok_or(format!("no line number: {}", e))?;
        Ok((s[..k].parse().map_err(|_| format!("no line number: {}", e))?, s[k + 2..].to_string()))
    };
    if let Some(r) = e.strip_prefix("None(") {
        return Ok((At::Nothing, body(r)?));
    }
    if let Some(r) = e.strip_prefix("Index(") {
        let (n, m) = number(&body(r)?)?;
        return Ok((At::Number(n), m));
    }
    if let Some(r) = e.strip_prefix("Line(") {
        let (n, m) = number(&body(r)?)?;
        // a quoted string follows
        let mut out = String::new();
        let mut it = m.char_indices();
        if it.next().map(|x| x.1) != Some('"') {
            return Err(format!("no line text: {}", e));
        }
        while let Some((i, ch)) = it.next() {
            match ch {
                '"' => return Ok((At::Line(n, out), m[i + 1..].trim_start_matches(", ").to_string())),
                '\\' => match it.next().map(|x| x.1) {
                    Some('t') => out.push('\t'),
                    Some('r') => out.push('\r'),
                    Some('n') => out.push('\n'),
                    Some(x) => out.push(x),
                    None => break,
                },
                x => out.push(x),
            }
        }
    }
    Err(format!("not an error with line information: {}", e))
}
fn blank(s: &str) -> &str {
    s.trim_matches(|c: char| c == ' ' || c == '\t' || c == '\r')
}
/// the error must be about the given line (counted from 1)
fn about(e: &str, lines: &[String], at: usize) -> R {
    let total = lines.len();
    match parse(e)? {
        (At::Line(n, t), _) => {
            ensure!(n == at, "names line {} instead of {}: {}", n, at, e);
            let l = blank(&lines[at - 1]);
            // the keyword in front of the counts is not repeated
            ensure!(blank(&t) == l || (l.starts_with("OFF") && l.ends_with(blank(&t))), "quotes {:?} instead of {:?}: {}", t, l, e);
        }
        (At::Number(n), m) => {
            let end = m.contains("end") || m.contains("count of");
            ensure!(n == at || (end && (n == total || n == total + 1)), "names line {} instead of {}: {}", n, at, e);
        }
        // the whole of the mesh or the header is at fault
        (At::Nothing, m) => ensure!(m.contains("mesh indices") || m.contains("Header of"), "without a line: {}", e),
    }
    Ok(())
}
fn render(lines: &[String], end: &str) -> Vec<u8> {
    let mut s = String::new();
    for l in lines {
        s += l;
        s += end;
    }
    s.into_bytes()
}
fn words(l: &str) -> Vec<&str> {
    l.split(' ').filter(|w| !w.is_empty()).collect()
}
const BAD: [&str; 5] = ["@", "1.2.3", "--1", "1e", "\u{e9}"];
/// all ways a line is spoiled
fn spoiled(l: &str) -> Vec<String> {
    let w = words(l);
    let mut r: Vec<String> = vec!["@".into()];
    for i in 0..w.iter().count() {
        for b in BAD {
            let mut x: Vec<String> = w.as_slice().iter().map(|s| s.to_string()).collect();
            x[i] = b.into();
            r.push(x.join(" "));
        }
        let mut x: Vec<String> = w.iter().map(|s| s.to_string()).collect();
        x[i] += "@";
        r.push(x.join(" "));
        if i > 0 {
            r.push(w[..i].join(" "));
        }
    }
    r
}
/// names of the header are free: a spoiled one is not noticed in its own line
fn free(k: Kind, orig: &str, new: &str) -> bool {
    let (o, n) = (words(orig), words(new));
    match k {
        Kind::PlyMesh | Kind::PlyPoints | Kind::PlyEither => {
            o.first() == Some(&"property") && n.first() == Some(&"property") && o.iter().count() == n.iter().count() && o[..o.iter().count() - 1] == n[..n.iter().count() - 1]
        }
        // the keyword is consumed without a look at line ends
        Kind::StlDuped(_) | Kind::StlUnique(_) | Kind::StlTriplets(_) => o.first() == Some(&"solid"),
        _ => false,
    }
}
fn noise(k: Kind) -> &'static [&'static str] {
    match k {
        Kind::ObjMesh | Kind::ObjPoints => &["", "# c", "vt 1 2"],
        Kind::OffMesh | Kind::OffPoints => &["", "# c"],
        Kind::Pts => &[""],
        Kind::Gcode => &["", "; c", "M1 X2"],
        _ => &[],
    }
}
fn run(c: &mut Ctx, name: &str, k: Kind, lines: &[String], at: usize, end: &str) {
    let d = render(lines, end);
    c.state(&(k, &d));
    c.case(
        || format!("{} {:?} line {} of {:?}", name, k, at, String::from_utf8_lossy(&d)),
        |c| {
            c.trans(1);
            match load_bytes(k, &d) {
                Ok(_) => c.note("read anyway", 1),
                Err(e) => {
                    c.note("rejected", 1);
                    about(&e, lines, at)?;
                    if let Some(s) = stream(k, Src::new(&Rc::new(d.clone()), Plan::Piece(2))) {
                        let mut first = None;
                        match s {
                            Err(e) => first = Some(e),
                            Ok(it) => {
                                for x in it {
                                    if let Err(e) = x {
                                        first = Some(e);
                                        break;
                                    }
                                }
                            }
                        }
                        if let Some(e) = first {
                            about(&e, lines, at).map_err(|x| format!("while streaming: {}", x))?;
                        }
                    }
                }
            }
            Ok(())
        },
    );
}
fn spoil(c: &mut Ctx, name: &str, k: Kind, text: &str) {
    let lines: Vec<String> = text.split_terminator('\n').map(|s| s.to_string()).collect();
    let n = lines.iter().count();
    for i in 0..n {
        for s in spoiled(&lines[i]) {
            if free(k, &lines[i], &s) {
                continue;
            }
            let mut l = lines.clone();
            l[i] = s.clone();
            for end in ["\n", "\r\n", " \t\n"] {
                run(c, name, k, &l, i + 1, end);
            }
            // with a line that carries nothing at every place
            for x in noise(k) {
                for p in 0..=n {
                    let mut m = l.clone();
                    m.insert(p, x.to_string());
                    run(c, name, k, &m, if p <= i { i + 2 } else { i + 1 }, "\n");
                    if n < 20 && (c.thorough() || s == "@") {
                        for q in p..=n + 1 {
                            let mut m2 = m.clone();
                            m2.insert(q, x.to_string());
                            let at = if p <= i { i + 1 } else { i };
                            run(c, name, k, &m2, if q <= at { at + 2 } else { at + 1 }, "\n");
                        }
                    }
                }
            }
            // the first of two spoiled lines counts
            if load_bytes(k, &render(&l, "\n")).map_or_else(|e| matches!(parse(&e), Ok((At::Line(..), _))), |_| false) {
                for j in i + 1..n {
                    for s in ["@", ""] {
                        let mut m = l.clone();
                        m[j] = s.into();
                        run(c, name, k, &m, i + 1, "\n");
                    }
                }
            }
            if c.stopped() {
                return;
            }
        }
    }
}
/// the end of the file and failures of the reader: the lines read so far
fn ends(c: &mut Ctx, name: &str, k: Kind, text: &str) {
    let d = text.as_bytes();
    for cut in 0..=d.len() {
        let full = d[..cut].iter().filter(|b| **b == b'\n').count();
        let part = cut > 0 && d[cut - 1] != b'\n';
        let seen = full + part as usize;
        let lines: Vec<String> = String::from_utf8_lossy(&d[..cut]).split_terminator('\n').map(|s| s.to_string()).collect();
        let judge = |e: &str| -> R {
            match parse(e)? {
                (At::Number(n), _) => ensure!(n == seen || n == seen + 1 || (part && n == full), "names line {} after {} lines: {}", n, seen, e),
                (At::Line(n, t), _) => {
                    ensure!(n == seen, "names line {} after {} lines: {}", n, seen, e);
                    ensure!(blank(&lines[n - 1]).ends_with(blank(&t)), "quotes {:?}: {}", t, e);
                }
                (At::Nothing, _) => {}
            }
            Ok(())
        };
        c.state(&(k, &d[..cut], 0));
        c.case(
            || format!("{} {:?} cut at {} of {:?}", name, k, cut, text),
            |c| {
                c.trans(1);
                match load_bytes(k, &d[..cut]) {
                    Ok(_) => Ok(()),
                    Err(e) => judge(&e),
                }
            },
        );
        let data = Rc::new(d.to_vec());
        c.state(&(k, &d[..cut], 1));
        c.case(
            || format!("{} {:?} read failure at {} of {:?}", name, k, cut, text),
            |c| {
                c.trans(1);
                match load(k, Src::failing(&data, Plan::Piece(1), cut, EK::Other, true)) {
                    Ok(_) => Ok(()),
                    Err(e) => match parse(&e)? {
                        (At::Number(n), _) => {
                            ensure!(n == full || n == full + 1, "names line {} after {} complete lines: {}", n, full, e);
                            Ok(())
                        }
                        (At::Line(..), _) => Err(format!("blames a line: {}", e)),
                        (At::Nothing, _) => Ok(()),
                    },
                }
            },
        );
    }
}
/// a file of that many points (and faces)
fn long(k: Kind, n: usize) -> String {
    let v = |i: usize| format!("{} {} {}\n", i, i % 7, i * i);
    let f = |i: usize| [i % n, (i + 1) % n, (i + 2) % n];
    let mut s = String::new();
    match k {
        Kind::Xy => (0..n).for_each(|i| s += &format!("{} {}\n", i, i * i)),
        Kind::Xyz => (0..n).for_each(|i| s += &v(i)),
        Kind::ObjMesh | Kind::ObjPoints => {
            (0..n).for_each(|i| s += &format!("# {}\nv {}", i, v(i)));
            (0..n).for_each(|i| s += &format!("g {}\nf {}//1 {}//2 {}//3\n", i, f(i)[0] + 1, f(i)[1] + 1, f(i)[2] + 1))
        }
        Kind::OffMesh | Kind::OffPoints => {
            s += &format!("OFF\n{} {} 0\n", n, n);
            (0..n).for_each(|i| s += &v(i));
            (0..n).for_each(|i| s += &format!("3 {} {} {}\n", f(i)[0], f(i)[1], f(i)[2]))
        }
        Kind::PlyMesh | Kind::PlyPoints | Kind::PlyEither => {
            s += &format!("ply\nformat ascii 1.0\nelement vertex {}\nproperty float x\nproperty float y\nproperty float z\nelement face {}\nproperty list uchar int vertex_indices\nend_header\n", n, n);
            (0..n).for_each(|i| s += &v(i));
            (0..n).for_each(|i| s += &format!("3 {} {} {}\n", f(i)[0], f(i)[1], f(i)[2]))
        }
        Kind::Pts => (1..n).for_each(|m| {
            s += &format!("{}\n", m);
            (0..m).for_each(|i| s += &v(i))
        }),
        Kind::Ptx => (1..n).for_each(|m| {
            s += &format!("{}\n2\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n1 0 0 0\n0 1 0 0\n0 0 1 0\n{} 0 0 1\n", m, m);
            (0..2 * m).for_each(|i| s += &v(i))
        }),
        Kind::Gcode => (0..n).for_each(|i| s += &format!("G91\nM3\nG{} X{} Y{}\nG92 Z{}\n", i % 3 + 1, i, i * i, i)),
        Kind::StlDuped(_) | Kind::StlUnique(_) | Kind::StlTriplets(_) => {
            s += "solid long\n";
            (0..n).for_each(|i| s += &format!("facet normal 0 0 1\nouter loop\nvertex {} 0 0\nvertex 0 {} 0\nvertex 0 0 1\nendloop\nendfacet\n", i + 1, i + 2));
            s += "endsolid long\n"
        }
        _ => {}
    }
    s
}
fn longs(c: &mut Ctx, k: Kind) {
    for n in [3, c.q(8, 12)] {
        let text = long(k, n);
        c.case(
            || format!("{:?} long file of {}", k, n),
            |_| {
                let r = load_bytes(k, text.as_bytes());
                ensure!(r.is_ok(), "{:?}", r);
                Ok(())
            },
        );
        spoil(c, &format!("long {}", n), k, &text);
        ends(c, &format!("long {}", n), k, &text);
    }
}
/// faults in far away lines
fn far(c: &mut Ctx, k: Kind) {
    let per = match k {
        Kind::Gcode => 4,
        Kind::StlDuped(_) | Kind::StlUnique(_) | Kind::StlTriplets(_) => 7,
        _ => 1,
    };
    for n in [40usize, 300, 1100, 4200, 66_000] {
        // blocks of growing size
        let text = match k {
            Kind::Pts => long(k, (2.0 * n as f64).sqrt() as usize + 1),
            Kind::Ptx => long(k, (n as f64).sqrt() as usize + 1),
            _ => long(k, n / per),
        };
        let lines: Vec<String> = text.split_terminator('\n').map(|s| s.to_string()).collect();
        let m = lines.iter().count();
        let mut at: Vec<usize> = [n / 2, m / 2, m - 2, m - 1].to_vec();
        for b in [16usize, 32, 64, 100, 128, 255, 256, 1000, 1024, 4096, 65_535, 65_536] {
            at.extend([b - 1, b, b + 1]);
        }
        at.sort();
        at.dedup();
        for i in at {
            if i >= m || n > 300 && i + 10 < n / 4 {
                continue;
            }
            let w = words(&lines[i]);
            let mut l = lines.clone();
            let last = w.iter().count() - 1;
            for s in ["@".to_string(), w[..last].join(" "), format!("{} @", w[..last].join(" "))] {
                if s.is_empty() || free(k, &lines[i], &s) {
                    continue;
                }
                l[i] = s;
                run(c, &format!("far {}", n), k, &l, i + 1, if i % 2 == 0 { "\n" } else { "\r\n" });
            }
            if c.stopped() {
                return;
            }
        }
    }
}
fn shown(c: &mut Ctx) {
    use rust_3d::io::*;
    for l in 0..c.q(30, 300) {
        let text: String = (0..l).map(|i| format!("{} 1 2\n", i)).collect::<String>() + "7 x y\n";
        c.case(
            || format!("message for line {}", l + 1),
            |c| {
                c.trans(1);
                let mut v: Vec<rust_3d::Point3D> = vec![];
                match load_xyz(text.as_bytes(), &mut v) {
                    Ok(_) => Err("read".into()),
                    Err(e) => {
                        let m = format!("{}", e);
                        ensure!(m.contains(&format!("{}", l + 1)) && m.contains("7 x y") && m.contains(&format!("{}", XyzError::Vertex)), "message {:?}", m);
                        Ok(())
                    }
                }
            },
        );
    }
}
fn main() {
    let mut gs = vec![g("messages", shown)];
    for k in KINDS {
        if !long(k, 3).is_empty() && !matches!(k, Kind::StlDuped(Fm::Binary) | Kind::StlUnique(Fm::Binary) | Kind::StlTriplets(Fm::Binary)) {
            gs.push(g(format!("long {:?}", k), move |c| longs(c, k)));
            gs.push(g(format!("far {:?}", k), move |c| far(c, k)));
        }
    }
    for s in corpus() {
        if !s.text {
            continue;
        }
        for k in s.kinds.clone() {
            let (n, t) = (s.name.clone(), String::from_utf8(s.data.clone()).unwrap());
            let (n2, t2) = (n.clone(), t.clone());
            gs.push(g(format!("lines {} {:?}", n, k), move |c| spoil(c, &n, k, &t)));
            gs.push(g(format!("ends {} {:?}", n2, k), move |c| ends(c, &n2, k, &t2)));
        }
    }
    mc::main(
        Spec {
            prop: "C42",
            level: "model_checking",
            rule: "a state is one (reader, file): every line of every text format spoiled in every word, cut after every word or replaced, with every line end, a line without contents inserted at every place, a second spoiled line behind it; every cut and every position of a read failure; transitions are loads",
            assumptions: &["faults of the whole mesh (indices) or of a header need no line", "at the end of the file the number of the last line or the one behind it are both right"],
        },
        gs,
    )
}
