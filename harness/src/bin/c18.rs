//! C18: OBJ and OFF files are read as their text says. Every file is interpreted by an independent reading of the format.
use mc::io::*;
use mc::*;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Want {
    /// must be read as this
    Is(Out),
    /// must be rejected
    Bad,
    /// not settled by the format: rejected or read as one of these
    May(Vec<Out>),
}
fn words(l: &str) -> Vec<&str> {
    l.split(|c: char| c == ' ' || c == '\t' || c == '\r').filter(|w| !w.is_empty()).collect()
}
fn nums(w: &[&str]) -> Option<[f64; 3]> {
    if w.len() < 3 {
        return None;
    }
    let mut p = [0.0; 3];
    for c in 0..3 {
        p[c] = w[c].parse().ok()?
    }
    Some(p)
}
/// indices: relative (negative) ones and ones in front of their vertex are not settled
fn obj(text: &str, mesh: bool) -> Want {
    let mut o = Out::default();
    let total = text.split('\n').filter(|l| words(l).first() == Some(&"v")).count();
    let mut may = false;
    for l in text.split('\n') {
        let w = words(l);
        match w.first() {
            Some(&"v") => match nums(&w[1..]) {
                Some(p) => o.pts.push(b3(p)),
                None => return Want::Bad,
            },
            Some(&"f") if mesh => {
                let mut ids = vec![];
                for x in &w[1..] {
                    if x.starts_with('#') {
                        break;
                    }
                    let n = o.pts.as_slice().iter().count() as i64;
                    match x.split('/').next().unwrap().parse::<i64>() {
                        Ok(i) if i > n && i <= total as i64 => {
                            may = true;
                            ids.push(i - 1)
                        }
                        Ok(i) if i >= 1 && i <= n => ids.push(i - 1),
                        Ok(i) if i < 0 && i >= -n => {
                            may = true;
                            ids.push(n + i)
                        }
                        _ => return Want::Bad,
                    }
                }
                let k = ids.as_slice().iter().count();
                if k < 3 {
                    return Want::Bad;
                }
                for j in 2..k {
                    let f = [ids[0] as usize, ids[j - 1] as usize, ids[j] as usize];
                    if f[0] == f[1] || f[0] == f[2] || f[1] == f[2] {
                        return Want::Bad; // not a triangle, the mesh can't hold it
                    }
                    o.faces.push(f)
                }
            }
            _ => (),
        }
    }
    if may {
        Want::May(vec![o])
    } else {
        Want::Is(o)
    }
}
fn off(text: &str, mesh: bool) -> Want {
    let mut ls = text.split('\n').map(words).filter(|w| !w.is_empty() && !w[0].starts_with('#')).peekable();
    let mut counts: Option<Vec<&str>> = None;
    match ls.peek() {
        Some(w) if w[0] == "OFF" => {
            if w.len() > 1 && !w[1].starts_with('#') {
                counts = Some(w.as_slice()[1..].to_vec())
            }
            ls.next();
        }
        _ => (),
    }
    let headless = text.split('\n').map(words).find(|w| !w.is_empty() && !w[0].starts_with('#')).map(|w| w[0] != "OFF").unwrap_or(true);
    let c = match counts.or_else(|| ls.next()) {
        Some(c) => c,
        None => return Want::Bad,
    };
    let nv: usize = match c[0].parse() {
        Ok(n) => n,
        _ => return Want::Bad,
    };
    let nf: Option<usize> = c.get(1).and_then(|w| w.parse().ok());
    let mut o = Out::default();
    for _ in 0..nv {
        match ls.next().and_then(|w| nums(&w)) {
            Some(p) => o.pts.push(b3(p)),
            None => return Want::Bad,
        }
    }
    if !mesh {
        return if nf.is_none() || headless { Want::May(vec![o]) } else { Want::Is(o) };
    }
    let nf = match nf {
        Some(n) => n,
        None => return Want::Bad,
    };
    let mut face = |w: Vec<&str>, o: &mut Out| -> bool {
        if w[0] != "3" || w.len() < 4 {
            return false;
        }
        let mut f = [0; 3];
        for j in 0..3 {
            match w[j + 1].parse::<usize>() {
                Ok(i) if i < nv => f[j] = i,
                _ => return false,
            }
        }
        if f[0] == f[1] || f[0] == f[2] || f[1] == f[2] {
            return false;
        }
        o.faces.push(f);
        true
    };
    for _ in 0..nf {
        match ls.next() {
            Some(w) if face(w.clone(), &mut o) => (),
            _ => return Want::Bad,
        }
    }
    if ls.peek().is_some() {
        // more than declared: only the declared or all of them
        let mut all = o.clone();
        let ok = ls.all(|w| face(w, &mut all));
        return Want::May(if ok { vec![o, all] } else { vec![o] });
    }
    if headless {
        Want::May(vec![o])
    } else {
        Want::Is(o)
    }
}
fn check(c: &mut Ctx, k: Kind, text: &str) {
    let d = Rc::new(text.as_bytes().to_vec());
    c.case(
        || format!("{:?} {:?}", k, text),
        |c| {
            c.state(&(k, text));
            c.trans(1);
            let want = match k {
                Kind::ObjMesh => obj(text, true),
                Kind::ObjPoints => obj(text, false),
                Kind::OffMesh => off(text, true),
                _ => off(text, false),
            };
            match (load(k, Src::new(&d, Plan::Whole)), want) {
                (Ok(o), Want::Is(w)) => {
                    c.note("read", 1);
                    ensure!(o == w, "read {:?} instead of {:?}", o, w)
                }
                (Err(e), Want::Is(w)) => return Err(format!("rejected ({}) instead of {:?}", e, w)),
                (Ok(o), Want::Bad) => return Err(format!("read as {:?}", o)),
                (Err(_), Want::Bad) => c.note("rejected", 1),
                (Ok(o), Want::May(w)) => {
                    c.note("unsettled read", 1);
                    ensure!(w.as_slice().iter().any(|x| *x == o), "read {:?}, rejecting or {:?} would do", o, w)
                }
                (Err(_), Want::May(_)) => c.note("unsettled rejected", 1),
            }
            Ok(())
        },
    );
}
const STMTS: [&str; 30] = [
    "v 1 2 3",
    "f 1 2 3",
    "v -0.5 1e3 0",
    "f 1/1/1 3/2/1 2/3/1",
    "v 4 5 6 1.0",
    "f 3//1 2//2 1//3",
    "# v 9 9 9",
    "f 2/7 1/8 3/9 4/1",
    "",
    "vn 0 0 1",
    "f 1 2 3 # 4",
    "vt 0.5 0.5",
    "v 7 8 9 0.1 0.2 0.3",
    "f -1 -2 -3",
    "f 0 1 2",
    "f 1 2 4",
    "f 1 2",
    "f 1 2 2",
    "v 1 2",
    "v 1 a 3",
    "g f 1 2 3",
    "o v",
    "usemtl v",
    "s 1",
    "  v 10 11 12",
    "\tf\t2  3\t1",
    "vp 1 2 3",
    "l 1 2",
    "fo 1 2 3",
    "mtllib f.mtl",
];
/// all statement sequences
fn obj_sequences(c: &mut Ctx, first: usize) {
    for n in 0..=c.q(3, 4) {
        tuples(STMTS.len(), n, |t| {
            let mut s = String::from(STMTS[first]);
            for i in t {
                s += "\n";
                s += STMTS[*i]
            }
            for nl in ["", "\n"] {
                if nl.is_empty() && n == 4 {
                    continue;
                }
                let s = s.clone() + nl;
                check(c, Kind::ObjMesh, &s);
                if n < 4 {
                    check(c, Kind::ObjPoints, &s);
                }
            }
            !c.stopped()
        });
    }
}
/// sequences behind three vertices
fn obj_bodies(c: &mut Ctx, first: usize) {
    for n in 0..=c.q(2, 3) {
        tuples(STMTS.len(), n, |t| {
            let mut s = String::from("v 0 0 1\nv 2 0 1\nv 0 3 1\n");
            s += STMTS[first];
            s += "\n";
            for i in t {
                s += STMTS[*i];
                s += "\n";
            }
            check(c, Kind::ObjMesh, &s);
            !c.stopped()
        });
    }
}
/// all index lists of faces in all syntaxes
fn obj_faces(c: &mut Ctx) {
    let pre = "v 0 0 0\nv 1 0 0\nv 0 1 0\nv 0 0 1\nv 5 5 5\n";
    for n in 0..=c.q(6, 7) {
        let m = if n > 5 { 5 } else { 7 };
        tuples(m, n, |t| {
            for form in 0..if n < 5 { 7 } else { 3 } {
                let w: Vec<String> = t
                    .iter()
                    .enumerate()
                    .map(|(j, i)| {
                        let i = if m == 5 { i + 1 } else { *i };
                        match form {
                            0 => format!("{}", i),
                            1 => format!("{}/{}/{}", i, j + 1, 3),
                            2 => format!("{}//{}", i, 9 - j),
                            3 => format!("{}/{}", i, 2),
                            4 => format!(" {}", i),
                            5 => format!("{}/", i),
                            _ => format!("{}", i as i64 - 4),
                        }
                    })
                    .collect();
                for nl in ["\n", "\r\n"] {
                    let s = format!("{}f {}{}", pre, w.join(" "), nl);
                    check(c, Kind::ObjMesh, &s);
                    if n == 3 {
                        // another one behind
                        check(c, Kind::ObjMesh, &format!("{}f 5 4 3{}v 9 9 9{}", s, nl, nl))
                    }
                }
            }
            !c.stopped()
        });
    }
}
/// faces refer to no other vertex than the one whose index is given, however large that index is
fn index_words(c: &mut Ctx) {
    let mut words: Vec<String> = vec![];
    for k in 1..=128u32 {
        for i in 0..5u128 {
            let x = 1u128.checked_shl(k).unwrap_or(0);
            words.push(format!("{}", x.wrapping_add(i)));
            words.push(format!("-{}", x.wrapping_add(i)));
            words.push(format!("{}", x.wrapping_sub(i)));
        }
    }
    for k in 1..=40usize {
        for i in 0..5u128 {
            words.push(format!("{}{}", i + 1, "0".repeat(k)));
            words.push(format!("1{}{}", "0".repeat(k), i));
        }
    }
    for w in words.as_slice().iter() {
        for at in 0..3 {
            for nl in ["\n", "\r\n"] {
                for back in ["", "f 3 2 1\n"] {
                    let mut f = ["1", "2", "3"];
                    f[at] = w;
                    check(c, Kind::ObjMesh, &format!("v 0 0 0\nv 1 0 0\nv 0 1 0\nv 0 0 1\nv 5 5 5\nf {}{}{}", f.join(" "), nl, back));
                    check(c, Kind::ObjMesh, &format!("v 0 0 0\nv 1 0 0\nv 0 1 0\nv 0 0 1\nv 5 5 5\nf {}/1 4{}{}", f.join("//1 "), nl, back));
                }
                let mut f = ["0", "1", "2"];
                f[at] = w;
                check(c, Kind::OffMesh, &format!("OFF{}4 2 0{}0 0 0{}1 0 0{}0 1 0{}0 0 1{}3 1 2 3{}3 {}{}", nl, nl, nl, nl, nl, nl, nl, f.join(" "), nl));
                check(c, Kind::OffMesh, &format!("OFF{}4 2 0{}0 0 0{}1 0 0{}0 1 0{}0 0 1{}3 {}{}3 1 2 3{}", nl, nl, nl, nl, nl, nl, f.join(" "), nl, nl));
            }
        }
        if c.stopped() {
            return;
        }
    }
}
/// ignored lines and separators of every length
fn long_lines(c: &mut Ctx) {
    for k in (0..c.q(300usize, 1500)).chain([1023, 1024, 4095, 4096, 8191, 8192, 8193, 65535, 65536, 70000]) {
        for nl in ["\n", "\r\n"] {
            let b = " ".repeat(k);
            for x in ["#", "# ", "#v 1 2 3 ", "# f 1 2 3 "] {
                let l = format!("{}{}", x, "v 0 ".repeat(k / 4));
                check(c, Kind::ObjMesh, &format!("{}{}v 0 0 0{}v 1 0 0{}{}{}v 0 1 0{}f 1 2 3{}{}{}", l, nl, nl, nl, l, nl, nl, nl, l, nl));
                both(c, &format!("{}{}OFF{}{}{}3 1 0{}0 0 0{}1 0 0{}{}{}0 1 0{}{}{}3 0 1 2{}{}", l, nl, nl, l, nl, nl, nl, nl, l, nl, nl, l, nl, nl, l));
            }
            for b in [&b, &"\t".repeat(k), &" \t".repeat(k / 2)] {
                check(c, Kind::ObjMesh, &format!("{}{}v 0 0 0{}v 1 0 0{}{}{}v 0 1 0{}f 1 2 3{}{}{}", b, nl, nl, nl, b, nl, nl, nl, b, nl));
                both(c, &format!("{}{}OFF{}{}{}3 1 0{}{}{}0 0 0{}1 0 0{}{}{}0 1 0{}{}{}3 0 1 2{}{}", b, nl, nl, b, nl, nl, b, nl, nl, nl, b, nl, nl, b, nl, nl, b));
            }
            check(c, Kind::ObjMesh, &format!("v 0 {}0 0{}{}v 1 0 0{}v{} 0 1 0{}{}f {}1 2 3{}{}", b, nl, b, nl, b, b, nl, b, b, nl));
            both(c, &format!("OFF{}{}3 1 0{}0 0{} 0{}{}1 0 0{}0 1 0{}{}3 {}0 1 2{}{}", nl, b, nl, b, nl, b, nl, b, nl, b, b, nl));
        }
        if c.stopped() {
            return;
        }
    }
}
/// several polygons in a row, all lengths
fn polygons(c: &mut Ctx) {
    let pre: String = (0..12).map(|i| format!("v {} {} {}\n", i, i * i, 1)).collect();
    for n in 1..=c.q(3, 4) {
        tuples(10, n, |t| {
            let mut s = pre.clone();
            for (i, k) in t.iter().enumerate() {
                let ids: Vec<String> = (0..k + 3).map(|j| format!("{}", (i * 5 + j * 7) % 12 + 1)).collect();
                s += &format!("f {}\n", ids.join(" "));
                if i % 2 == 1 {
                    s += "v 1 1 1\n"
                }
            }
            check(c, Kind::ObjMesh, &s);
            !c.stopped()
        });
    }
}
fn off_text(head: &str, counts: &str, vs: &[&str], fs: &[&str], noise: &[(usize, &str)], nl: &str) -> String {
    let mut l: Vec<String> = vec![];
    if !head.is_empty() {
        l.push(head.into())
    }
    l.push(counts.into());
    l.extend(vs.iter().map(|x| x.to_string()));
    l.extend(fs.iter().map(|x| x.to_string()));
    for (p, t) in noise.iter().rev() {
        let p = (*p).min(l.as_slice().iter().count());
        l.insert(p, t.to_string())
    }
    l.join(nl) + nl
}
fn both(c: &mut Ctx, s: &str) {
    check(c, Kind::OffMesh, s);
    check(c, Kind::OffPoints, s);
}
/// blank and comment lines at every set of up to three places
fn off_noise(c: &mut Ctx) {
    let noise = ["", "   ", "# c", "# 1 2 3", "#3 0 1 2", "#", "\t", "#OFF"];
    let vs = ["0 0 0", "1 0 0.5", "0 1e1 0", "-1 -1 -1"];
    let fs = ["3 0 1 2", "3 1 3 2"];
    for nv in 0..=4usize {
        for nf in 0..=2usize {
            if nf > 0 && nv < 4 {
                continue;
            }
            let counts = format!("{} {} 0", nv, nf);
            let lines = 2 + nv + nf;
            for k in 0..=c.q(2, 3) {
                tuples(noise.len() * (lines + 1), k, |t| {
                    if t.windows(2).any(|w| w[0] / noise.len() > w[1] / noise.len()) {
                        return true;
                    }
                    let n: Vec<(usize, &str)> = t.iter().map(|x| (x / noise.len(), noise[x % noise.len()])).collect();
                    for nl in ["\n", "\r\n"] {
                        both(c, &off_text("OFF", &counts, &vs[..nv], &fs[..nf], &n, nl));
                    }
                    !c.stopped()
                });
            }
        }
    }
}
/// every combination of header, counts and numbers of vertices and faces
fn off_counts(c: &mut Ctx) {
    let vs = ["0 0 0", "1 0 0.5 7 8 9", "0\t1e1 0", "  -1 -1  -1"];
    let fs = ["3 0 1 2", "3 1 3 2 255 0 0", "3  0\t3 1", "3 2 3 0 # x"];
    for head in ["OFF", "", "OFF # x", "OFF BINARY", "COFF", "off"] {
        for sep in [" ", "  ", "\t"] {
            for tail in ["", " 0", " 7", " # x", " a"] {
                for a in 0..6 {
                    for b in 0..6 {
                        for nv in 0..=4 {
                            for nf in 0..=4 {
                                let counts = format!("{}{}{}{}", a, sep, b, tail);
                                both(c, &off_text(head, &counts, &vs[..nv], &fs[..nf], &[], "\n"));
                                if head == "OFF" {
                                    // in one line
                                    both(c, &off_text("", &format!("OFF{}{}", sep, counts), &vs[..nv], &fs[..nf], &[], "\n"));
                                }
                                if c.stopped() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    for counts in ["", "4", "x 2 0", "4 x 0", "-4 2 0", "4 -2 0", "4.0 2 0", "4 2.0", "18446744073709551616 0 0", "4 18446744073709551616", "99999999999 0 0", "4 99999999999 0"] {
        both(c, &off_text("OFF", counts, &vs, &fs[..2], &[], "\n"));
    }
}
/// vertex and face lines of every form at every place
fn off_lines(c: &mut Ctx) {
    let vl = ["0 0 0", "1.5 -2 3e2", "1 2", "1", "a 2 3", "1 b 3", "1 2 c", "1 2 3 4", "1 2 3 # 4", "1 2 # 3", "+1 .5 5.", "1,2,3", "nope"];
    let fl = ["3 0 1 2", "3 2 1 0", "3 0 1", "3", "3 0 1 9", "3 0 1 4", "3 1 1 2", "4 0 1 2 3", "2 0 1", "3 0 1 -1", "3 0 1 2 1.0 0 0", "x 0 1 2", "3 a 1 2", "3 0 b 2", "3 0 1 c", "03 0 1 2", "3 0 1.0 2", "3 # 0 1 2", "1 0", "0"];
    for n in 0..=4 {
        tuples(vl.len(), n, |t| {
            let vs: Vec<&str> = t.iter().map(|i| vl[*i]).collect();
            for nf in 0..2 {
                both(c, &off_text("OFF", &format!("{} {} 0", n, nf), &vs, &["3 0 1 2"][..nf], &[], "\n"));
            }
            !c.stopped()
        });
    }
    let vs = ["0 0 0", "1 0 0", "0 1 0", "0 0 1"];
    for n in 0..=c.q(3, 4) {
        tuples(fl.len(), n, |t| {
            let fs: Vec<&str> = t.iter().map(|i| fl[*i]).collect();
            both(c, &off_text("OFF", &format!("4 {} 0", n), &vs, &fs, &[], "\n"));
            !c.stopped()
        });
    }
    // all index triples
    for n in 1..=2 {
        tuples(6 * 6 * 6, n, |t| {
            let fs: Vec<String> = t.iter().map(|i| format!("3 {} {} {}", i / 36, i / 6 % 6, i % 6)).collect();
            let fs: Vec<&str> = fs.iter().map(|x| x.as_str()).collect();
            for nv in 4..=6 {
                let mut v = vs.to_vec();
                v.extend_from_slice(&["5 5 5", "6 6 6"][..nv - 4]);
                check(c, Kind::OffMesh, &off_text("OFF", &format!("{} {} 0", nv, n), &v, &fs, &[], "\n"));
            }
            !c.stopped()
        });
    }
}
/// many vertices and faces
fn sizes(c: &mut Ctx) {
    for n in (3..c.q(150usize, 600)).chain([1025, 4097, HUGE]) {
        let v: Vec<String> = (0..n).map(|i| format!("{} {} {}", i, i % 7, i / 7)).collect();
        let f: Vec<[usize; 3]> = (0..2 * n).map(|i| [i % n, (i + 1) % n, (i + 2) % n]).collect();
        let v: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
        let off: Vec<String> = f.iter().map(|f| format!("3 {} {} {}", f[0], f[1], f[2])).collect();
        let off: Vec<&str> = off.iter().map(|x| x.as_str()).collect();
        both(c, &off_text("OFF", &format!("{} {} 0", n, 2 * n), &v, &off, &[], "\n"));
        let mut s = String::new();
        for x in &v {
            s += &format!("v {}\n", x)
        }
        for x in &f {
            s += &format!("f {}/1 {}/2 {}/3\n", x[0] + 1, x[1] + 1, x[2] + 1)
        }
        check(c, Kind::ObjMesh, &s);
        check(c, Kind::ObjPoints, &s);
    }
}
/// one polygon of every number of vertices
fn large(c: &mut Ctx) {
    for n in (3..c.q(400usize, 1300)).chain([1025, 4097]) {
        let v: Vec<String> = (0..n).map(|i| format!("{} {} {}", i, i % 7, i / 7)).collect();
        let v: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
        for sh in 0..2 {
            let ids: Vec<usize> = (0..n).map(|i| (i + sh) % n).collect();
            let f = format!("{} {}", n, ids.as_slice().iter().map(|i| i.to_string()).collect::<Vec<_>>().join(" "));
            for tail in &["", " 255 0 0", " # c"] {
                let f = f.clone() + tail;
                both(c, &off_text("OFF", &format!("{} 1 0", n), &v, &[&f], &[], "\n"));
                if n > 3 {
                    both(c, &off_text("OFF", &format!("{} 2 0", n), &v, &["3 0 1 2", &f], &[], "\n"));
                }
            }
            let mut s = String::new();
            for x in &v {
                s += &format!("v {}\n", x)
            }
            s += "f";
            for (k, i) in ids.as_slice().iter().enumerate() {
                s += &format!(" {}{}", i + 1, ["", "/3", "//7", "/1/2"][(k + n) % 4]);
            }
            s += "\nf 1 2 3\n";
            check(c, Kind::ObjMesh, &s);
        }
        if c.stopped() {
            return;
        }
    }
}
fn odd(c: &mut Ctx) {
    use Must::*;
    let obj = "v 1.5 -2 70\nv 30 4e1 8\nvn 1 0 0\nv 5 60 9\nv 5 6 90\nf 1 2 3\nf 4 3 1\n";
    let v: Vec<(usize, usize, Must)> = [0, 1, 3, 4].iter().flat_map(|l| (1..4).map(move |w| (*l, w, Float))).collect();
    odd_words(c, Kind::ObjPoints, obj, &v, "");
    odd_words(c, Kind::ObjMesh, obj, &v, "");
    let f: Vec<(usize, usize, Must)> = (5..7).flat_map(|l| (1..4).map(move |w| (l, w, Count))).collect();
    odd_words(c, Kind::ObjMesh, obj, &f, "/");
    for off in ["OFF\n4 2 0\n1.5 -2 70\n30 4e1 8\n5 60 9\n5 6 90\n3 0 1 2\n3 1 3 2\n", "OFF\n4 2\n1.5 -2 70\n30 4e1 8\n5 60 9 1 1\n5 6 90\n3 0 1 2 255 0 0\n3 1 3 2\n"] {
        let mut w: Vec<(usize, usize, Must)> = (2..6).flat_map(|l| (0..3).map(move |w| (l, w, Float))).collect();
        w.push((1, 0, Count));
        odd_words(c, Kind::OffPoints, off, &w, "#");
        w.push((1, 1, Count));
        w.extend((6..8).flat_map(|l| (1..4).map(move |w| (l, w, Count))));
        w.extend([(6, 0, Exact), (7, 0, Exact)]);
        odd_words(c, Kind::OffMesh, off, &w, "#");
        // within the words behind the first one, the sign of comments is as odd as any other
        let w: Vec<(usize, usize, Must)> = w.into_iter().filter(|x| x.1 > 0).collect();
        odd_words(c, Kind::OffMesh, off, &w, "");
    }
}
fn main() {
    let mut v = vec![g("obj faces", obj_faces), g("index words", index_words), g("long lines", long_lines), g("obj polygons", polygons), g("off noise", off_noise), g("off counts", off_counts), g("off lines", off_lines), g("odd words", odd), g("sizes", sizes), g("large polygons", large)];
    for i in 0..STMTS.len() {
        v.push(g(format!("obj sequences {}", STMTS[i]), move |c| obj_sequences(c, i)));
        v.push(g(format!("obj bodies {}", STMTS[i]), move |c| obj_bodies(c, i)));
    }
    mc::main(
        Spec {
            prop: "C18",
            level: "model_checking",
            rule: "a state is one (reader, file text); all OBJ statement sequences up to the stated length over an alphabet of 30 statements (also behind three vertices), all index lists in all face syntaxes, all OFF files over blank/comment placements, counts, vertex and face line forms; each compared with an independent interpreter that says read-as, rejected, or unsettled",
            assumptions: &["relative OBJ indices and indices in front of their vertex may be rejected", "OFF lines behind the declared contents may be ignored, rejected or read as further faces"],
        },
        v,
    )
}
