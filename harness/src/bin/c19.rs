//! C19: PTS and PTX scans are read completely, block by block, with the transformation of their block.
use mc::io::*;
use mc::*;
use std::rc::Rc;

fn coord(i: usize) -> [f64; 3] {
    [i as f64, 0.5 * (i % 3) as f64 - 1.0, [2.0, -4.0, 1024.0, 0.0][i % 4]]
}
const COLS: [&str; 7] = ["", " 0.5", " -100 255 0 7", "  1\t2 3 4 5 6 7 8", " # x", " nan", " 12 abc"];
fn line(p: [f64; 3], cols: &str, gap: &str) -> String {
    format!("{}{}{}{}{}{}", p[0], gap, p[1], gap, p[2], cols)
}
fn expect(c: &mut Ctx, k: Kind, text: &str, want: &[[f64; 3]]) {
    let d = Rc::new(text.as_bytes().to_vec());
    c.case(
        || format!("{:?} {:?}", k, if text.len() > 600 { &text[..600] } else { text }),
        |c| {
            c.state(&(k, text));
            c.trans(1);
            let w: Vec<B3> = want.iter().map(|p| b3([p[0] + 0.0, p[1] + 0.0, p[2] + 0.0])).collect();
            let pos = |v: Vec<B3>| -> Vec<B3> { v.as_slice().iter().map(|p| { let f = f3(p); b3([f[0] + 0.0, f[1] + 0.0, f[2] + 0.0]) }).collect() };
            let o = load(k, Src::new(&d, Plan::Whole))?;
            let got = pos(o.pts);
            ensure!(got == w, "read {:?} instead of {:?}", got.as_slice().iter().map(f3).collect::<Vec<_>>(), want);
            let it: Vec<Item> = match stream(k, Src::new(&d, Plan::Piece(7))) {
                Some(Ok(i)) => i.collect::<std::result::Result<Vec<_>, _>>()?,
                _ => return Err("no stream".into()),
            };
            ensure!(pos(assemble(k, &it)?.pts) == w, "streamed {:?}", it);
            Ok(())
        },
    );
}
fn reject(c: &mut Ctx, k: Kind, text: &str) {
    let d = Rc::new(text.as_bytes().to_vec());
    c.case(
        || format!("{:?} {:?}", k, text),
        |c| {
            c.state(&(k, text));
            c.trans(1);
            match load(k, Src::new(&d, Plan::Whole)) {
                Err(_) => Ok(()),
                Ok(o) => Err(format!("read as {:?}", o)),
            }
        },
    );
}
// ---------------------------------------------------------------- pts
fn pts_blocks(c: &mut Ctx) {
    for n in 0..=c.q(4, 5) {
        if n == 0 {
            continue;
        }
        tuples(5, n, |sizes| {
            for cols in 0..COLS.len() {
                for nl in ["\n", "\r\n"] {
                    for style in 0..6 {
                        if n > 3 && (style > 0 || cols % 2 > 0) {
                            continue;
                        }
                        let mut want = vec![];
                        let mut s = String::new();
                        for (b, k) in sizes.iter().enumerate() {
                            match style {
                                1 => s += &format!("  {}{}", k, nl),
                                2 => s += &format!("{} {}", k, nl),
                                3 => s += &format!("{}{}{}{}", nl, k, nl, nl),
                                4 => s += &format!("0{}{}", k, nl),
                                5 => s += &format!("{} points{}", k, nl),
                                _ => s += &format!("{}{}", k, nl),
                            }
                            for i in 0..*k {
                                let p = coord(b * 10 + i);
                                want.push(p);
                                s += &line(p, COLS[(cols + i) % 7], if style == 1 { "\t " } else { " " });
                                s += nl;
                                if style == 3 {
                                    s += nl
                                }
                            }
                        }
                        expect(c, Kind::Pts, &s, &want);
                        if s.ends_with(nl) {
                            expect(c, Kind::Pts, &s[..s.len() - nl.len()], &want);
                        }
                    }
                }
            }
            !c.stopped()
        });
    }
}
/// all sequences of counts and points: the blocks they make, or rejected
fn pts_lines(c: &mut Ctx) {
    let ls = ["0", "1", "2", "1 2 3", "4 5 6 7", "3", "", "1.5 0 0", "x", "1 2", "1 2 x", "-1"];
    for n in 1..=c.q(5, 6) {
        tuples(ls.len(), n, |t| {
            let s: String = t.iter().map(|i| format!("{}\n", ls[*i])).collect();
            // own reading
            let mut want = Some(vec![]);
            let mut left = None;
            for i in t {
                let w: Vec<&str> = ls[*i].split(' ').filter(|x| !x.is_empty()).collect();
                if w.is_empty() {
                    continue;
                }
                match left {
                    None | Some(0) => match w[0].parse::<usize>() {
                        Ok(n) => left = Some(n),
                        Err(_) => {
                            want = None;
                            break;
                        }
                    },
                    Some(n) => {
                        let v: Vec<f64> = w.iter().take(3).filter_map(|x| x.parse().ok()).collect();
                        if v.as_slice().iter().count() < 3 {
                            want = None;
                            break;
                        }
                        if let Some(x) = want.as_mut() {
                            x.push([v[0], v[1], v[2]])
                        }
                        left = Some(n - 1)
                    }
                }
            }
            match (want, left) {
                (Some(_), None) => (), // nothing at all
                (Some(w), Some(0)) => expect(c, Kind::Pts, &s, &w),
                _ => reject(c, Kind::Pts, &s),
            }
            !c.stopped()
        });
    }
}
fn sizes(c: &mut Ctx) {
    for n in (0..c.q(300usize, 2000)).chain([1025, 4097, HUGE]) {
        for b in 1..4 {
            let mut s = String::new();
            let mut x = String::new();
            let mut want = vec![];
            let mut wx = vec![];
            for k in 0..b {
                let m = if k == 0 { n } else { (n * 7 + k) % 11 };
                s += &format!("{}\n", m);
                x += &head(1, m, &ID, "");
                for i in 0..m {
                    let p = coord(i + k);
                    want.push(p);
                    wx.push(p);
                    s += &(line(p, " 1 2 3 4", " ") + "\n");
                    x += &(line(p, " 0.5", " ") + "\n");
                }
            }
            expect(c, Kind::Pts, &s, &want);
            expect(c, Kind::Ptx, &x, &wx);
        }
        if c.stopped() {
            return;
        }
    }
}
// ---------------------------------------------------------------- ptx
/// image of x, y, z axis and translation: the four lines of the file
type Tr = [[f64; 3]; 4];
const ID: Tr = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, 0.0]];
fn apply(t: &Tr, p: [f64; 3]) -> [f64; 3] {
    let mut o = [0.0; 3];
    for c in 0..3 {
        o[c] = t[0][c] * p[0] + t[1][c] * p[1] + t[2][c] * p[2] + t[3][c]
    }
    o
}
fn head(cols: usize, rows: usize, t: &Tr, trail: &str) -> String {
    let mut s = format!("{}\n{}\n{} {} {}\n1 0 0\n0 1 0\n0 0 1\n", cols, rows, t[3][0], t[3][1], t[3][2]);
    for i in 0..4 {
        s += &format!("{} {} {} {}{}\n", t[i][0], t[i][1], t[i][2], if i == 3 { 1 } else { 0 }, trail)
    }
    s
}
fn transforms() -> Vec<Tr> {
    let mut v = vec![ID];
    let mut t = ID;
    t[3] = [10.0, -20.0, 0.5];
    v.push(t);
    // quarter turns and mirrors: all signed permutations
    permutations(3, |p| {
        for s in 0..8 {
            let mut t = [[0.0; 3]; 4];
            for i in 0..3 {
                t[i][p[i]] = if s >> i & 1 == 1 { -1.0 } else { 1.0 }
            }
            t[3] = [1.0, 2.0, 4.0];
            v.push(t)
        }
        true
    });
    // one entry changed
    for i in 0..4 {
        for c in 0..3 {
            for x in [0.5, -3.0, 0.0] {
                let mut t = ID;
                t[i][c] = x;
                v.push(t)
            }
        }
    }
    v
}
fn ptx_transforms(c: &mut Ctx) {
    let ts = transforms();
    let n = ts.as_slice().iter().count();
    // all pairs of blocks
    for a in 0..n {
        for b in 0..=n {
            for (r, k) in [(1, 2), (2, 1), (2, 2), (0, 3)] {
                let mut s = String::new();
                let mut want = vec![];
                for (i, t) in [a, b].iter().enumerate() {
                    if *t == n {
                        continue;
                    }
                    s += &head(k, r, &ts[*t], if a % 2 == 0 { "" } else { "  " });
                    for j in 0..r * k {
                        let p = coord(i * 5 + j + a);
                        want.push(apply(&ts[*t], p));
                        s += &(line(p, COLS[(a + b + j) % 7], " ") + "\n");
                    }
                }
                expect(c, Kind::Ptx, &s, &want);
                expect(c, Kind::Ptx, &s.replace('\n', "\r\n"), &want);
            }
        }
        if c.stopped() {
            return;
        }
    }
    // chains of blocks: the transformation of one does not reach the next
    for len in 3..=c.q(3, 4) {
        let m = 5;
        tuples(m * 4, len, |x| {
            let mut s = String::new();
            let mut want = vec![];
            for (i, y) in x.iter().enumerate() {
                let t = &ts[[0, 1, 5, 20, 52][y % m]];
                let (r, k) = [(1, 1), (0, 1), (3, 1), (1, 0)][y / m];
                s += &head(k, r, t, "");
                for j in 0..r * k {
                    let p = coord(i * 3 + j);
                    want.push(apply(t, p));
                    s += &(line(p, " 0.5 1 2 3", " ") + "\n");
                }
            }
            expect(c, Kind::Ptx, &s, &want);
            !c.stopped()
        });
    }
}
/// transformations that differ by amounts of any size from one that changes nothing
fn ptx_deviations(c: &mut Ctx) {
    for k in (0..=100).step_by(c.q(2, 1)) {
        for sign in [1.0f64, -1.0] {
            for (i, j) in (0..4).flat_map(|i| (0..3).map(move |j| (i, j))) {
                let mut t = ID;
                t[i][j] += sign * 2f64.powi(-k);
                let mut s = String::new();
                let mut want = vec![];
                for b in [&ID, &t, &ID] {
                    s += &head(1, 4, b, "");
                    for u in 0..4 {
                        let mut p = [0.0; 3];
                        if u < 3 {
                            p[u] = 1.0
                        }
                        want.push(apply(b, p));
                        s += &(line(p, "", " ") + "\n");
                    }
                }
                expect(c, Kind::Ptx, &s, &want);
            }
        }
    }
}
fn ptx_shapes(c: &mut Ctx) {
    for n in 1..=c.q(3, 4) {
        tuples(16, n, |t| {
            for cols in 0..if n < 3 { 7 } else { 2 } {
                let mut s = String::new();
                let mut want = vec![];
                for (b, x) in t.iter().enumerate() {
                    let (k, r) = (x / 4, x % 4);
                    let mut tr = ID;
                    if (b + cols) % 2 == 1 {
                        tr[3] = [8.0, 16.0, -32.0];
                        tr[0] = [0.0, 1.0, 0.0];
                        tr[1] = [-1.0, 0.0, 0.0];
                    }
                    s += &head(k, r, &tr, "");
                    for j in 0..r * k {
                        let p = coord(b * 16 + j);
                        want.push(apply(&tr, p));
                        s += &(line(p, COLS[(cols + j) % 7], if cols == 3 { "\t" } else { " " }) + "\n");
                    }
                }
                expect(c, Kind::Ptx, &s, &want);
                expect(c, Kind::Ptx, s.trim_end_matches('\n'), &want);
            }
            !c.stopped()
        });
    }
}
/// Every line of a file with two blocks removed or replaced by nonsense
fn ptx_broken(c: &mut Ctx) {
    let mut tr = ID;
    tr[3] = [8.0, 16.0, -32.0];
    for (k, r) in [(2, 1), (1, 2), (2, 2)] {
        let mut s = String::new();
        for b in 0..2 {
            s += &head(k, r, &tr, "");
            for j in 0..r * k {
                s += &(line(coord(b * 4 + j + 1), " 0.5", " ") + "\n");
            }
        }
        let ls: Vec<&str> = s.lines().collect();
        let n = ls.as_slice().iter().count();
        let per = n / 2;
        for i in 0..n {
            let role = i % per;
            for by in ["x", "1 x 3 4", "1", "1 2", "x 2 3 4", "1 2 x 4"] {
                // the scanner position and axes are not interpreted
                let numeric = by.split(' ').all(|w| w.parse::<f64>().is_ok());
                if (2..6).contains(&role) || role < 2 && by == "1" || role >= 10 && numeric && by.len() > 4 {
                    continue;
                }
                let mut v = ls.clone();
                v[i] = by;
                reject(c, Kind::Ptx, &(v.join("\n") + "\n"));
            }
        }
        // not a multiple of the declared points
        for cut in 1..n {
            if cut != per {
                reject(c, Kind::Ptx, &(ls.as_slice()[..cut].join("\n") + "\n"))
            }
        }
    }
}
fn odd(c: &mut Ctx) {
    use Must::*;
    let pts = "2\n1.5 -2 70\n30 4e1 8 5 128 0 0\n1\n5 60 9\n";
    let mut w: Vec<(usize, usize, Must)> = [1, 2, 4].iter().flat_map(|l| (0..3).map(move |w| (*l, w, Float))).collect();
    w.extend([(0, 0, Count), (3, 0, Count)]);
    odd_words(c, Kind::Pts, pts, &w, "");
    let ptx = "1\n2\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n10 0 0 0\n0 1 0 0\n0 0 1 0\n5 6 7 1\n1.5 -2 70 0.5\n30 4e1 8\n1\n1\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n5 60 9 1\n";
    let mut w: Vec<(usize, usize, Must)> = [10, 11, 22].iter().flat_map(|l| (0..3).map(move |w| (*l, w, Float))).collect();
    w.extend([6, 7, 8, 9, 18, 19, 20, 21].iter().flat_map(|l| (0..4).map(move |w| (*l, w, Float))));
    w.extend([(0, 0, Count), (1, 0, Count), (12, 0, Count), (13, 0, Count)]);
    odd_words(c, Kind::Ptx, ptx, &w, "");
}
fn main() {
    mc::main(
        Spec {
            prop: "C19",
            level: "model_checking",
            rule: "a state is one (reader, file text); all sequences of block sizes up to the stated length with every kind of extra columns and line style, all sequences of PTS lines up to a length over an alphabet of counts, points and nonsense, all pairs and chains of PTX blocks over all signed axis permutations and single changed matrix entries, every line of a PTX file replaced or cut; read at once and in pieces",
            assumptions: &["affine PTX transformations with values for which the arithmetic is exact"],
        },
        vec![g("pts blocks", pts_blocks), g("pts lines", pts_lines), g("odd words", odd), g("sizes", sizes), g("ptx transformations", ptx_transforms), g("ptx deviations", ptx_deviations), g("ptx shapes", ptx_shapes), g("ptx broken", ptx_broken)],
    )
}
