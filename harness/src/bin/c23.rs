//! C23: delivering the same bytes in differently sized pieces, down to one byte at a time and with interrupted reads,
//! gives the same result as delivering them at once - for valid files and for broken ones, for the one-shot loaders and
//! for the streaming readers.
use mc::io::*;
use mc::*;
use std::rc::Rc;

fn run(k: Kind, d: &Rc<Vec<u8>>, p: Plan) -> (LR, usize) {
    calls();
    let r = load(k, Src::new(d, p));
    (r, calls())
}
/// Everything a streaming reader yields
fn items(k: Kind, d: &Rc<Vec<u8>>, p: Plan) -> Option<Vec<Res<Item>>> {
    Some(match stream(k, Src::new(d, p))? {
        Ok(s) => s.take(10_000).collect(),
        Err(e) => vec![Err(e)],
    })
}
fn check(c: &mut Ctx, name: &str, k: Kind, d: &Rc<Vec<u8>>, want: &LR, p: Plan) -> bool {
    c.case(
        || format!("{} {:?} {:?} {:?}", name, k, p, String::from_utf8_lossy(d)),
        |c| {
            let (r, n) = run(k, d, p.clone());
            c.trans(n);
            c.state(&(k, &d[..], format!("{:?}", p)));
            ensure!(r == *want, "{:?} instead of {:?}", r, want);
            Ok(())
        },
    )
}
fn sample(c: &mut Ctx, i: usize) {
    let s = &corpus()[i];
    let d = Rc::new(s.data.clone());
    let n = d.len();
    for (k, w) in s.kinds.iter().zip(&s.want) {
        let w: LR = Ok(w.clone());
        check(c, &s.name, *k, &d, &w, Plan::Whole);
        for m in 1..=n {
            check(c, &s.name, *k, &d, &w, Plan::Piece(m));
            check(c, &s.name, *k, &d, &w, Plan::Interrupted(m));
        }
        // every way to cut the file once or twice
        for a in 1..n {
            check(c, &s.name, *k, &d, &w, Plan::Cuts(vec![a]));
        }
        let limit = c.q(400, 2000);
        if n <= limit {
            for a in 1..n {
                for b in a + 1..n {
                    if c.stopped() {
                        return;
                    }
                    check(c, &s.name, *k, &d, &w, Plan::Cuts(vec![a, b]));
                }
            }
        } else {
            for a in 1..n {
                for w in [1, 2, 3, 4, 7, 8, 12] {
                    if a + w < n {
                        check(c, &s.name, *k, &d, &Ok(s.want[s.kinds.iter().position(|x| x == k).unwrap()].clone()), Plan::Cuts(vec![a, a + w]));
                    }
                }
            }
        }
        // three cuts
        if c.thorough() && n <= 130 {
            for a in 1..n {
                for b in a + 1..n {
                    for e in b + 1..n {
                        if c.stopped() {
                            return;
                        }
                        check(c, &s.name, *k, &d, &w, Plan::Cuts(vec![a, b, e]));
                    }
                }
            }
        }
        // streaming
        if let Some(whole) = items(*k, &d, Plan::Whole) {
            for m in 1..=n {
                for p in [Plan::Piece(m), Plan::Interrupted(m), Plan::Cuts(vec![m])] {
                    c.case(
                        || format!("{} stream {:?} {:?}", s.name, k, p),
                        |_| {
                            let r = items(*k, &d, p.clone());
                            ensure!(r.as_ref() == Some(&whole), "{:?} instead of {:?}", r, whole);
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}
/// Broken files: same verdict and same error however they are delivered
fn broken(c: &mut Ctx, i: usize) {
    let s = &corpus()[i];
    let n = s.data.len();
    let mut files: Vec<Vec<u8>> = (0..n).map(|p| s.data[..p].to_vec()).collect();
    for p in 0..n {
        for b in c.q(&[b'x', 0xff, b'\n'][..], &[b'x', 0xff, b'\n', b' ', b'0', 0, b'-', b'9'][..]) {
            let mut d = s.data.clone();
            d[p] = *b;
            files.push(d)
        }
        let mut d = s.data.clone();
        d.remove(p);
        files.push(d);
    }
    for k in &s.kinds {
        for d in &files {
            let d = Rc::new(d.clone());
            let whole = load(*k, Src::new(&d, Plan::Whole));
            for p in [Plan::Piece(1), Plan::Piece(2), Plan::Piece(3), Plan::Piece(5), Plan::Interrupted(1), Plan::Interrupted(4)] {
                if c.stopped() {
                    return;
                }
                check(c, &s.name, *k, &d, &whole, p);
            }
        }
    }
}
/// Every sequence of piece lengths for very small files (all 2^(n-1) ways to cut them)
fn all_cuts(c: &mut Ctx, k: Kind, text: &'static str) {
    let d = Rc::new(text.as_bytes().to_vec());
    let n = d.len();
    let whole = load(k, Src::new(&d, Plan::Whole));
    for m in 0u64..1 << (n - 1) {
        if c.stopped() {
            return;
        }
        let cuts: Vec<usize> = (1..n).filter(|i| m >> (i - 1) & 1 == 1).collect();
        check(c, "small", k, &d, &whole, Plan::Cuts(cuts));
    }
}
/// Files larger than the buffer of a buffered reader, shifted so that every line meets every buffer border
fn large(c: &mut Ctx) {
    let n = 700;
    for f in &large_files(n) {
        let (kinds, d) = ([f.kind], &f.data);
        for k in &kinds {
            let whole = load_bytes(*k, d);
            c.case(
                || format!("large {:?}", k),
                |_| {
                    let o = whole.as_ref().map_err(|e| e.clone())?;
                    ensure!(o.pts.len() >= n - 1, "{} points", o.pts.len());
                    Ok(())
                },
            );
            for cap in (1..=c.q(160, 600)).chain([511, 512, 1024, 4095, 4096, 8191, 8192, 8193, 16384]) {
                if c.stopped() {
                    return;
                }
                c.case(
                    || format!("large {:?} BufReader capacity {}", k, cap),
                    |c| {
                        c.state(&(k, cap));
                        let r = load(*k, std::io::BufReader::with_capacity(cap, std::io::Cursor::new(&d[..])));
                        ensure!(r == whole, "{:?} instead of {:?}", r, whole);
                        Ok(())
                    },
                );
            }
        }
    }
}
/// Files with long lines and elements
fn wide(c: &mut Ctx, w: usize) {
    for f in &wide_files(w) {
        let n = f.data.len();
        let whole = load_bytes(f.kind, &f.data);
        c.case(
            || format!("wide {} {:?}", w, f.kind),
            |_| {
                let o = whole.as_ref().map_err(|e| e.clone())?;
                ensure!(o.pts.len() >= 2, "{} points", o.pts.len());
                Ok(())
            },
        );
        let mut at: Vec<usize> = if n < c.q(3000, 30_000) { (1..n).collect() } else { positions(n) };
        at.retain(|a| *a > 0 && *a < n);
        for a in at {
            for p in [Plan::Piece(a), Plan::Interrupted(a), Plan::Cuts(vec![a]), Plan::Cuts(vec![a, a + w / 2]), Plan::Cuts(vec![a, a + 1])] {
                if c.stopped() {
                    return;
                }
                c.case(
                    || format!("{} more bytes per line or element {:?} {:?}", w, f.kind, p),
                    |c| {
                        let (r, calls) = run(f.kind, &f.data, p.clone());
                        c.trans(calls);
                        c.state(&(f.kind, w, n, a, format!("{:?}", p)));
                        ensure!(r == whole, "{:?} instead of {:?}", r, whole);
                        Ok(())
                    },
                );
            }
        }
    }
}
const SMALL: &[(Kind, &str)] = &[
    (Kind::Xy, "1 2\r\n3 4\r\n"),
    (Kind::Xy, "1;2\n\n3;4"),
    (Kind::Xy, "1,2 \n-3e1,x"),
    (Kind::Xyz, "1 2 3\n4 5 6"),
    (Kind::Xyz, "1;2;3\r\n4;5\r\n"),
    (Kind::ObjPoints, "v 1 2 3\r\n\n"),
    (Kind::ObjMesh, "f 1 2 3\nv 1"),
    (Kind::OffPoints, "OFF\n1\n1 2 3\n"),
    (Kind::OffMesh, "OFF\n0 1\n3 "),
    (Kind::Pts, "1\n1 2 3\r\n0\n"),
    (Kind::Ptx, "0\n0\n0\n0\n0\n0\n"),
    (Kind::Gcode, "G1 X1;c\nG91"),
    (Kind::PlyMesh, "ply\nformat"),
    (Kind::StlTriplets(Fm::Auto), "solid\nend"),
    (Kind::StlDuped(Fm::Ascii), "solid\nfacet"),
    (Kind::Psl, "PSL \x01\0\0\0"),
];
fn main() {
    let mut v = vec![];
    let names: Vec<String> = corpus().iter().map(|s| s.name.clone()).collect();
    for (i, n) in names.iter().enumerate() {
        v.push(g(format!("valid {}", n), move |c| sample(c, i)));
    }
    for (i, n) in names.iter().enumerate() {
        v.push(g(format!("broken {}", n), move |c| broken(c, i)));
    }
    for (i, (k, t)) in SMALL.iter().enumerate() {
        v.push(g(format!("cuts {} {:?}", i, k), move |c| all_cuts(c, *k, t)));
    }
    v.push(g("large files", large));
    for w in [20usize, 80, 300, 5000] {
        v.push(g(format!("wide {}", w), move |c| wide(c, w)));
    }
    mc::main(
        Spec {
            prop: "C23",
            level: "model_checking",
            rule: "a state is one (reader, file, delivery schedule); a transition is one request for more input answered by the schedule; every piece size, every position (pair of positions) to cut at, every subset of cut positions of very small files, interruptions before every piece",
            assumptions: &["the reader hands out the bytes of the file in order", "the corpus holds one to a few small files per format"],
        },
        v,
    )
}
