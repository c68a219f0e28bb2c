//! C26: what a streaming reader yields is what the one-shot loader of the format loads, an error exactly when that one
//! fails; nothing follows an error or the end; skipping never changes later elements.
use mc::io::*;
use mc::*;
use std::rc::Rc;

type It = Res<Item>;
fn open(k: Kind, d: &Rc<Vec<u8>>) -> Option<Res<Stream<'static>>> {
    stream(k, Src::new(d, Plan::Whole))
}
/// Everything a reader yields up to its end or first error, and whether it failed when it was opened
fn collect(k: Kind, d: &Rc<Vec<u8>>) -> Res<Vec<It>> {
    let mut v = vec![];
    let mut s = open(k, d).unwrap()?;
    loop {
        match s.next() {
            None => break,
            Some(Err(e)) => {
                v.push(Err(e));
                break;
            }
            x => v.push(x.unwrap()),
        }
        ensure_len(&v);
    }
    for j in 0..6 {
        if let Some(x) = if j % 2 == 0 { s.next() } else { s.nth(j) } {
            panic!("{:?} after the end or an error", x)
        }
    }
    Ok(v)
}
fn ensure_len(v: &[It]) {
    assert!(v.len() < 1_000_000, "endless");
}
fn agree(k: Kind, d: &Rc<Vec<u8>>) -> Res<Option<Vec<It>>> {
    let whole = load(k, Src::new(d, Plan::Whole));
    let v = match collect(k, d) {
        Err(e) => {
            ensure!(whole == Err(e.clone()), "opening failed with {} but the loader gives {:?}", e, whole);
            return Ok(None);
        }
        Ok(v) => v,
    };
    let mut good: Vec<Item> = vec![];
    for i in &v {
        match i {
            Ok(i) => good.push(i.clone()),
            Err(e) => {
                // the loader might have noticed a bad face before
                let expect = match assemble(k, &good) {
                    Err(_) => whole.is_err(),
                    Ok(_) => whole.as_ref() == Err(e),
                };
                ensure!(expect, "the stream fails with {} after {} items, the loader gives {:?}", e, good.len(), whole);
                return Ok(Some(v));
            }
        }
    }
    match (assemble(k, &good), &whole) {
        (Ok(a), Ok(b)) if a == *b => (),
        (Err(_), Err(_)) => (),
        (a, b) => return Err(format!("the stream gives {:?}, the loader {:?}", a, b)),
    }
    Ok(Some(v))
}
/// Every call sequence over next, nth(1), nth(2), nth(5) up to the length
fn calls_ok(c: &mut Ctx, name: &str, k: Kind, d: &Rc<Vec<u8>>, v: &[It], len: usize) {
    const SKIP: [usize; 4] = [0, 1, 2, 5];
    tuples(4, len, |t| {
        c.case(
            || format!("{} {:?} {:?} skips {:?}", name, k, String::from_utf8_lossy(d), t.iter().map(|i| SKIP[*i]).collect::<Vec<_>>()),
            |c| {
                c.state(&(k, &d[..], t));
                c.trans(len);
                let mut s = open(k, d).unwrap()?;
                let (lo, hi) = s.size_hint();
                ensure!(lo <= v.len() && hi.map_or(true, |h| h >= v.len()), "size hint {:?} for {} items", (lo, hi), v.len());
                let mut pos = 0;
                for i in t {
                    let n = SKIP[*i];
                    let r = if n == 0 { s.next() } else { s.nth(n) };
                    let want = v.get(pos + n).cloned();
                    pos += n + 1;
                    ensure!(r == want, "item {}: {:?} instead of {:?}", pos - 1, r, want);
                }
                let rest: Vec<It> = s.collect();
                ensure!(rest[..] == v[pos.min(v.len())..], "rest {:?} instead of {:?}", rest, &v[pos.min(v.len())..]);
                Ok(())
            },
        );
        !c.stopped()
    });
}
/// Everything an iterator offers beside next
fn consume_ok(c: &mut Ctx, name: &str, k: Kind, d: &Rc<Vec<u8>>, v: &[It]) {
    for how in 0..CONSUME.len() {
        for before in [0, 1, 2, v.len() / 2, v.len(), v.len() + 1] {
            c.case(
                || format!("{} {:?} {:?} {} after {}", name, k, String::from_utf8_lossy(&d[..d.len().min(300)]), CONSUME[how], before),
                |c| {
                    c.state(&(k, &d[..], how, before));
                    c.trans(v.len());
                    let h = Consume { before, how };
                    let want = consumed(v, &h);
                    let got = with_stream(k, Src::new(d, Plan::Whole), h).unwrap()?;
                    ensure!(got == want, "{:?} instead of {:?}", &got[..got.len().min(5)], &want[..want.len().min(5)]);
                    Ok(())
                },
            );
        }
    }
}
/// Files of many elements: whole, cut, with a changed byte; streams skipping far
fn large(c: &mut Ctx, n: usize, wide: bool) {
    for (i, f) in if wide { wide_files(n) } else { large_files(n) }.iter().enumerate() {
        if open(f.kind, &f.data).is_none() {
            continue;
        }
        let len = f.data.as_slice().iter().count();
        let mut v = vec![];
        c.case(
            || format!("{} {} {:?}", n, if wide { "more bytes per line or element" } else { "points" }, f.kind),
            |_| {
                if let Some(x) = agree(f.kind, &f.data)? {
                    v = x
                }
                ensure!(v.as_slice().iter().count() >= if wide { 2 } else { n - 7 } && v.as_slice().iter().all(|x| x.is_ok()), "{} items", v.as_slice().iter().count());
                Ok(())
            },
        );
        let few = |v: Vec<usize>| v.into_iter().step_by(if n < 10_000 { 1 } else { 5 }).collect::<Vec<usize>>();
        for p in if wide && (len < 1500 || c.thorough()) { (0..len).collect() } else { few(positions(len - 1)) } {
            if c.stopped() {
                return;
            }
            for what in 0..4 {
                c.case(
                    || format!("{} {} {:?} change {} at {} of {}", n, if wide { "more bytes per line or element" } else { "points" }, f.kind, what, p, len),
                    |c| {
                        let mut d = f.data.to_vec();
                        match what {
                            0 => d.truncate(p),
                            1 => d[p] = b'x',
                            2 => d[p] = 0xff,
                            _ => d[p] = b'\n',
                        }
                        c.state(&(n, wide, i, p, what));
                        c.trans(1);
                        let d = Rc::new(d);
                        agree(f.kind, &d).map(|_| ())
                    },
                );
            }
        }
        let m = v.as_slice().iter().count();
        consume_ok(c, "large", f.kind, &f.data, &v);
        for skip in few(positions(m)) {
            for then in [0, 1, 300] {
                c.case(
                    || format!("{} {} {:?} nth({}) then nth({})", n, if wide { "more bytes per line or element" } else { "points" }, f.kind, skip, then),
                    |c| {
                        c.state(&(n, wide, i, skip, then, "nth"));
                        c.trans(2);
                        let mut s = open(f.kind, &f.data).unwrap()?;
                        ensure!(s.nth(skip).as_ref() == v.get(skip), "item {}", skip);
                        ensure!(s.nth(then).as_ref() == v.get(skip + 1 + then), "item {}", skip + 1 + then);
                        let rest: Vec<It> = s.collect();
                        ensure!(rest[..] == v[(skip + then + 2).min(m)..], "rest differs");
                        Ok(())
                    },
                );
            }
        }
    }
}
fn sample(c: &mut Ctx, i: usize) {
    let s = &corpus()[i];
    let n = s.data.len();
    let mut files: Vec<Vec<u8>> = vec![s.data.clone()];
    for p in 0..n {
        files.push(s.data[..p].to_vec());
        for b in c.q(&[b'x', b'\n', b' ', b'0', b'9', 0xff, 0, 1][..], &[b'x', b'\n', b' ', b'0', b'9', b'-', b'.', b'e', b'#', 0xff, 0, 1, 2, 4, 0x80, 0x7f][..]) {
            let mut d = s.data.clone();
            d[p] = *b;
            files.push(d)
        }
        let mut d = s.data.clone();
        d.remove(p);
        files.push(d);
    }
    if s.text {
        // every line doubled, removed, exchanged with every other line
        let l: Vec<&[u8]> = s.data.split_inclusive(|b| *b == b'\n').collect();
        for a in 0..l.len() {
            let mut x = l.clone();
            x.insert(a, l[a]);
            files.push(x.concat());
            let mut x = l.clone();
            x.remove(a);
            files.push(x.concat());
            for b in a + 1..l.len() {
                let mut x = l.clone();
                x.swap(a, b);
                files.push(x.concat());
            }
        }
    }
    for k in &s.kinds {
        if *k == Kind::PlyEither {
            continue;
        }
        for d in &files {
            if c.stopped() {
                return;
            }
            let d = Rc::new(d.clone());
            let mut got = None;
            c.case(
                || format!("{} {:?} {:?}", s.name, k, String::from_utf8_lossy(&d)),
                |c| {
                    c.state(&(k, &d[..]));
                    got = agree(*k, &d)?;
                    c.trans(got.as_ref().map_or(0, |v| v.len()));
                    Ok(())
                },
            );
            // skipping in valid files and in files with an error
            if let Some(v) = got {
                let error = v.last().map_or(false, |x| x.is_err());
                if error || d[..] == s.data[..] {
                    consume_ok(c, &s.name, *k, &d, &v);
                }
                if d[..] == s.data[..] {
                    calls_ok(c, &s.name, *k, &d, &v, c.q(4, 6));
                } else if error {
                    calls_ok(c, &s.name, *k, &d, &v, 1);
                }
            }
        }
    }
}
/// A source that pauses or fails once and has more data afterwards: nothing follows the end or an error all the same
fn gaps(c: &mut Ctx, i: usize) {
    let s = &corpus()[i];
    let d = Rc::new(s.data.clone());
    for k in &s.kinds {
        if *k == Kind::PlyEither {
            continue;
        }
        for p in 0..=d.len() {
            for fails in [false, true] {
                c.case(
                    || format!("{} {:?} {} at {}", s.name, k, if fails { "fails once" } else { "pauses" }, p),
                    |c| {
                        c.state(&(k, fails, p));
                        let src = if fails {
                            Src::failing(&d, Plan::Whole, p, std::io::ErrorKind::Other, false)
                        } else {
                            let mut x = Src::new(&d, Plan::Whole);
                            x.gap_at = Some(p);
                            x
                        };
                        let mut st = match stream(*k, src).unwrap() {
                            Err(_) => return Ok(()),
                            Ok(st) => st,
                        };
                        let mut n = 0;
                        while let Some(Ok(_)) = st.next() {
                            c.trans(1);
                            n += 1;
                            ensure!(n < 100_000, "endless");
                        }
                        for j in 0..8 {
                            c.trans(1);
                            if let Some(x) = if j == 3 { st.nth(2) } else { st.next() } {
                                return Err(format!("{:?} follows the end or an error after {} items", x, n));
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
        if c.stopped() {
            return;
        }
    }
}
/// All short files over an alphabet of tokens
fn short(c: &mut Ctx, kinds: &[Kind], alphabet: &[&str], prefix: &str, len: usize) {
    for n in 0..=len {
        tuples(alphabet.len(), n, |t| {
            let d: String = prefix.to_string() + &t.iter().map(|i| alphabet[*i]).collect::<String>();
            let d = Rc::new(d.into_bytes());
            for k in kinds {
                c.case(
                    || format!("{:?} {:?}", k, String::from_utf8_lossy(&d)),
                    |c| {
                        c.state(&(k, &d[..]));
                        let v = agree(*k, &d)?;
                        c.trans(v.map_or(0, |v| v.len()));
                        Ok(())
                    },
                );
            }
            !c.stopped()
        });
    }
}
fn main() {
    let mut v = vec![];
    for (i, s) in corpus().iter().enumerate() {
        v.push(g(s.name.clone(), move |c| sample(c, i)));
        v.push(g(format!("paused {}", s.name), move |c| gaps(c, i)));
    }
    let stl = [Kind::StlDuped(Fm::Ascii), Kind::StlUnique(Fm::Ascii), Kind::StlTriplets(Fm::Auto)];
    v.push(g("short xy", |c| short(c, &[Kind::Xy, Kind::Xyz], &["1 2 3\n", "4 5\n", "1;2;3\n", "x 1 2\n", "\n", "7", " "], "", c.q(5, 7))));
    v.push(g("short obj", |c| short(c, &[Kind::ObjMesh, Kind::ObjPoints], &["v 1 2 3\n", "v 4 5\n", "f 1 2 3\n", "f 1 2 3 4\n", "f 2 2 1\n", "f 0 1 2\n", "vn 1 2 3\n", "\n", "# f 1\n"], "", c.q(5, 6))));
    v.push(g("short off", |c| short(c, &[Kind::OffMesh, Kind::OffPoints], &["2 1 0\n", "0 0\n", "1 2 3\n", "3 0 1 2\n", "4 0 1 2 3\n", "\n", "# c\n", "x\n"], "OFF\n", c.q(5, 6))));
    v.push(g("short pts", |c| short(c, &[Kind::Pts], &["0\n", "1\n", "2\n", "1 2 3\n", "4 5 6 7\n", "\n", "x\n"], "", c.q(6, 7))));
    v.push(g("short ptx", |c| short(c, &[Kind::Ptx], &["0\n", "1\n", "1 2 3\n", "1 0 0 0\n", "0 1 0 0\n", "0 0 1 0\n", "x\n"], "1\n1\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n", c.q(5, 6))));
    v.push(g("short gcode", |c| short(c, &[Kind::Gcode], &["G1 X1\n", "G91\n", "G2 Y-2 Z3\n", "G92 X5\n", "G90\n", "G1 Xq\n", ";\n", "G28\n"], "", c.q(5, 6))));
    v.push(g("short stl", move |c| {
        short(c, &stl, &["facet normal 0 0 1\n", "outer loop\n", "vertex 1 2 3\n", "vertex 4 5 6\n", "endloop\n", "endfacet\n", "endsolid\n", "x\n"], "solid\nfacet\nouter loop\nvertex 0 0 0\n", c.q(5, 6))
    }));
    v.push(g("short ply", |c| short(c, &[Kind::PlyMesh, Kind::PlyPoints], &["1 2 3\n", "4 5\n", "3 0 1 2\n", "3 0 1 1\n", "4 0 1 2 3\n", "\n"], "ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face 1\nproperty list uchar int vertex_indices\nend_header\n", c.q(5, 7))));
    for n in [300usize, 1025, 4097, 65_539] {
        v.push(g(format!("large {}", n), move |c| {
            if n < 10_000 || c.thorough() {
                large(c, n, false)
            }
        }));
    }
    for w in [20usize, 80, 300, 5000] {
        v.push(g(format!("wide {}", w), move |c| large(c, w, true)));
    }
    mc::main(
        Spec {
            prop: "C26",
            level: "model_checking",
            rule: "a state is one (reader, input, history of calls); a transition is one call; every truncation, one-byte substitution and deletion, doubled, missing or exchanged line of every file of the corpus, all short files over statement alphabets, all call histories over next and nth up to the length; sources that pause (report an end) or fail once at every position and then continue",
            assumptions: &["the containers used by the loaders behave as C05 and C39 check"],
        },
        v,
    )
}
