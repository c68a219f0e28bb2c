//! C45: XY and XYZ text is read column by column, and the text helpers split as they say.
use mc::io::*;
use mc::*;
use rust_3d::*;
use std::rc::Rc;

const DELIMS: [u8; 4] = [b' ', b';', b',', b'\t'];
/// the independent meaning of a file: the points or the number of the line at fault
fn meaning(n: usize, text: &[u8]) -> std::result::Result<Vec<B3>, usize> {
    let mut delim: Option<u8> = None;
    let mut out = vec![];
    let mut lines: Vec<&[u8]> = text.split(|b| *b == b'\n').collect();
    if lines.as_slice().iter().last().map(|l| l.iter().count() == 0).unwrap_or(false) {
        lines.pop();
    }
    for (i, l) in lines.as_slice().iter().enumerate() {
        let mut l: &[u8] = l;
        while let Some((x, rest)) = l.split_last() {
            if b" \t\r".contains(x) {
                l = rest
            } else {
                break;
            }
        }
        if delim.is_none() {
            delim = DELIMS.as_ref().iter().cloned().find(|d| l.iter().filter(|b| *b == d).count() >= n - 1);
        }
        let d = delim.ok_or(i + 1)?;
        let mut words: Vec<String> = vec![];
        let mut cur: Vec<u8> = vec![];
        for b in l.iter().cloned().chain(Some(d)) {
            if b == d {
                if cur.as_slice().iter().count() > 0 {
                    words.push(String::from_utf8_lossy(&cur).to_string());
                }
                cur.clear();
            } else {
                cur.push(b)
            }
        }
        let mut p = [0.0f64; 3];
        for k in 0..n {
            p[k] = words.as_slice().get(k).and_then(|w| w.parse().ok()).ok_or(i + 1)?;
        }
        out.push(b3(p));
    }
    Ok(out)
}
fn check(c: &mut Ctx, text: &[u8]) {
    for (n, k) in [(2usize, Kind::Xy), (3, Kind::Xyz)] {
        c.state(&(n, text));
        c.case(
            || format!("{:?} {:?}", k, String::from_utf8_lossy(text)),
            |c| {
                c.trans(2);
                let want = meaning(n, text);
                let same = |a: &Vec<B3>, b: &Vec<B3>| a.as_slice().iter().count() == b.as_slice().iter().count() && a.as_slice().iter().zip(b.as_slice()).all(|(x, y)| (0..3).all(|k| x[k] == y[k] || (f3(x)[k].is_nan() && f3(y)[k].is_nan())));
                let got = load_bytes(k, text);
                match (&want, &got) {
                    (Ok(w), Ok(o)) => ensure!(same(w, &o.pts), "{:?} instead of {:?}", o, w.as_slice().iter().map(f3).collect::<Vec<_>>()),
                    (Err(l), Ok(o)) => return Err(format!("{:?} although line {} is at fault", o, l)),
                    (Ok(w), Err(e)) => return Err(format!("{} instead of {:?}", e, w.as_slice().iter().map(f3).collect::<Vec<_>>())),
                    (Err(_), Err(_)) => (),
                }
                // everything in front of the fault is streamed
                let mut items = vec![];
                let mut failed = false;
                if let Some(Ok(s)) = stream(k, Src::new(&Rc::new(text.to_vec()), Plan::Piece(3))) {
                    for x in s {
                        match x {
                            Ok(Item::P(p)) => items.push(p),
                            Ok(x) => return Err(format!("streamed {:?}", x)),
                            Err(_) => failed = true,
                        }
                    }
                }
                ensure!(failed == want.is_err(), "streaming reports an error: {}", failed);
                let good = match &want {
                    Ok(w) => w.clone(),
                    Err(l) => {
                        let upto: Vec<u8> = text.split_inclusive(|b| *b == b'\n').take(l - 1).flatten().cloned().collect();
                        meaning(n, &upto).unwrap_or_default()
                    }
                };
                ensure!(same(&items, &good), "streamed {:?} instead of {:?}", items, good);
                Ok(())
            },
        );
    }
}
/// every line of words and delimiters up to a length
fn single(c: &mut Ctx, len: usize) {
    let tokens = ["1", "-2.5", "1e3", "x", ".5", " ", ";", ",", "\t", "  "];
    for n in 0..=len {
        tuples(tokens.as_ref().iter().count(), n, |t| {
            let l: String = t.iter().map(|i| tokens[*i]).collect();
            check(c, l.as_bytes());
            !c.stopped()
        });
    }
}
/// every sequence of lines up to a length
fn lists(c: &mut Ctx, len: usize) {
    let lines = [
        "1 2 3", "4;5;6", "7,8,9", "1\t2\t3", "1 2", "3;4", "5,6", "5\t6", "1", "", " ", "1  2  3", " 1 2 3", "1 2 3 4 5", "1;2;3;r g b", "1;;2;;3;", ";1;2;3", "a b c", "1 2 z", "1, 2, 3", "1; 2; 3", "1 2;3", "1,2 3,4 5,6", "nan inf -inf", "+1 +2 +3", "1. .2 3e-2",
        "1 2 3\r", "1\u{a0}2\u{a0}3", "1_0 2 3", "0x1 2 3",
    ];
    for n in 1..=len {
        tuples(lines.as_ref().iter().count(), n, |t| {
            let s: Vec<&str> = t.iter().map(|i| lines[*i]).collect();
            for end in ["\n", ""] {
                check(c, (s.join("\n") + end).as_bytes());
            }
            !c.stopped()
        });
    }
}
/// every column of a table widened, with every delimiter and every run of delimiters
fn columns(c: &mut Ctx) {
    for d in [" ", ";", ",", "\t"] {
        for cols in 1..=8usize {
            for run in 1..=3usize {
                for lead in 0..=2usize {
                    for rows in [1usize, 2, 3, 7] {
                        for bad in 0..=rows {
                            for what in ["x", "", "1.2.3"] {
                                let mut s = String::new();
                                for r in 1..=rows {
                                    s += &d.repeat(lead);
                                    for k in 0..cols {
                                        if k > 0 {
                                            s += &d.repeat(run)
                                        }
                                        if r == bad && k == (r + cols) % cols.max(1) {
                                            s += what
                                        } else {
                                            s += &format!("{}", (r * 10 + k) as f64 * 0.25)
                                        }
                                    }
                                    s += "\n";
                                }
                                check(c, s.as_bytes());
                            }
                        }
                    }
                }
            }
        }
    }
}
fn large(c: &mut Ctx) {
    for n in sizes(c.thorough()) {
        for d in [" ", ";", ",", "\t"] {
            let line = |i: usize| format!("{}{}{}{}{}", i as f64 * 0.125, d, -(i as f64), d, i * i);
            let mut s: String = (0..n).map(|i| line(i) + "\n").collect();
            check(c, s.as_bytes());
            // the last line does not fit
            s += &line(1).replace(d, if d == ";" { "," } else { ";" });
            check(c, s.as_bytes());
        }
        // wide lines
        let wide: String = (0..n).map(|i| format!("{} ", i)).collect();
        check(c, wide.as_bytes());
        check(c, format!("{}\n{}", wide, wide).as_bytes());
        let far = format!("1{}2{}3", " ".repeat(n * 37), " ".repeat(n * 91));
        check(c, far.as_bytes());
        check(c, format!("{}4{}5.5{}6", " ".repeat(n * 50), "0".repeat(n * 3), "0".repeat(n * 2)).as_bytes());
    }
}
fn helpers(c: &mut Ctx, len: usize) {
    for n in 0..=len {
        tuples(5, n, |t| {
            let b: Vec<u8> = t.iter().map(|i| [b' ', b';', b',', b'\t', b'a'][*i]).collect();
            c.state(&("text", &b));
            c.case(
                || format!("helpers {:?}", String::from_utf8_lossy(&b)),
                |c| {
                    c.trans(8);
                    let s = std::str::from_utf8(&b).unwrap_or("");
                    for m in 0..=n + 1 {
                        let want = DELIMS.as_ref().iter().cloned().find(|d| b.as_slice().iter().filter(|x| *x == d).count() >= m);
                        ensure!(estimate_delimiter(m, &b) == want, "estimate_delimiter({}) {:?}", m, estimate_delimiter(m, &b));
                    }
                    let words: Vec<&str> = s.split_ascii_whitespace().collect();
                    let got: Vec<Vec<u8>> = to_words_skip_empty(&b).map(|w| w.to_vec()).collect();
                    ensure!(got.as_slice().iter().map(|w| w.as_slice()).eq(words.as_slice().iter().map(|w| w.as_bytes())), "words {:?}", got);
                    for d in DELIMS {
                        let p = b.as_slice().iter().position(|x| *x == d).unwrap_or(n);
                        ensure!(until_bytes(&b, d) == &b[..p], "until_bytes {:?}", d as char);
                        let ds = (d as char).to_string();
                        ensure!(until(s, &ds) == &s[..p], "until {:?}", d as char);
                        let pieces: Vec<&str> = s.split(d as char).filter(|x| !x.is_empty()).collect();
                        let got: Vec<&[u8]> = b.as_slice().split(|x| *x == d).skip_empty().collect();
                        ensure!(got.as_slice().iter().cloned().eq(pieces.as_slice().iter().map(|x| x.as_bytes())), "skip_empty {:?}", got);
                        let got: Vec<&str> = SkipEmptyString::new(s.split(d as char)).collect();
                        ensure!(got == pieces, "SkipEmptyString {:?}", got);
                        let two = format!("{}a", d as char);
                        let p = s.find(&two).unwrap_or(n);
                        ensure!(until(s, &two) == &s[..p], "until {:?}", two);
                    }
                    Ok(())
                },
            );
            !c.stopped()
        });
    }
    // every haystack and needle over two values
    for h in 0..=len {
        tuples(2, h, |t| {
            let hay = t.to_vec();
            for k in 0..=h.min(4) + 1 {
                tuples(2, k, |u| {
                    c.state(&("contains", &hay, u));
                    c.case(
                        || format!("contains {:?} {:?}", hay, u),
                        |c| {
                            c.trans(1);
                            let want = (0..=h).any(|i| i + k <= h && &hay[i..i + k] == u);
                            ensure!(contains(hay.as_slice(), u) == want, "{} instead of {}", !want, want);
                            Ok(())
                        },
                    );
                    !c.stopped()
                });
            }
            !c.stopped()
        });
    }
}
/// long haystacks with the needle (or nearly the needle) at every kind of place, long texts with the delimiter there
fn long_helpers(c: &mut Ctx) {
    for n in sizes(c.thorough()) {
        let mut at: Vec<usize> = positions(n);
        at.extend((0..17).map(|i| n * i / 17));
        at.sort();
        at.dedup();
        for k in [1usize, 2, 3, 7, 64, 257, 1024] {
            for i in at.as_slice().iter().cloned().filter(|i| i + k <= n) {
                for whole in [true, false] {
                    c.state(&("long", n, k, i, whole));
                    c.case(
                        || format!("contains: {} of {} from {} ({})", k, n, i, whole),
                        |c| {
                            c.trans(1);
                            let mut hay = vec![0u16; n];
                            let needle: Vec<u16> = (0..k).map(|j| j as u16 + 1).collect();
                            hay[i..i + k].copy_from_slice(&needle);
                            if !whole {
                                hay[i + k / 2] = 7777
                            }
                            ensure!(contains(hay.as_slice(), needle.as_slice()) == whole, "{} instead of {}", !whole, whole);
                            Ok(())
                        },
                    );
                }
            }
        }
        for i in at.as_slice().iter().cloned().filter(|i| *i < n) {
            for d in DELIMS {
                c.state(&("long text", n, i, d));
                c.case(
                    || format!("{} bytes with {:?} at {}", n, d as char, i),
                    |c| {
                        c.trans(6);
                        let mut b = vec![b'a'; n];
                        b[i] = d;
                        let s = String::from_utf8_lossy(&b).to_string();
                        let ds = (d as char).to_string();
                        ensure!(until_bytes(&b, d) == &b[..i], "until_bytes");
                        ensure!(until(&s, &ds) == &s[..i], "until");
                        let e = b'x';
                        ensure!(until_bytes(&b, e) == &b[..], "until_bytes without");
                        ensure!(until(&s, "x") == s, "until without");
                        ensure!(estimate_delimiter(1, &b) == Some(d), "estimate_delimiter(1) {:?}", estimate_delimiter(1, &b));
                        ensure!(estimate_delimiter(2, &b).is_none(), "estimate_delimiter(2) {:?}", estimate_delimiter(2, &b));
                        let pieces: Vec<usize> = [i, n - i - 1].as_ref().iter().cloned().filter(|x| *x > 0).collect();
                        let got: Vec<usize> = b.as_slice().split(|x| *x == d).skip_empty().map(|x| x.iter().count()).collect();
                        ensure!(got == pieces, "skip_empty {:?}", got);
                        let got: Vec<usize> = SkipEmptyString::new(s.split(d as char)).map(|x| x.bytes().count()).collect();
                        ensure!(got == pieces, "SkipEmptyString {:?}", got);
                        if d == b' ' || d == b'\t' {
                            let got: Vec<usize> = to_words_skip_empty(&b).map(|w| w.iter().count()).collect();
                            ensure!(got == pieces, "words {:?}", got);
                        }
                        // nothing but the delimiter and one letter
                        let mut b = vec![d; n];
                        b[i] = b'a';
                        let got: Vec<usize> = b.as_slice().split(|x| *x == d).skip_empty().map(|x| x.iter().count()).collect();
                        ensure!(got == [1], "skip_empty of delimiters {:?}", got);
                        ensure!(estimate_delimiter(n - 1, &b) == Some(d) || n == 1, "estimate_delimiter({}) {:?}", n - 1, estimate_delimiter(n - 1, &b));
                        ensure!(estimate_delimiter(n, &b).is_none(), "estimate_delimiter({}) {:?}", n, estimate_delimiter(n, &b));
                        Ok(())
                    },
                );
            }
        }
    }
}
fn odd(c: &mut Ctx) {
    use Must::*;
    let xy: Vec<(usize, usize, Must)> = (0..3).flat_map(|l| (0..2).map(move |w| (l, w, Float))).collect();
    odd_words(c, Kind::Xy, "1.5 -2\n30 4e1\n5 60\n", &xy, "");
    odd_words(c, Kind::Xy, "1.5 -2 7\n30 4e1\n5 60 a b\n", &xy, "");
    let xyz: Vec<(usize, usize, Must)> = (0..3).flat_map(|l| (0..3).map(move |w| (l, w, Float))).collect();
    odd_words(c, Kind::Xyz, "1.5 -2 70\n30 4e1 8\n5 60 9\n", &xyz, "");
    odd_words(c, Kind::Xyz, "1.5 -2 70 1\n30 4e1 8 2 3\n5 60 9\n", &xyz, "");
}
fn main() {
    mc::main(
        Spec {
            prop: "C45",
            level: "model_checking",
            rule: "a state is one (reader, file) or helper input: all lines of words and delimiters up to a length, all sequences of lines from an alphabet up to a length, all tables over delimiter x columns x runs x one fault, large files and lines; compared with an independent reading of the text",
            assumptions: &["numbers are what Rust parses as f64"],
        },
        vec![
            g("single lines", |c| single(c, c.q(6, 7))),
            g("lists of lines", |c| lists(c, c.q(3, 4))),
            g("odd words", odd),
            g("columns", columns),
            g("large", large),
            g("long helpers", long_helpers),
            g("helpers", |c| helpers(c, c.q(7, 9))),
        ],
    )
}
