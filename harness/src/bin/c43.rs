//! C43: text forms: parsing coordinates and showing values.
use mc::*;
use rust_3d::*;

const WORDS: [&str; 26] = [
    "1", "-2.5", "0", "-0", "1e3", "2.5E-3", ".5", "5.", "+3", "0.1", "1e400", "4.9e-324", "123456789012345678901234567890", "007", "nan", "inf", "-inf", "abc", "1,5", "1_0", "0x1", "1.2.3", "-", "1e", "--1", "(1",
];
const SEPS: [&str; 3] = [" ", "  ", "    "];

fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan())
}
/// what a text with these words means
fn meaning(words: &[&str], dim: usize) -> Option<Vec<f64>> {
    let v: Vec<f64> = words.iter().map(|w| w.parse::<f64>().ok()).collect::<Option<Vec<f64>>>()?;
    if v.as_slice().iter().count() == dim {
        Some(v)
    } else {
        None
    }
}
fn parse_point(t: &str, dim: usize) -> Option<Vec<f64>> {
    match dim {
        2 => <Point2D as IsBuildable2D>::parse(t).ok().map(|p| vec![p.x(), p.y()]),
        _ => <Point3D as IsBuildable3D>::parse(t).ok().map(|p| vec![p.x(), p.y(), p.z()]),
    }
}
fn check(t: &str, dim: usize, want: &Option<Vec<f64>>) -> R {
    let got = parse_point(t, dim);
    let ok = match (&got, want) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a, b),
        _ => false,
    };
    ensure!(ok, "{:?} as a {}D point gives {:?}, the text means {:?}", t, dim, got, want);
    Ok(())
}
fn words(c: &mut Ctx) {
    // every sequence of words, every position of one wider gap
    for len in 0..=4 {
        let n = if len <= 3 || c.thorough() { WORDS.len() } else { 14 };
        tuples(n, len, |t| {
            let w: Vec<&str> = t.iter().map(|i| if n == 14 { WORDS[*i * 2 % 26] } else { WORDS[*i] }).collect();
            c.state(&t.to_vec());
            c.case(
                || format!("words {:?}", w),
                |c| {
                    for dim in [2, 3] {
                        let want = meaning(&w, dim);
                        c.trans(1);
                        check(&w.join(" "), dim, &want)?;
                        if t.iter().all(|i| *i < 6) {
                            // every separator in every place, in front and behind included
                            let mut e = Ok(());
                            tuples(3, len + 1, |s| {
                                let mut x = String::new();
                                for (i, w) in w.as_slice().iter().enumerate() {
                                    if i > 0 || s[0] > 0 {
                                        x.push_str(SEPS[s[i]])
                                    }
                                    x.push_str(w)
                                }
                                if s[len] > 0 {
                                    x.push_str(SEPS[s[len]])
                                }
                                c.trans(1);
                                e = check(&x, dim, &want);
                                e.is_ok()
                            });
                            e?
                        }
                    }
                    Ok(())
                },
            );
            !c.stopped()
        });
    }
}
/// every printable character (and some beyond ASCII) in front of, behind and instead of each word, and in front of, behind and instead of each line
fn odd(c: &mut Ctx) {
    let chars: Vec<String> = (33u8..127).map(|b| (b as char).to_string()).chain(["\u{e9}", "\u{b2}", "\u{ff11}", "\u{feff}", "\u{1f600}", "//", "--", "##", "\0"].iter().map(|x| x.to_string())).collect();
    for k in chars.as_slice().iter() {
        c.state(k);
        for dim in [2usize, 3] {
            c.case(
                || format!("character {:?} in {}D", k, dim),
                |c| {
                    let base = &["1.5", "-2", "30"][..dim];
                    let one = |x: &[String]| -> Option<Vec<f64>> { meaning(&x.iter().map(|w| w.as_str()).collect::<Vec<_>>(), dim) };
                    let plain: Vec<String> = base.iter().map(|x| x.to_string()).collect();
                    let mut lines: Vec<Vec<String>> = Vec::new();
                    for at in 0..dim {
                        for how in 0..3 {
                            let mut w = plain.clone();
                            w[at] = match how {
                                0 => format!("{}{}", k, w[at]),
                                1 => format!("{}{}", w[at], k),
                                _ => k.clone(),
                            };
                            lines.push(w);
                        }
                    }
                    for at in 0..=dim {
                        let mut w = plain.clone();
                        w.insert(at, k.clone());
                        lines.push(w);
                    }
                    lines.push(vec![k.clone()]);
                    for w in lines.as_slice().iter() {
                        let want = one(w);
                        let t = w.join(" ");
                        c.trans(1);
                        check(&t, dim, &want)?;
                        // the same line within a cloud: first, in between and last
                        for at in 0..3 {
                            let mut texts = vec![plain.join(" "), plain.join(" ")];
                            texts.insert(at, t.clone());
                            let text = texts.join("\n");
                            let want: Option<Vec<Vec<f64>>> = want.clone().map(|x| {
                                let p = one(&plain).unwrap();
                                let mut v = vec![p.clone(), p];
                                v.insert(at, x);
                                v
                            });
                            let got: Option<Vec<Vec<f64>>> = match dim {
                                2 => PointCloud2D::<Point2D>::parse(&text).ok().map(|p| p.data.as_slice().iter().map(|p| vec![p.x, p.y]).collect()),
                                _ => PointCloud3D::<Point3D>::parse(&text).ok().map(|p| p.data.as_slice().iter().map(|p| vec![p.x, p.y, p.z]).collect()),
                            };
                            c.trans(1);
                            let ok = match (&got, &want) {
                                (None, None) => true,
                                (Some(a), Some(b)) => a.as_slice().iter().count() == b.as_slice().iter().count() && a.as_slice().iter().zip(b.as_slice().iter()).all(|(a, b)| same(a, b)),
                                _ => false,
                            };
                            ensure!(ok, "{:?} as a {}D cloud gives {:?}, the text means {:?}", text, dim, got, want);
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}
/// ever longer gaps and numbers
fn long(c: &mut Ctx) {
    for k in (0..c.q(400usize, 3000)).chain([1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 70000]) {
        for dim in [2usize, 3] {
            c.state(&(k, dim));
            c.case(
                || format!("{} more characters in {}D", k, dim),
                |c| {
                    let base = &["1.5", "-2.", "3.0"][..dim];
                    let b = " ".repeat(k);
                    for at in 0..=dim {
                        let t: String = (0..=dim).map(|i| format!("{}{}{}", if i == at { &b[..] } else { "" }, if i > 0 && i < dim { " " } else { "" }, base.get(i).unwrap_or(&""))).collect();
                        c.trans(1);
                        check(&t, dim, &meaning(base, dim))?;
                        if at < dim {
                            for (front, x) in [(true, "0"), (false, "0"), (false, "7")] {
                                let x = x.repeat(k);
                                let (sign, num) = base[at].split_at(if base[at].starts_with('-') { 1 } else { 0 });
                                let w = if front { format!("{}{}{}", sign, x, num) } else { format!("{}{}", base[at], x) };
                                let mut l: Vec<&str> = base.to_vec();
                                l[at] = &w;
                                c.trans(1);
                                check(&l.join(" "), dim, &meaning(&l, dim))?;
                                l.push("1");
                                check(&l.join(" "), dim, &None)?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
        if c.stopped() {
            return;
        }
    }
}
const LINES: [&str; 10] = ["1 2", "1 2 3", "-0 1e300 0.1", "", "4", "7 8 9 10", "a b c", "0.5  -0.25 ", "  0.5 1 2", "5 6"];
fn clouds(c: &mut Ctx) {
    for len in 0..=c.q(5, 6) {
        tuples(LINES.len(), len, |t| {
            let l: Vec<&str> = t.iter().map(|i| LINES[*i]).collect();
            c.state(&t.to_vec());
            c.case(
                || format!("lines {:?}", l),
                |c| {
                    for end in ["", "\n", "\n\n"] {
                        let text = l.join("\n") + end;
                        for dim in [2, 3] {
                            c.trans(1);
                            let want: Option<Vec<Vec<f64>>> =
                                l.as_slice().iter().filter(|x| !x.is_empty()).map(|x| meaning(&x.split(' ').filter(|w| !w.is_empty()).collect::<Vec<_>>(), dim)).collect();
                            let want = want.filter(|v| !v.is_empty());
                            let got: Option<Vec<Vec<f64>>> = match dim {
                                2 => PointCloud2D::<Point2D>::parse(&text).ok().map(|p| p.data.as_slice().iter().map(|p| vec![p.x, p.y]).collect()),
                                _ => PointCloud3D::<Point3D>::parse(&text).ok().map(|p| p.data.as_slice().iter().map(|p| vec![p.x, p.y, p.z]).collect()),
                            };
                            let ok = match (&got, &want) {
                                (None, None) => true,
                                (Some(a), Some(b)) => a.as_slice().iter().count() == b.as_slice().iter().count() && a.as_slice().iter().zip(b.as_slice().iter()).all(|(a, b)| same(a, b)),
                                _ => false,
                            };
                            ensure!(ok, "{:?} as a {}D cloud gives {:?}, the text means {:?}", text, dim, got, want);
                        }
                    }
                    Ok(())
                },
            );
            !c.stopped()
        });
    }
}
/// the numbers shown in a text, in order
fn numbers(t: &str) -> Vec<f64> {
    t.split(|ch: char| ch.is_whitespace() || "(),;:[]{}<".contains(ch)).filter_map(|w| w.parse::<f64>().ok()).collect()
}
const VALS: [f64; 9] = [0.0, -0.0, 1.0, -2.5, 0.1, 1.0e-7, 123456.789, 4.9e-324, 1.7976931348623157e308];
fn shown(c: &mut Ctx) {
    // points with every triple of values
    tuples(VALS.len(), 3, |t| {
        let v: Vec<f64> = t.iter().map(|i| VALS[*i]).collect();
        c.state(&t.to_vec());
        c.case(
            || format!("values {:?}", v),
            |c| {
                c.trans(8);
                let (p, q) = (Point3D::new(v[0], v[1], v[2]), Point2D::new(v[0], v[1]));
                for (s, n) in [
                    (format!("{}", p), 3),
                    (p.to_str(), 3),
                    (format!("{}", PointCloud3D { data: vec![p.clone()] }), 3),
                    (PointCloud3D { data: vec![p.clone()] }.to_str(), 3),
                    (format!("{}", q), 2),
                    (q.to_str(), 2),
                    (format!("{}", PointCloud2D { data: vec![q.clone()] }), 2),
                    (PointCloud2D { data: vec![q.clone()] }.to_str(), 2),
                ] {
                    ensure!(same(&numbers(&s), &v[..n]), "{:?} shown as {:?}", &v[..n], s);
                }
                // the written form reads back
                check(&p.to_str(), 3, &Some(v.clone()))?;
                check(&q.to_str(), 2, &Some(v[..2].to_vec()))?;
                for x in v.as_slice().iter() {
                    ensure!(same(&numbers(&format!("{}", Deg(*x))), &[*x]) && same(&numbers(&format!("{}", Rad(*x))), &[*x]), "angle {}", x);
                    if let Some(n) = NonNegative::new(*x) {
                        ensure!(same(&numbers(&format!("{}", n)), &[*n]) && *n == *x, "NonNegative {}", x)
                    }
                    if let Some(n) = Positive::new(*x) {
                        ensure!(same(&numbers(&format!("{}", n)), &[*x]), "Positive {}", x)
                    }
                }
                Ok(())
            },
        );
        !c.stopped()
    });
    // ids and faces
    const IDS: [usize; 5] = [0, 1, 7, 4294967296, usize::MAX];
    tuples(5, 3, |t| {
        let v: Vec<usize> = t.iter().map(|i| IDS[*i]).collect();
        c.state(&(t.to_vec(), 0));
        c.case(
            || format!("ids {:?}", v),
            |c| {
                c.trans(5);
                let ints = |s: &str| -> Vec<usize> { s.split(|ch: char| !ch.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect() };
                let eq = |a: Vec<usize>, b: &[usize]| a.as_slice() == b;
                ensure!(eq(ints(&format!("{}", Face3::new(VId(v[0]), VId(v[1]), VId(v[2])))), &v), "face {:?}", v);
                ensure!(eq(ints(&format!("{}", VId(v[0]))), &v[..1]) && eq(ints(&format!("{}", FId(v[0]))), &v[..1]) && eq(ints(&format!("{}", EId(v[0]))), &v[..1]) && eq(ints(&format!("{}", SId(v[0]))), &v[..1]), "id {:?}", v[0]);
                Ok(())
            },
        );
        !c.stopped()
    });
    // lines, segments, rays, polygons and longer clouds: every assignment of values to the coordinates
    let few = [0.0, 1.0, -2.5, 0.1];
    tuples(4, 6, |t| {
        let v: Vec<f64> = t.iter().enumerate().map(|(i, k)| few[*k] + if *k == 1 { i as f64 } else { 0.0 }).collect();
        c.state(&(t.to_vec(), 1));
        c.case(
            || format!("coordinates {:?}", v),
            |c| {
                c.trans(12);
                let (a, b) = (Point3D::new(v[0], v[1], v[2]), Point3D::new(v[3], v[4], v[5]));
                let (a2, b2) = (Point2D::new(v[0], v[1]), Point2D::new(v[2], v[3]));
                let pc = PointCloud3D { data: vec![a.clone(), b.clone()] };
                let pc2 = PointCloud2D { data: vec![a2.clone(), b2.clone()] };
                let (d, d2) = (Norm3D::new(b.clone()), Norm2D::new(b2.clone()));
                let mut all = vec![
                    (format!("{}", pc), v.clone()),
                    (pc.to_str(), v.clone()),
                    (format!("{}", Polygon3D::from(pc.clone())), v.clone()),
                    (format!("{}", pc2), v[..4].to_vec()),
                    (pc2.to_str(), v[..4].to_vec()),
                    (format!("{}", Polygon2D::from(pc2.clone())), v[..4].to_vec()),
                ];
                if let Ok(d) = d {
                    let w = vec![v[0], v[1], v[2], d.x(), d.y(), d.z()];
                    let l = Line3D::new(a.clone(), d);
                    all.push((format!("{}", l), w.clone()));
                    all.push((format!("{}", Ray3D::new(l)), w));
                    all.push((format!("{}", LineSegment3D::new(a.clone(), b.clone())), v.clone()))
                }
                if let Ok(d) = d2 {
                    let w = vec![v[0], v[1], d.x(), d.y()];
                    let l = Line2D::new(a2.clone(), d);
                    all.push((format!("{}", l), w.clone()));
                    all.push((format!("{}", Ray2D::new(l)), w));
                    all.push((format!("{}", LineSegment2D::new(a2.clone(), b2.clone())), v[..4].to_vec()))
                }
                for (s, w) in all {
                    ensure!(same(&numbers(&s), &w), "{:?} shown as {:?}", w, s);
                }
                // one line for each point
                ensure!(pc.to_str().lines().count() == 2 && format!("{}", pc).lines().count() == 2 && pc2.to_str().lines().count() == 2, "lines of {:?}", pc.to_str());
                Ok(())
            },
        );
        !c.stopped()
    });
}
fn main() {
    mc::main(
        Spec {
            prop: "C43",
            level: "model_checking",
            rule: "a state is one text or value: all sequences of words up to the length bound with all separators, every printable character around each word and line, all sequences of lines, all assignments of representative values to the coordinates; transitions are parses and displays",
            assumptions: &["only the blank separates words and only the line feed separates lines", "the numbers shown are compared, not the punctuation between them"],
        },
        vec![g("words", words), g("odd", odd), g("long", long), g("clouds", clouds), g("shown", shown)],
    )
}
