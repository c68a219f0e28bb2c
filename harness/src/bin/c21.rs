//! C21: G-code positions follow a machine that executes the commands.
use mc::io::*;
use mc::*;
use std::rc::Rc;

/// The machine
#[derive(Clone, Default)]
struct Mach {
    rel: bool,
    p: [f64; 3],
}
/// executes one line; true: a position is reported; None: the line can't be understood
fn step(m: &mut Mach, line: &str) -> Option<bool> {
    let l = line.split(';').next().unwrap();
    let w: Vec<&str> = l.split(' ').filter(|w| !w.is_empty()).collect();
    if l.starts_with(' ') || w.is_empty() {
        return Some(false);
    }
    match w[0] {
        "G90" => m.rel = false,
        "G91" => m.rel = true,
        "G1" | "G2" | "G3" | "G92" => {
            let mut any = false;
            let mut q = m.p;
            for x in &w[1..] {
                if x.len() < 2 {
                    continue;
                }
                if let Some(a) = ["X", "Y", "Z"].iter().position(|n| x.starts_with(n)) {
                    let v: f64 = x[1..].parse().ok()?;
                    any = true;
                    if m.rel && w[0] != "G92" {
                        q[a] += v
                    } else {
                        q[a] = v
                    }
                }
            }
            m.p = q;
            return Some(any);
        }
        _ => (),
    }
    Some(false)
}
fn run(text: &str) -> Option<Vec<[f64; 3]>> {
    let mut m = Mach::default();
    let mut v = vec![];
    for l in text.split('\n') {
        if step(&mut m, l.trim_end())? {
            v.push(m.p)
        }
    }
    Some(v)
}
fn check(c: &mut Ctx, text: &str, streamed: bool) {
    let d = Rc::new(text.as_bytes().to_vec());
    c.case(
        || format!("{:?}", text),
        |c| {
            c.state(&text);
            c.trans(text.split('\n').count());
            let want = run(text);
            let same = |pts: &Vec<B3>| -> R {
                let w = want.as_ref().ok_or("accepted")?;
                let ok = pts.as_slice().iter().count() == w.as_slice().iter().count() && pts.as_slice().iter().zip(w.as_slice()).all(|(a, b)| (0..3).all(|i| close(f3(a)[i], b[i], 1e-12 * (1.0 + b[i].abs()))));
                ensure!(ok, "positions {:?} instead of {:?}", pts.as_slice().iter().map(f3).collect::<Vec<_>>(), w);
                Ok(())
            };
            match load(Kind::Gcode, Src::new(&d, Plan::Whole)) {
                Err(e) => ensure!(want.is_none(), "rejected: {}", e),
                Ok(o) => same(&o.pts)?,
            }
            if streamed {
                if let Some(w) = &want {
                    let n = w.as_slice().iter().count();
                    let it: Vec<Item> = match stream(Kind::Gcode, Src::new(&d, Plan::Piece(3))) {
                        Some(Ok(i)) => i.take(n + 1).collect::<std::result::Result<Vec<_>, _>>()?,
                        _ => return Err("no stream".into()),
                    };
                    same(&assemble(Kind::Gcode, &it)?.pts)?
                }
            }
            Ok(())
        },
    );
}
const CMDS: [&str; 26] = [
    "G1 X1",
    "G90",
    "G91",
    "G1 Y-2.5 Z4",
    "G92 X10",
    "G1 X1 Y2 Z3 E4 F1200",
    "G92 Y0.5 Z-1 E0",
    "G2 X-3 I1 J2",
    "G3 Z0.25 Y8",
    "G1 F1500",
    "G92 E0",
    "; G1 X99",
    "G1 Y4 ; X5",
    "G1 Z1;Y7",
    "",
    "M104 S200",
    "G28",
    "G4 P100",
    "T0",
    "G1 X0 Y0 Z0",
    "G10 X5",
    "G11 X5 Y5",
    "G21",
    "G91 ; relative",
    "G90;absolute",
    "M82",
];
fn sequences(c: &mut Ctx, first: usize) {
    for n in 0..=c.q(3, 4) {
        tuples(CMDS.len(), n, |t| {
            let mut s = String::from(CMDS[first]);
            for i in t {
                s += "\n";
                s += CMDS[*i]
            }
            check(c, &s, n < 3);
            if n < 3 {
                check(c, &(s.clone() + "\n"), true);
                check(c, &(s.replace('\n', "\r\n") + "\r\n"), false);
            }
            !c.stopped()
        });
    }
}
/// long histories of the commands that change the machine
fn histories(c: &mut Ctx, first: usize) {
    let cmds = ["G90", "G91", "G1 X1", "G1 Y-2 Z4", "G92 X8", "G92 Y0.5 Z-16", "G3 Z0.25", "G1 F1"];
    for n in 0..=c.q(5, 7) {
        tuples(cmds.len(), n, |t| {
            let mut s = String::from(cmds[first]);
            for i in t {
                s += "\n";
                s += cmds[*i]
            }
            // the machine is asked for its position in all axes at the end
            s += "\nG91\nG1 X0 Y0 Z0\n";
            check(c, &s, false);
            !c.stopped()
        });
    }
}
/// all words of a command
fn commands(c: &mut Ctx) {
    let words = ["X1", "X-2.5", "Y2", "Y.5", "Z3", "Z+4", "E5", "F60", "I7", "J8", "", "X", "Xa", "Y1e2", "Z1x", "S", "; Z9", ";X9", "x5", "P1"];
    for g in ["G1", "G2", "G3", "G92"] {
        for mode in ["", "G91\n"] {
            for n in 0..=c.q(3, 4) {
                tuples(words.len(), n, |t| {
                    // the same axis once only
                    for a in ["X", "Y", "Z"] {
                        if t.iter().filter(|i| words[**i].starts_with(a) && words[**i].len() > 1).count() > 1 {
                            return true;
                        }
                    }
                    let w: Vec<&str> = t.iter().map(|i| words[*i]).collect();
                    check(c, &format!("G1 X100 Y200 Z400\n{}{} {}\nG1 E1 Z7\nG91\nG1 Y0\n", mode, g, w.join(" ")), n < 3);
                    !c.stopped()
                });
            }
        }
    }
}
/// number forms, other commands of all kinds, long files
fn others(c: &mut Ctx) {
    for x in ["0", "-0", "1", "+1", "01", "1.", ".1", "-.25", "1e3", "1E-3", "123456789.125", "0.1", "0.30000000000000004", "1e308", "-1e-320", "", "-", ".", "1.2.3", "1,5", "0x10", "--1", "1e", "1 "] {
        for g in ["G1", "G2", "G3", "G92"] {
            for axis in ["X", "Y", "Z"] {
                if x.is_empty() {
                    continue;
                }
                check(c, &format!("G91\nG1 X1 Y1 Z1\n{} {}{} E7\nG1 X1\n", g, axis, x), true);
                check(c, &format!("{} E7 {}{}\nG90\nG1 Y1\n", g, axis, x), true);
            }
        }
    }
    // other commands do not move
    for a in 0..26u8 {
        let l = (b'A' + a) as char;
        for n in 0..c.q(120, 1000) {
            for tail in [" X5 Y6 Z7", "", " S1"] {
                if l == 'G' && [0, 1, 2, 3, 90, 91, 92].contains(&n) {
                    continue;
                }
                check(c, &format!("G1 X1\n{}{}{}\nG1 Y2\n", l, n, tail), false);
            }
        }
    }
    for n in (0..c.q(400usize, 2000)).chain([1025, 4097, HUGE]) {
        let mut s = String::new();
        for i in 0..n {
            s += ["G1 X1 Y2\n", "G91\n", "G1 Z0.5 ; up\n", "G92 E0\n", "G1 X-0.25 E1\n", "G90\n", "G3 X7 Z1\n"][(i * i + i / 7 + n) % 7]
        }
        check(c, &s, true)
    }
}
fn odd(c: &mut Ctx) {
    let text = "G1 X1.5 Y-2\nG91\nG2 Z4e1\nG92 X30 Z8\nG90\nG3 Y60 F100\n";
    let w: Vec<(usize, usize, Must)> = [(0, 1), (0, 2), (2, 1), (3, 1), (3, 2), (5, 1)].iter().map(|(l, w)| (*l, *w, Must::Axis)).collect();
    odd_words(c, Kind::Gcode, text, &w, ";");
}
fn main() {
    let mut v = vec![g("commands", commands), g("others", others), g("odd words", odd)];
    for i in 0..CMDS.len() {
        v.push(g(format!("sequences {}", CMDS[i]), move |c| sequences(c, i)));
    }
    for i in 0..8 {
        v.push(g(format!("histories {}", i), move |c| histories(c, i)));
    }
    mc::main(
        Spec {
            prop: "C21",
            level: "model_checking",
            rule: "a state is one program; all command sequences up to the stated length over 26 commands, longer histories over the 8 state changing ones, all word combinations of a command, all number forms, all other commands, long programs; compared with a machine model executed line by line",
            assumptions: &["commands are written as 'G1 ', 'G2 ', 'G3 ', 'G90', 'G91', 'G92 ' at the start of a line, comments follow ';', each axis once per command"],
        },
        v,
    )
}
