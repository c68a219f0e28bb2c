//! C12: constrained numbers stay in range.
use mc::*;
use rust_3d::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

const TINY: f64 = 5e-324;
const V: [f64; 17] = [
    TINY,
    1e-308,
    2.2250738585072014e-308,
    1e-200,
    1.5e-162,
    0.1,
    0.5,
    1.0,
    1.0000000000000002,
    3.0,
    1e154,
    1e200,
    f64::MAX,
    f64::INFINITY,
    0.0,
    -0.0,
    2.0,
];
const BAD: [f64; 7] = [-TINY, -1.0, -1e308, f64::NEG_INFINITY, f64::NAN, -0.5, -1e-300];

#[derive(Clone, Copy, Debug)]
enum N {
    P(Positive),
    Z(NonNegative),
}
use N::*;
impl N {
    fn v(&self) -> f64 {
        match self {
            P(x) => **x,
            Z(x) => **x,
        }
    }
    fn key(&self) -> (bool, u64) {
        (matches!(self, P(_)), self.v().to_bits())
    }
}
fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Add(N),
    AddAssign(N),
    RevAdd(N),
    Mul(N),
    MulAssign(N),
    RevMul(N),
    Div(N),
    DivAssign(N),
    RevDiv(N),
    Sqrt,
    Weaken,
    Strengthen,
}
use Op::*;
/// executes one operation; None if this operation does not exist for these types
fn run(a: N, op: Op) -> Option<N> {
    Some(match (a, op) {
        (P(a), Add(P(b))) => P(a + b),
        (P(a), Add(Z(b))) => P(a + b),
        (Z(a), Add(P(b))) => Z(a + b),
        (Z(a), Add(Z(b))) => Z(a + b),
        (P(mut a), AddAssign(P(b))) => {
            a += b;
            P(a)
        }
        (P(mut a), AddAssign(Z(b))) => {
            a += b;
            P(a)
        }
        (Z(mut a), AddAssign(P(b))) => {
            a += b;
            Z(a)
        }
        (Z(mut a), AddAssign(Z(b))) => {
            a += b;
            Z(a)
        }
        (P(a), Mul(P(b))) => P(a * b),
        (P(a), Mul(Z(b))) => Z(a * b),
        (Z(a), Mul(P(b))) => Z(a * b),
        (Z(a), Mul(Z(b))) => Z(a * b),
        (P(mut a), MulAssign(P(b))) => {
            a *= b;
            P(a)
        }
        (Z(mut a), MulAssign(P(b))) => {
            a *= b;
            Z(a)
        }
        (Z(mut a), MulAssign(Z(b))) => {
            a *= b;
            Z(a)
        }
        (P(a), Div(P(b))) => Z(a / b),
        (P(a), Div(Z(b))) => Z(a / b),
        (Z(a), Div(P(b))) => Z(a / b),
        (Z(a), Div(Z(b))) => Z(a / b),
        (Z(mut a), DivAssign(P(b))) => {
            a /= b;
            Z(a)
        }
        (Z(mut a), DivAssign(Z(b))) => {
            a /= b;
            Z(a)
        }
        (a, RevAdd(b)) => return run(b, Add(a)),
        (a, RevMul(b)) => return run(b, Mul(a)),
        (a, RevDiv(b)) => return run(b, Div(a)),
        (P(a), Sqrt) => P(a.sqrt()),
        (Z(a), Sqrt) => Z(a.sqrt()),
        (P(a), Weaken) => Z(<NonNegative as std::convert::From<Positive>>::from(a)),
        (Z(a), Strengthen) => P(Positive::new(*a)?),
        _ => return None,
    })
}
/// result on plain numbers
fn plain(a: f64, op: Op) -> f64 {
    match op {
        Add(b) | AddAssign(b) | RevAdd(b) => a + b.v(),
        Mul(b) | MulAssign(b) | RevMul(b) => a * b.v(),
        Div(b) | DivAssign(b) => a / b.v(),
        RevDiv(b) => b.v() / a,
        Sqrt => a.sqrt(),
        Weaken | Strengthen => a,
    }
}
fn valid(n: N) -> R {
    match n {
        P(x) => ensure!(*x > 0.0, "positive number holds {:?}", *x),
        Z(x) => ensure!(*x >= 0.0, "non negative number holds {:?}", *x),
    }
    Ok(())
}
fn step(s: &mut N, op: &Op) -> R {
    let want = plain(s.v(), *op);
    let r = catch_unwind(AssertUnwindSafe(|| run(*s, *op)));
    match r {
        Ok(None) => {
            if let Strengthen = op {
                ensure!(matches!(s, P(_)) || want == 0.0, "{} refused as positive", want);
            }
        }
        Ok(Some(n)) => {
            valid(n)?;
            let p = matches!(n, P(_));
            let exp = if p && want == 0.0 { TINY } else { want };
            ensure!(n.v() == exp, "{:?} {:?} gave {:?} instead of {:?}", s, op, n, exp);
            *s = n;
        }
        // only results which can't be stored may be refused
        Err(_) => ensure!(!(want >= 0.0), "{:?} {:?} panicked although the result {} is in range", s, op, want),
    }
    Ok(())
}
fn all() -> Vec<N> {
    let mut r = vec![];
    for v in V {
        if let Some(p) = Positive::new(v) {
            r.push(P(p));
        }
        if let Some(p) = NonNegative::new(v) {
            r.push(Z(p));
        }
    }
    r
}
fn main() {
    let mut gs = vec![
        g("construct", |c| {
            for v in V.iter().chain(&BAD) {
                c.state(&v.to_bits());
                c.case(
                    || format!("{:?}", v),
                    |c| {
                        c.trans(2);
                        let p = Positive::new(*v);
                        ensure!(p.is_some() == (*v > 0.0), "positive from {}: {:?}", v, p);
                        let z = NonNegative::new(*v);
                        ensure!(z.is_some() == (*v >= 0.0), "non negative from {}: {:?}", v, z);
                        if let Some(p) = p {
                            let f: f64 = p.into();
                            ensure!(f == *v && *p == *v && *p.as_ref() == *v && format!("{}", p) == format!("{}", v), "value of {:?}", p);
                        }
                        if let Some(p) = z {
                            let f: f64 = p.into();
                            ensure!(f == *v && *p == *v && *p.as_ref() == *v && format!("{}", p) == format!("{}", v), "value of {:?}", p);
                        }
                        Ok(())
                    },
                );
            }
            c.case(
                || "constants".into(),
                |_| {
                    ensure!(*Positive::one() == 1.0 && *Positive::default() > 0.0, "positive constants");
                    ensure!(*NonNegative::one() == 1.0 && *NonNegative::zero() == 0.0 && *NonNegative::default() >= 0.0, "non negative constants");
                    Ok(())
                },
            );
        }),
        g("compare", |c| {
            for a in V {
                for b in V {
                    c.state(&(a.to_bits(), b.to_bits()));
                    c.case(
                        || format!("{:?} {:?}", a, b),
                        |c| {
                            c.trans(4);
                            if let (Some(x), Some(y)) = (Positive::new(a), Positive::new(b)) {
                                ensure!(x.partial_cmp(&y) == a.partial_cmp(&b), "positive order");
                                ensure!((x == y, x < y, x > y, x <= y) == (a == b, a < b, a > b, a <= b), "positive comparison");
                                ensure!(x != y || hash(&x) == hash(&y), "positive hash");
                            }
                            if let (Some(x), Some(y)) = (NonNegative::new(a), NonNegative::new(b)) {
                                ensure!(x.partial_cmp(&y) == a.partial_cmp(&b), "non negative order");
                                ensure!((x == y, x < y, x > y, x <= y) == (a == b, a < b, a > b, a <= b), "non negative comparison");
                                ensure!(x != y || hash(&x) == hash(&y), "non negative hash");
                            }
                            Ok(())
                        },
                    );
                }
            }
        }),
        g("max", |c| {
            let v: Vec<f64> = V.iter().chain(&BAD).cloned().filter(|x| !x.is_nan()).collect();
            tuples(v.len(), 3, |t| {
                let (a, b, d) = (v[t[0]], v[t[1]], v[t[2]]);
                c.case(
                    || format!("{:?} {:?} {:?}", a, b, d),
                    |c| {
                        c.trans(2);
                        ensure!(max_f64(a, b) == a.max(b), "max of {} {} is {}", a, b, max_f64(a, b));
                        ensure!(max_f64_3(a, b, d) == a.max(b).max(d), "max of three is {}", max_f64_3(a, b, d));
                        Ok(())
                    },
                )
            });
        }),
    ];
    // operation sequences: one group per start value
    for (i, s) in all().into_iter().enumerate() {
        gs.push(g(format!("sequences-{}", i), move |c| {
            let ops = {
                let mut o = vec![Sqrt, Weaken, Strengthen];
                for n in all() {
                    o.extend([Add(n), AddAssign(n), RevAdd(n), Mul(n), MulAssign(n), RevMul(n), Div(n), DivAssign(n), RevDiv(n)]);
                }
                o
            };
            let depth = c.q(3, 4);
            bfs(c, vec![(format!("{:?}", s), s)], depth, |_| ops.clone(), step, |s| s.key());
        }));
    }
    mc::main(
        Spec {
            prop: "C12",
            level: "model_checking",
            rule: "breadth-first search over operation sequences from every start value with every operator and operand (both types, assigning and plain forms); states are distinct (type, bits) values, transitions executed operations compared with f64 arithmetic",
            assumptions: &["An operation whose plain result can't be stored (NaN, or below zero through a negative zero divisor) may panic", "A positive product too small to represent is the smallest positive number"],
        },
        gs,
    );
}
