//! C07: filters and their combinations are exact predicates.
use mc::*;
use rust_3d::*;
use std::collections::{BTreeSet, HashSet, VecDeque};

// ------------------------------------------------------------------ expressions over element filters
struct Dyn(Box<dyn IsFilter<u8>>);
impl IsFilter<u8> for Dyn {
    fn is_allowed(&self, x: &u8) -> bool {
        self.0.is_allowed(x)
    }
}
/// Allows the elements whose bit is set in the truth table
struct Table(u8);
impl IsFilter<u8> for Table {
    fn is_allowed(&self, x: &u8) -> bool {
        self.0 >> x & 1 == 1
    }
}
#[derive(Clone, Debug)]
enum Ex {
    Tab(u8),
    Allow,
    Deny,
    Not(Box<Ex>),
    And(Box<Ex>, Box<Ex>),
    Or(Box<Ex>, Box<Ex>),
    Xor(Box<Ex>, Box<Ex>),
    Hollow(Box<Ex>, Box<Ex>),
    All(Vec<Ex>),
    Any(Vec<Ex>),
}
use Ex::*;
fn build(e: &Ex) -> Dyn {
    Dyn(match e {
        Tab(t) => Box::new(Table(*t)),
        Allow => Box::new(FilterAllow::new()),
        Deny => Box::new(FilterDeny::new()),
        Not(a) => Box::new(FilterNegate::new(build(a))),
        And(a, b) => Box::new(FilterAND::new(build(a), build(b))),
        Or(a, b) => Box::new(FilterOR::new(build(a), build(b))),
        Xor(a, b) => Box::new(FilterXOR::new(build(a), build(b))),
        Hollow(a, b) => Box::new(FilterOuterInner::new(build(a), build(b))),
        All(v) => {
            let mut f = FilterAll::new();
            for e in v {
                f.filters.push(Box::new(build(e)))
            }
            Box::new(f)
        }
        Any(v) => {
            let mut f = FilterAny::new();
            for e in v {
                f.filters.push(Box::new(build(e)))
            }
            Box::new(f)
        }
    })
}
/// truth table of an expression over the 8 elements
fn table(e: &Ex) -> u8 {
    match e {
        Tab(t) => *t,
        Allow => 255,
        Deny => 0,
        Not(a) => !table(a),
        And(a, b) => table(a) & table(b),
        Or(a, b) => table(a) | table(b),
        Xor(a, b) => table(a) ^ table(b),
        Hollow(a, b) => table(a) & !table(b),
        All(v) => v.iter().fold(255, |x, e| x & table(e)),
        Any(v) => v.iter().fold(0, |x, e| x | table(e)),
    }
}
fn check(c: &mut Ctx, e: &Ex) {
    let t = table(e);
    c.state(&t);
    c.case(
        || format!("{:?}", e),
        |c| {
            let f = build(e);
            for x in 0..8u8 {
                c.trans(1);
                ensure!(f.is_allowed(&x) == (t >> x & 1 == 1), "element {:03b}: allowed={} expected {}", x, f.is_allowed(&x), !f.is_allowed(&x));
            }
            Ok(())
        },
    );
}
fn atoms() -> Vec<Ex> {
    vec![Tab(0b10101010), Tab(0b11001100), Tab(0b11110000), Allow, Deny]
}
fn grow(a: &[Ex], lists: usize) -> Vec<Ex> {
    let mut r = a.to_vec();
    for x in a {
        r.push(Not(Box::new(x.clone())));
        for y in a {
            let (p, q) = (Box::new(x.clone()), Box::new(y.clone()));
            r.push(And(p.clone(), q.clone()));
            r.push(Or(p.clone(), q.clone()));
            r.push(Xor(p.clone(), q.clone()));
            r.push(Hollow(p, q));
        }
    }
    for len in 0..=lists {
        tuples(a.len(), len, |t| {
            let v: Vec<Ex> = t.iter().map(|i| a[*i].clone()).collect();
            r.push(All(v.clone()));
            r.push(Any(v));
            true
        });
    }
    r
}

// ------------------------------------------------------------------ filters on collections
struct Bits(u32);
impl IsFilter<u32> for Bits {
    fn is_allowed(&self, x: &u32) -> bool {
        self.0 >> x & 1 == 1
    }
}
#[derive(Clone, Debug)]
enum Ra {
    One(u32),
    All(Vec<Ra>),
    Any(Vec<Ra>),
}
fn build_ra<C: IsRandomAccessible<u32> + Default + 'static>(e: &Ra) -> Box<dyn IsFilterRandomAccessible<C, u32>> {
    match e {
        Ra::One(t) => Box::new(FilterRandomAccessible::new(Bits(*t))),
        Ra::All(v) => {
            let mut f = FilterAllRandomAccessible::<C, u32>::default();
            for e in v {
                f.filters.push(build_ra(e))
            }
            Box::new(f)
        }
        Ra::Any(v) => {
            let mut f = FilterAnyRandomAccessible::<C, u32>::default();
            for e in v {
                f.filters.push(build_ra(e))
            }
            Box::new(f)
        }
    }
}
fn sem(e: &Ra) -> u32 {
    match e {
        Ra::One(t) => *t,
        Ra::All(v) => v.iter().fold(!0, |x, e| x & sem(e)),
        Ra::Any(v) => v.iter().fold(0, |x, e| x | sem(e)),
    }
}
fn selected(v: &View, n: usize) -> BTreeSet<usize> {
    match v {
        View::Full => (0..n).collect(),
        View::Restricted(s) => s.iter().cloned().filter(|i| *i < n).collect(),
    }
}
fn check_ra(c: &mut Ctx, e: &Ra, elems: &[u32], init: Option<u32>) {
    let n = elems.len();
    let before: View = match init {
        None => View::Full,
        Some(m) => View::Restricted((0..32usize).filter(|i| m >> i & 1 == 1).collect::<HashSet<usize>>()),
    };
    let s = sem(e);
    let exp: BTreeSet<usize> = selected(&before, n).into_iter().filter(|i| s >> elems[*i] & 1 == 1).collect();
    c.state(&(&elems, init, &exp));
    c.case(
        || format!("{:?} on {:?} from {:?}", e, elems, selected(&before, 32)),
        |c| {
            c.trans(2);
            let v: Vec<u32> = elems.to_vec();
            let d: VecDeque<u32> = wrapped(elems, (elems.len() + 1) / 2);
            let mut view = before.clone();
            build_ra::<Vec<u32>>(e).filter(&v, &mut view);
            ensure!(selected(&view, n) == exp, "view selects {:?}, expected {:?}", selected(&view, n), exp);
            let mut view2 = before.clone();
            build_ra::<VecDeque<u32>>(e).filter(&d, &mut view2);
            ensure!(selected(&view2, n) == exp, "deque: view selects {:?}, expected {:?}", selected(&view2, n), exp);
            if n > 0 {
                let far = |v: &View| match v {
                    View::Full => vec![],
                    View::Restricted(s) => s.iter().cloned().filter(|i| *i >= n).collect::<Vec<usize>>(),
                };
                ensure!(far(&view).as_slice().iter().all(|i| far(&before).contains(i)), "view extended beyond the collection: {:?}", view);
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------ shapes
fn coords() -> Vec<f64> {
    (-9..=9).map(|i| i as f64 * 0.5).collect()
}
struct Field2(Norm2D);
impl IsDirectionField2D for Field2 {
    fn direction_at<P: Is2D>(&self, _: &P) -> Norm2D {
        self.0.clone()
    }
}
/// points along x left of the origin and along y right of it
struct Split;
impl IsDirectionField2D for Split {
    fn direction_at<P: Is2D>(&self, p: &P) -> Norm2D {
        Norm2D::new(if p.x() < 0.0 { Point2D::new(2.0, 0.0) } else { Point2D::new(0.0, 2.0) }).unwrap()
    }
}
impl IsDirectionField3D for Split {
    fn direction_at<P: Is3D>(&self, p: &P) -> Norm3D {
        Norm3D::new(if p.x() < 0.0 { Point3D::new(2.0, 0.0, 0.0) } else { Point3D::new(0.0, 2.0, 0.0) }).unwrap()
    }
}
/// allows the elements of one residue
#[derive(Clone)]
struct Residue(usize, usize);
impl IsFilter<usize> for Residue {
    fn is_allowed(&self, x: &usize) -> bool {
        *x % self.0 == self.1
    }
}
struct Field3(Norm3D);
impl IsDirectionField3D for Field3 {
    fn direction_at<P: Is3D>(&self, _: &P) -> Norm3D {
        self.0.clone()
    }
}

fn main() {
    let mut gs = vec![];
    gs.push(g("expressions depth 1", |c| {
        // all truth tables as atoms of one operator
        for x in 0..=255u8 {
            for y in 0..=255u8 {
                let (a, b) = (Box::new(Tab(x)), Box::new(Tab(y)));
                for e in [And(a.clone(), b.clone()), Or(a.clone(), b.clone()), Xor(a.clone(), b.clone()), Hollow(a, b), All(vec![Tab(x), Tab(y)]), Any(vec![Tab(x), Tab(y)])] {
                    check(c, &e);
                }
            }
            check(c, &Not(Box::new(Tab(x))));
        }
    }));
    for part in 0..8usize {
        gs.push(g(format!("expressions depth 2 part {}", part), move |c| {
            let d1 = grow(&atoms(), c.q(1, 3));
            for i in (part..d1.len()).step_by(8) {
                check(c, &d1[i]);
                check(c, &Not(Box::new(d1[i].clone())));
                for y in &d1 {
                    let (p, q) = (Box::new(d1[i].clone()), Box::new(y.clone()));
                    for e in [And(p.clone(), q.clone()), Or(p.clone(), q.clone()), Xor(p.clone(), q.clone()), Hollow(p, q), All(vec![d1[i].clone(), y.clone(), Allow]), Any(vec![Deny, d1[i].clone(), y.clone()])] {
                        check(c, &e);
                    }
                    if c.stopped() {
                        return;
                    }
                }
            }
        }));
    }
    gs.push(g("lists", |c| {
        // all/any over every list of atoms up to a length
        for len in 0..=c.q(5usize, 7) {
            tuples(5, len, |t| {
                let a = atoms();
                let v: Vec<Ex> = t.iter().map(|i| a[*i].clone()).collect();
                check(c, &All(v.clone()));
                check(c, &Any(v));
                !c.stopped()
            });
        }
    }));
    for n in 0..=4usize {
        gs.push(g(format!("collections n={}", n), move |c| {
            let elems: Vec<u32> = (0..n as u32).collect();
            let mut leafs: Vec<Ra> = (0..1u32 << n).map(Ra::One).collect();
            let mut inner: Vec<Ra> = leafs.clone();
            for len in 0..=2 {
                tuples(leafs.len(), len, |t| {
                    let v: Vec<Ra> = t.iter().map(|i| leafs[*i].clone()).collect();
                    inner.push(Ra::All(v.clone()));
                    inner.push(Ra::Any(v));
                    true
                });
            }
            if n > 2 {
                leafs.retain(|l| sem(l) % 3 != 1);
            }
            let mut inits: Vec<Option<u32>> = vec![None];
            // up to two stale indices beyond the collection
            inits.extend((0..1u32 << (n + 1)).map(Some));
            inits.push(Some(1 << 9 | 1));
            for i in inits {
                for e in &inner {
                    check_ra(c, e, &elems, i);
                    for l in &leafs {
                        if n <= 2 || c.thorough() {
                            check_ra(c, &Ra::All(vec![e.clone(), l.clone()]), &elems, i);
                            check_ra(c, &Ra::Any(vec![l.clone(), e.clone()]), &elems, i);
                        } else if n == 3 {
                            check_ra(c, &Ra::Any(vec![e.clone(), l.clone()]), &elems, i);
                        }
                        if c.stopped() {
                            return;
                        }
                    }
                }
            }
            // repeated elements
            let rep: Vec<u32> = (0..n as u32).map(|x| x % 2).collect();
            for e in &inner {
                check_ra(c, e, &rep, None);
            }
        }));
    }
    gs.push(g("long lists", |c| {
        // one part that differs from all the others at every interesting place of long lists
        for n in sizes(c.thorough()) {
            for base in [0b00000000u8, 0b11111111, 0b10110010] {
                for odd in [0b00000000u8, 0b11111111, 0b01010110] {
                    for at in [0, 1, n / 2, n - 2, n - 1] {
                        let v: Vec<Ex> = (0..n).map(|i| Tab(if i == at { odd } else { base })).collect();
                        check(c, &All(v.clone()));
                        check(c, &Any(v.clone()));
                        check(c, &Not(Box::new(Xor(Box::new(All(v.clone())), Box::new(Any(v))))));
                    }
                }
            }
        }
        // deeply nested expressions
        for n in sizes(false) {
            for op in 0..6 {
                let mut e = Tab(0b01101001);
                for i in 0..n.min(130) {
                    let l = Box::new(e);
                    let r = Box::new(Tab([0b11110000u8, 0b11001100, 0b10101010, 0b00000001, 0b11111111][i % 5]));
                    e = match (op + if op == 5 { i } else { 0 }) % 6 {
                        0 => Xor(l, r),
                        1 => Or(l, Box::new(Not(r))),
                        2 => Hollow(r, l),
                        3 => Not(l),
                        4 => All(vec![Any(vec![*l, *r])]),
                        _ => And(r, l),
                    };
                }
                check(c, &e);
            }
        }
    }));
    gs.push(g("large collections", |c| {
        for n in sizes(c.thorough()) {
            let v: Vec<usize> = (0..n).map(|i| (i * 7) % n).collect();
            let d: VecDeque<usize> = wrapped(&v, n / 2);
            let inits: Vec<(&str, View)> = vec![
                ("full", View::Full),
                ("none", View::Restricted(HashSet::default())),
                ("every second", View::Restricted((0..n).filter(|i| i % 2 == 0).collect())),
                ("upper half", View::Restricted((n / 2..n).collect())),
                ("last", View::Restricted(Some(n - 1).into_iter().collect())),
                ("all and more", View::Restricted((0..n + 3).collect())),
            ];
            for (name, init) in inits {
                for (m, r) in [(1, 0), (2, 1), (3, 0), (n, n - 1), (n + 1, n)] {
                    for kind in 0..5 {
                        c.case(
                            || format!("{} elements, {} selected, residue {} of {} ({})", n, name, r, m, kind),
                            |c| {
                                c.trans(n);
                                let one = Residue(m, r);
                                let two = Residue(3, 1);
                                let pred = |x: usize| {
                                    let (a, b) = (x % m == r, x % 3 == 1);
                                    match kind {
                                        0 => a,
                                        1 => a && b,
                                        2 => a || b,
                                        3 => a && (a || b),
                                        _ => true,
                                    }
                                };
                                let exp: BTreeSet<usize> = selected(&init, n).into_iter().filter(|i| pred(v.as_slice()[*i])).collect();
                                fn mk<C: IsRandomAccessible<usize> + Default + 'static>(kind: usize, a: Residue, b: Residue) -> Box<dyn IsFilterRandomAccessible<C, usize>> {
                                    let one = |x: Residue| Box::new(FilterRandomAccessible::new(x)) as Box<dyn IsFilterRandomAccessible<C, usize>>;
                                    match kind {
                                        0 => one(a),
                                        1 | 4 => {
                                            let mut f = FilterAllRandomAccessible::<C, usize>::default();
                                            if kind == 1 {
                                                f.filters = vec![one(b), one(a)]
                                            }
                                            Box::new(f)
                                        }
                                        2 => {
                                            let mut f = FilterAnyRandomAccessible::<C, usize>::default();
                                            f.filters = vec![one(a), one(b)];
                                            Box::new(f)
                                        }
                                        _ => {
                                            let mut f = FilterAllRandomAccessible::<C, usize>::default();
                                            f.filters = vec![mk(2, a.clone(), b), one(a)];
                                            Box::new(f)
                                        }
                                    }
                                }
                                let mut view = init.clone();
                                mk::<Vec<usize>>(kind, one.clone(), two.clone()).filter(&v, &mut view);
                                ensure!(selected(&view, n) == exp, "view selects {:?}, expected {:?}", selected(&view, n), exp);
                                let mut view = init.clone();
                                mk::<VecDeque<usize>>(kind, one, two).filter(&d, &mut view);
                                ensure!(selected(&view, n) == exp, "deque: view selects {:?}, expected {:?}", selected(&view, n), exp);
                                c.state(&(n, name, exp));
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }));
    gs.push(g("shapes of any scale", |c| {
        // exact powers of two leave the comparison as exact as it is at scale one
        let mut exps: Vec<i32> = vec![-300, -200, -100, -60, -40, -30, -20, -10, -5, 5, 10, 20, 30, 40, 60, 100, 200, 300];
        if c.thorough() {
            exps = (-330..=330).step_by(5).filter(|e| *e != 0).collect()
        }
        for e in exps {
            let k = 2f64.powi(e);
            let co: Vec<f64> = coords().into_iter().filter(|x| x.abs() < 3.2).collect();
            for (cx, cy, cz) in [(0.0, 0.0, 0.0), (1.0, -0.5, 0.5)] {
                for (sx, sy, sz) in [(0.5, 2.0, 1.0), (3.0, 1.0, 4.0)] {
                    c.case(
                        || format!("box {} {} {} at {} {} {} scaled by 2^{}", sx, sy, sz, cx, cy, cz, e),
                        |c| {
                            let pos = |x: f64| Positive::new(x * k).unwrap();
                            let f = FilterBox2D::new(Box2D { center: Point2D::new(cx * k, cy * k), size_x: pos(sx), size_y: pos(sy) });
                            let f3 = FilterBox3D::new(Box3D { center: Point3D::new(cx * k, cy * k, cz * k), size_x: pos(sx), size_y: pos(sy), size_z: pos(sz) });
                            let ci = FilterCircle::new(Circle { center: Point2D::new(cx * k, cy * k), radius: pos(sx) });
                            let sp = FilterSphere::new(Sphere { center: Point3D::new(cx * k, cy * k, cz * k), radius: pos(sy) });
                            ensure!(f.x() == cx * k && f.y() == cy * k && f3.x() == cx * k && f3.y() == cy * k && f3.z() == cz * k, "center of the box");
                            ensure!(ci.x() == cx * k && ci.y() == cy * k && sp.x() == cx * k && sp.y() == cy * k && sp.z() == cz * k, "center of the sphere");
                            for &x in &co {
                                for &y in &co {
                                    let d2 = (x - cx) * (x - cx) + (y - cy) * (y - cy);
                                    let p = Point2D::new(x * k, y * k);
                                    let inbox = (x - cx).abs() <= sx / 2.0 && (y - cy).abs() <= sy / 2.0;
                                    ensure!(f.is_allowed(&p) == inbox, "2D box at {:?}: expected {}", p, inbox);
                                    ensure!(ci.is_allowed(&p) == (d2 <= sx * sx), "circle at {:?}: expected {}", p, d2 <= sx * sx);
                                    for &z in &co {
                                        c.trans(2);
                                        let p = Point3D::new(x * k, y * k, z * k);
                                        let inbox = inbox && (z - cz).abs() <= sz / 2.0;
                                        ensure!(f3.is_allowed(&p) == inbox, "3D box at {:?}: expected {}", p, inbox);
                                        let d2 = d2 + (z - cz) * (z - cz);
                                        ensure!(sp.is_allowed(&p) == (d2 <= sy * sy), "sphere at {:?}: expected {}", p, d2 <= sy * sy);
                                    }
                                }
                            }
                            c.state(&(e, (sx * 10.0) as i64, (cx * 10.0) as i64));
                            Ok(())
                        },
                    );
                }
            }
        }
    }));
    gs.push(g("large outliers", |c| {
        for n in sizes(c.thorough()) {
            for (name, pts) in patterns(n) {
                c.case(
                    || format!("{} of {} points", name, n),
                    |c| {
                        let f = |p: &[i64; 3]| Point3D::new(p[0] as f64, p[1] as f64, p[2] as f64);
                        for r2 in [1i64, 4, 25, 10000] {
                            let r = (r2 as f64).sqrt();
                            for min in [0usize, 1, 2, 3, 9, 33, n - 1, n, n + 1] {
                                let mut pc = PointCloud3D::new();
                                for p in &pts {
                                    pc.push(f(p))
                                }
                                let mut tree = KdTree::default();
                                tree.build(pc).map_err(|e| format!("{:?}", e))?;
                                let fi = FilterOutlier3D::new(tree, Positive::new(r).unwrap(), min);
                                // near and far positions alternate
                                for q in [pts[0], [5000, 1, 2], pts[n / 2], pts[n - 1], [pts[n / 3][0] + 1, pts[n / 3][1], pts[n / 3][2]], [-5000, 0, 0], pts[0]] {
                                    c.trans(1);
                                    let cnt = pts.iter().filter(|p| (0..3).map(|i| (p[i] - q[i]) * (p[i] - q[i])).sum::<i64>() <= r2).count();
                                    ensure!(fi.is_allowed(&f(&q)) == (cnt >= min), "at {:?} radius {} min {}: {} neighbours, allowed={}", q, r, min, cnt, fi.is_allowed(&f(&q)));
                                }
                            }
                        }
                        c.state(&(name, n));
                        Ok(())
                    },
                );
            }
        }
    }));
    gs.push(g("direction fields", |c| {
        let d2: Vec<(f64, f64)> = vec![(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (3.0, 1.0), (1.0, 3.0)];
        for x in [-2.0, -0.5, 0.0, 0.5, 3.0] {
            for d in &d2 {
                for e in [0.1, 0.4, 1.0, 1.3, 1.7, 2.0, 3.2] {
                    c.case(
                        || format!("split field at {}, direction {:?}, eps {}", x, d, e),
                        |c| {
                            c.trans(2);
                            let dot = if x < 0.0 { d.0 } else { d.1 };
                            let exp = (dot / (d.0 * d.0 + d.1 * d.1).sqrt()).acos() <= e;
                            let a = FilterDirectionField2D::new(Split, Rad(e)).is_allowed(&(Point2D::new(x, 1.0), Norm2D::new(Point2D::new(d.0, d.1)).unwrap()));
                            ensure!(a == exp, "2D: allowed={} expected {}", a, exp);
                            let a = FilterDirectionField3D::new(Split, Rad(e)).is_allowed(&(Point3D::new(x, 1.0, -1.0), Norm3D::new(Point3D::new(d.0, d.1, 0.0)).unwrap()));
                            ensure!(a == exp, "3D: allowed={} expected {}", a, exp);
                            c.state(&((x * 2.0) as i64, (e * 10.0) as i64, exp));
                            Ok(())
                        },
                    );
                }
            }
        }
    }));
    gs.push(g("shapes 2D", |c| {
        for (cx, cy) in [(0.0, 0.0), (1.0, -0.5), (-2.0, 1.5)] {
            for sx in [0.5, 1.0, 3.0] {
                for sy in [0.5, 2.0, 4.0] {
                    let b = Box2D { center: Point2D::new(cx, cy), size_x: Positive::new(sx).unwrap(), size_y: Positive::new(sy).unwrap() };
                    let f = FilterBox2D::new(b.clone());
                    let f2 = <FilterBox2D as std::convert::From<BoundingBox2D>>::from(b.bounding_box());
                    for x in coords() {
                        for y in coords() {
                            let p = Point2D::new(x, y);
                            let exp = (x - cx).abs() <= sx / 2.0 && (y - cy).abs() <= sy / 2.0;
                            c.state(&(exp, format!("{} {} {} {}", x - cx, y - cy, sx, sy)));
                            c.case(
                                || format!("box {:?} at {:?}", b, p),
                                |c| {
                                    c.trans(2);
                                    ensure!(f.is_allowed(&p) == exp, "allowed={} expected {}", !exp, exp);
                                    ensure!(f2.is_allowed(&p) == exp, "filter from the bounding box: allowed={} expected {}", !exp, exp);
                                    ensure!(f.x() == cx && f.y() == cy, "center");
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }
            for r in [0.5, 1.0, 2.5] {
                let ci = Circle { center: Point2D::new(cx, cy), radius: Positive::new(r).unwrap() };
                let f = FilterCircle::new(ci.clone());
                for x in coords() {
                    for y in coords() {
                        let p = Point2D::new(x, y);
                        let d2 = (x - cx) * (x - cx) + (y - cy) * (y - cy);
                        let exp = d2 <= r * r;
                        c.state(&(exp, format!("{} {} {}", x - cx, y - cy, r)));
                        c.case(
                            || format!("circle {:?} at {:?}", ci, p),
                            |c| {
                                c.trans(1);
                                ensure!(f.is_allowed(&p) == exp, "allowed={} expected {}", !exp, exp);
                                ensure!(f.x() == cx && f.y() == cy, "center");
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }));
    gs.push(g("shapes 3D", |c| {
        let co: Vec<f64> = coords().into_iter().filter(|x| x.abs() < 3.2).collect();
        for (cx, cy, cz) in [(0.0, 0.0, 0.0), (1.0, -0.5, 0.5), (-1.0, 1.5, -2.0)] {
            for (sx, sy, sz) in [(0.5, 2.0, 1.0), (2.0, 1.0, 4.0), (3.0, 3.0, 0.5), (1.0, 4.0, 2.0)] {
                let b = Box3D { center: Point3D::new(cx, cy, cz), size_x: Positive::new(sx).unwrap(), size_y: Positive::new(sy).unwrap(), size_z: Positive::new(sz).unwrap() };
                let f = FilterBox3D::new(b.clone());
                let f2 = <FilterBox3D as std::convert::From<BoundingBox3D>>::from(b.bounding_box());
                for &x in &co {
                    for &y in &co {
                        for &z in &co {
                            let p = Point3D::new(x, y, z);
                            let exp = (x - cx).abs() <= sx / 2.0 && (y - cy).abs() <= sy / 2.0 && (z - cz).abs() <= sz / 2.0;
                            c.state(&(exp, format!("{} {} {} {} {} {}", x - cx, y - cy, z - cz, sx, sy, sz)));
                            c.case(
                                || format!("box {:?} at {:?}", b, p),
                                |c| {
                                    c.trans(2);
                                    ensure!(f.is_allowed(&p) == exp, "allowed={} expected {}", !exp, exp);
                                    ensure!(f2.is_allowed(&p) == exp, "filter from the bounding box: allowed={} expected {}", !exp, exp);
                                    ensure!(f.x() == cx && f.y() == cy && f.z() == cz, "center");
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }
            for r in [0.5, 1.5, 2.5, 3.0] {
                let s = Sphere { center: Point3D::new(cx, cy, cz), radius: Positive::new(r).unwrap() };
                let f = FilterSphere::new(s.clone());
                for &x in &co {
                    for &y in &co {
                        for &z in &co {
                            let p = Point3D::new(x, y, z);
                            let d2 = (x - cx) * (x - cx) + (y - cy) * (y - cy) + (z - cz) * (z - cz);
                            let exp = d2 <= r * r;
                            c.state(&(exp, format!("{} {} {} {}", x - cx, y - cy, z - cz, r)));
                            c.case(
                                || format!("sphere {:?} at {:?}", s, p),
                                |c| {
                                    c.trans(1);
                                    ensure!(f.is_allowed(&p) == exp, "allowed={} expected {}", !exp, exp);
                                    ensure!(f.x() == cx && f.y() == cy && f.z() == cz, "center {} {} {}", f.x(), f.y(), f.z());
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }
        }
    }));
    // positions that differ from the border by a tolerance of any size
    for axis in 0..3usize {
        gs.push(g(format!("close {}", axis), move |c| {
            for (h, l) in exact_ladders() {
                let at = |x: f64| {
                    let mut p = [0.0; 3];
                    p[axis] = x;
                    Point3D::new(p[0], p[1], p[2])
                };
                for i in 0..6usize {
                    for k in [0.25, 0.5, 0.75, 1.0, 1.5] {
                        let r = Positive::new(k * h).unwrap();
                        let size = |a: usize| Positive::new(if a == axis { 2.0 * k * h } else { 2.0 }).unwrap();
                        let center = at(l[i]);
                        for j in 0..6usize {
                            let p = at(l[j]);
                            let exp = (l[i] - l[j]).abs() <= k * h;
                            c.case(
                                || format!("position {:?}, center {:?}, half size {:?}", p, center, k * h),
                                |c| {
                                    c.trans(4);
                                    let s = FilterSphere::new(Sphere { center: center.clone(), radius: r.clone() });
                                    ensure!(s.is_allowed(&p) == exp, "sphere: allowed={} expected {}", !exp, exp);
                                    let b = Box3D { center: center.clone(), size_x: size(0), size_y: size(1), size_z: size(2) };
                                    ensure!(FilterBox3D::new(b.clone()).is_allowed(&p) == exp, "box 3D: allowed={} expected {}", !exp, exp);
                                    ensure!(<FilterBox3D as std::convert::From<BoundingBox3D>>::from(b.bounding_box()).is_allowed(&p) == exp, "bounding box 3D: allowed={} expected {}", !exp, exp);
                                    if axis < 2 {
                                        let (center, p) = (Point2D::new(center.x, center.y), Point2D::new(p.x, p.y));
                                        let s = FilterCircle::new(Circle { center: center.clone(), radius: r.clone() });
                                        ensure!(s.is_allowed(&p) == exp, "circle: allowed={} expected {}", !exp, exp);
                                        let b = Box2D { center, size_x: size(0), size_y: size(1) };
                                        ensure!(FilterBox2D::new(b.clone()).is_allowed(&p) == exp, "box 2D: allowed={} expected {}", !exp, exp);
                                        ensure!(<FilterBox2D as std::convert::From<BoundingBox2D>>::from(b.bounding_box()).is_allowed(&p) == exp, "bounding box 2D: allowed={} expected {}", !exp, exp);
                                    }
                                    c.state(&(i, j, (k * 4.0) as i64, exp));
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }
        }));
    }
    gs.push(g("directions", |c| {
        let dirs: Vec<(f64, f64, f64)> = (-1..=1).flat_map(|x| (-1..=1).flat_map(move |y| (-1..=1).map(move |z| (x as f64, y as f64, z as f64)))).filter(|d| *d != (0.0, 0.0, 0.0)).collect();
        let eps: Vec<f64> = (0..=12).map(|i| i as f64 * std::f64::consts::PI / 12.0 + 0.01).collect();
        for a in &dirs {
            for b in &dirs {
                let dot = a.0 * b.0 + a.1 * b.1 + a.2 * b.2;
                let l = |p: &(f64, f64, f64)| (p.0 * p.0 + p.1 * p.1 + p.2 * p.2).sqrt();
                let angle = (dot / l(a) / l(b)).max(-1.0).min(1.0).acos();
                for e in &eps {
                    let exp = angle <= *e;
                    c.case(
                        || format!("directions {:?} {:?} eps {}", a, b, e),
                        |c| {
                            c.trans(1);
                            let n = |p: &(f64, f64, f64)| Norm3D::new(Point3D::new(p.0, p.1, p.2)).unwrap();
                            let f = FilterDirectionField3D::new(Field3(n(a)), Rad(*e));
                            let got = f.is_allowed(&(Point3D::new(1.0, 2.0, 3.0), n(b)));
                            ensure!(got == exp, "3D: allowed={} expected {}", got, exp);
                            if a.2 == 0.0 && b.2 == 0.0 {
                                let n = |p: &(f64, f64, f64)| Norm2D::new(Point2D::new(p.0, p.1)).unwrap();
                                let f = FilterDirectionField2D::new(Field2(n(a)), Rad(*e));
                                let got = f.is_allowed(&(Point2D::new(1.0, 2.0), n(b)));
                                ensure!(got == exp, "2D: allowed={} expected {}", got, exp);
                            }
                            c.state(&((angle * 1000.0) as i64, (e * 1000.0) as i64));
                            Ok(())
                        },
                    );
                }
            }
        }
    }));
    gs.push(g("outliers", |c| {
        // every small cloud on a line grid x query x radius x count, searched through the k-d tree
        for len in 0..=4usize {
            tuples(4, len, |t| {
                let pts: Vec<Point3D> = t.iter().map(|i| Point3D::new(*i as f64, (*i % 2) as f64, 0.0)).collect();
                for q in 0..4usize {
                    for r in [0.5, 1.0, 1.5, 2.0, 5.0] {
                        let p = Point3D::new(q as f64, 0.0, 0.0);
                        let n = pts.as_slice().iter().filter(|x| (x.x - p.x).powi(2) + x.y * x.y <= r * r).count();
                        for min in 0..=len + 1 {
                            c.state(&(n, min));
                            c.case(
                                || format!("{:?} at {:?} radius {} min {}", pts, p, r, min),
                                |c| {
                                    c.trans(1);
                                    let mut pc = PointCloud3D::new();
                                    for x in pts.iter() {
                                        pc.push(x.clone())
                                    }
                                    let mut tree = KdTree::default();
                                    if tree.build(pc).is_err() {
                                        ensure!(len == 0, "tree not built");
                                        return Ok(());
                                    }
                                    let f = FilterOutlier3D::new(tree, Positive::new(r).unwrap(), min);
                                    ensure!(f.is_allowed(&p) == (n >= min), "{} neighbours, allowed={}", n, f.is_allowed(&p));
                                    ensure!(f.is_allowed(&p) == (n >= min), "second query differs");
                                    Ok(())
                                },
                            );
                        }
                    }
                }
                !c.stopped()
            });
        }
    }));
    mc::main(
        Spec {
            prop: "C07",
            level: "model_checking",
            rule: "every filter expression up to depth 2 (all operators, all truth tables as atoms at depth 1) on every element; every nesting of collection filters x every initial view (stale indices included) over collections of up to 4 elements; shape filters over half-step lattices including all boundary contacts; states = distinct (truth table | selected sets | relative position), transitions = filter evaluations",
            assumptions: &["finite positions; half-step coordinates keep the boundary comparison exact", "angles are compared away from the exact limit (0.01 rad offset)"],
        },
        gs,
    )
}
