//! C39: point containers behave like lists.
use mc::*;
use rust_3d::*;
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
enum Op {
    Push(usize),
    PushD(usize),
    Insert(usize, usize),
    SetD(usize, usize),
    IndexMut(usize, usize),
    Consume(usize),
    Append(usize),
    Reserve(usize),
    View(Vec<usize>),
    ViewFull,
}
const L: [f64; 5] = [0.0, 1.5, -2.0, 1.0e30, -0.0];
fn pt(i: usize) -> Point3D {
    Point3D::new(L[i % 5], L[(i + 1) % 5], i as f64 + 0.1)
}
/// values used by the operations: index into a table
fn bits(p: &Point3D) -> [u64; 3] {
    [p.x.to_bits(), p.y.to_bits(), p.z.to_bits()]
}
fn bits32(p: &Point3D) -> [u64; 3] {
    [(p.x as f32 as f64).to_bits(), (p.y as f32 as f64).to_bits(), (p.z as f32 as f64).to_bits()]
}
/// outcome of one operation: applied, rejected by an error, rejected by a panic
#[derive(PartialEq, Debug)]
enum Out {
    Done,
    Err,
    Panic,
}
trait Cont: Clone {
    fn contents(&self) -> Vec<[u64; 3]>;
    fn apply(&mut self, op: &Op) -> Result2;
    fn supports(op: &Op) -> bool;
    fn lossy() -> bool {
        false
    }
    fn get_at(&self, i: usize) -> Option<[u64; 3]>;
    fn len_of(&self) -> [usize; 2];
    /// whether the container promises to take an insertion directly behind its end
    fn end_insert() -> Option<bool>;
}
type Result2 = std::result::Result<(), ()>;
fn e<T>(r: Result<T>) -> Result2 {
    r.map(|_| ()).map_err(|_| ())
}
fn list(n: usize) -> Vec<Point3D> {
    (0..n).map(|i| pt(i + 3)).collect()
}
fn view(v: &[usize]) -> View {
    let mut w = View::Restricted(Default::default());
    if let View::Restricted(s) = &mut w {
        v.iter().for_each(|i| {
            s.insert(*i);
        })
    }
    w
}
macro_rules! common {
    () => {
        fn get_at(&self, i: usize) -> Option<[u64; 3]> {
            self.get_d(i).map(|p| bits(&p))
        }
    };
}
impl Cont for PointCloud3D<Point3D> {
    common!();
    fn contents(&self) -> Vec<[u64; 3]> {
        self.data.as_slice().iter().map(bits).collect()
    }
    fn len_of(&self) -> [usize; 2] {
        [IsRandomAccessible::<Point3D>::len(self), self.len_d()]
    }
    fn end_insert() -> Option<bool> {
        Some(true)
    }
    fn supports(_: &Op) -> bool {
        true
    }
    fn apply(&mut self, op: &Op) -> Result2 {
        match op {
            Op::Push(v) => IsPushable::push(self, pt(*v)),
            Op::PushD(v) => self.push_d(pt(*v)),
            Op::Insert(i, v) => return e(IsRandomInsertible::insert(self, *i, pt(*v))),
            Op::SetD(i, v) => self.set_d(*i, pt(*v)),
            Op::IndexMut(i, v) => self[*i] = pt(*v),
            Op::Consume(n) => {
                let o = PointCloud3D::from(list(*n));
                let both = self.combine(&o);
                self.consume(o);
                assert!(both.contents() == self.contents(), "combine differs from consume");
            }
            Op::Append(n) => self.append_ra(&list(*n)),
            Op::Reserve(n) => {
                IsPushable::reserve(self, *n);
                self.reserve_d(*n);
                self.reserve_vertices(*n);
            }
            Op::View(v) => return e(self.apply_view(&view(v))),
            Op::ViewFull => return e(self.apply_view(&View::Full)),
        }
        Ok(())
    }
}
/// 2D clouds: the third coordinate is not stored
#[derive(Clone)]
struct C2(PointCloud2D<Point2D>);
fn pt2(i: usize) -> Point2D {
    Point2D::new(pt(i).x, pt(i).z)
}
impl Cont for C2 {
    fn contents(&self) -> Vec<[u64; 3]> {
        (0..self.0.len()).map(|i| &self.0[i]).map(|p| [p.x.to_bits(), 0, p.y.to_bits()]).collect()
    }
    fn get_at(&self, i: usize) -> Option<[u64; 3]> {
        self.0.get_d(i).map(|p| [p.x.to_bits(), 0, p.y.to_bits()])
    }
    fn len_of(&self) -> [usize; 2] {
        [IsRandomAccessible::<Point2D>::len(&self.0), self.0.len_d()]
    }
    fn end_insert() -> Option<bool> {
        Some(true)
    }
    fn supports(_: &Op) -> bool {
        true
    }
    fn apply(&mut self, op: &Op) -> Result2 {
        let l = |n: usize| (0..n).map(|i| pt2(i + 3)).collect::<Vec<_>>();
        match op {
            Op::Push(v) => IsPushable::push(&mut self.0, pt2(*v)),
            Op::PushD(v) => self.0.push_d(pt2(*v)),
            Op::Insert(i, v) => return e(IsRandomInsertible::insert(&mut self.0, *i, pt2(*v))),
            Op::SetD(i, v) => self.0.set_d(*i, pt2(*v)),
            Op::IndexMut(i, v) => self.0[*i] = pt2(*v),
            Op::Consume(n) => {
                let o = PointCloud2D::from(l(*n));
                let both = C2(self.0.combine(&o));
                self.0.consume(o);
                assert!(both.contents() == self.contents(), "combine differs from consume");
            }
            Op::Append(n) => self.0.append_ra(&l(*n)),
            Op::Reserve(n) => {
                IsPushable::reserve(&mut self.0, *n);
                self.0.reserve_d(*n)
            }
            Op::View(v) => return e(self.0.apply_view(&view(v))),
            Op::ViewFull => return e(self.0.apply_view(&View::Full)),
        }
        Ok(())
    }
}
impl Cont for Vec<Point3D> {
    common!();
    fn contents(&self) -> Vec<[u64; 3]> {
        self.as_slice().iter().map(bits).collect()
    }
    fn len_of(&self) -> [usize; 2] {
        [IsRandomAccessible::<Point3D>::len(self), self.len_d()]
    }
    fn end_insert() -> Option<bool> {
        None
    }
    fn supports(op: &Op) -> bool {
        !matches!(op, Op::Consume(_) | Op::Append(_))
    }
    fn apply(&mut self, op: &Op) -> Result2 {
        match op {
            Op::Push(v) => IsPushable::push(self, pt(*v)),
            Op::PushD(v) => self.push_d(pt(*v)),
            Op::Insert(i, v) => return e(IsRandomInsertible::insert(self, *i, pt(*v))),
            Op::SetD(i, v) => self.set_d(*i, pt(*v)),
            Op::IndexMut(i, v) => self[*i] = pt(*v),
            Op::Reserve(n) => {
                IsPushable::<Point3D>::reserve(self, *n);
                self.reserve_d(*n)
            }
            Op::View(v) => return e(self.apply_view(&view(v))),
            Op::ViewFull => return e(self.apply_view(&View::Full)),
            _ => unreachable!(),
        }
        Ok(())
    }
}
impl Cont for VecDeque<Point3D> {
    common!();
    fn contents(&self) -> Vec<[u64; 3]> {
        self.iter().map(bits).collect()
    }
    fn len_of(&self) -> [usize; 2] {
        [IsRandomAccessible::<Point3D>::len(self), self.len_d()]
    }
    fn end_insert() -> Option<bool> {
        None
    }
    fn supports(op: &Op) -> bool {
        !matches!(op, Op::Consume(_) | Op::Append(_))
    }
    fn apply(&mut self, op: &Op) -> Result2 {
        match op {
            Op::Push(v) => IsPushable::push(self, pt(*v)),
            Op::PushD(v) => self.push_d(pt(*v)),
            Op::Insert(i, v) => return e(IsRandomInsertible::insert(self, *i, pt(*v))),
            Op::SetD(i, v) => self.set_d(*i, pt(*v)),
            Op::IndexMut(i, v) => self[*i] = pt(*v),
            Op::Reserve(n) => {
                IsPushable::<Point3D>::reserve(self, *n);
                self.reserve_d(*n)
            }
            Op::View(v) => return e(self.apply_view(&view(v))),
            Op::ViewFull => return e(self.apply_view(&View::Full)),
            _ => unreachable!(),
        }
        Ok(())
    }
}
impl Cont for PointCloud3Df32<Point3D> {
    common!();
    fn contents(&self) -> Vec<[u64; 3]> {
        self.data.chunks(3).map(|x| [(x[0] as f64).to_bits(), (x[1] as f64).to_bits(), (x[2] as f64).to_bits()]).collect()
    }
    fn len_of(&self) -> [usize; 2] {
        [self.len_d(), self.data.len() / 3]
    }
    fn end_insert() -> Option<bool> {
        None
    }
    fn lossy() -> bool {
        true
    }
    fn supports(op: &Op) -> bool {
        matches!(op, Op::Push(_) | Op::PushD(_) | Op::SetD(..) | Op::Reserve(_))
    }
    fn apply(&mut self, op: &Op) -> Result2 {
        match op {
            Op::Push(v) => IsPushable::push(self, pt(*v)),
            Op::PushD(v) => self.push_d(pt(*v)),
            Op::SetD(i, v) => self.set_d(*i, pt(*v)),
            Op::Reserve(n) => {
                IsPushable::<Point3D>::reserve(self, *n);
                self.reserve_d(*n)
            }
            _ => unreachable!(),
        }
        Ok(())
    }
}
fn search<T: Cont + std::panic::UnwindSafe>(c: &mut Ctx, name: &'static str, start: Vec<T>, flat2: bool, depth: usize) {
    let val = move |v: usize| -> [u64; 3] {
        let b = if T::lossy() { bits32(&pt(v)) } else { bits(&pt(v)) };
        if flat2 {
            [b[0], 0, b[2]]
        } else {
            b
        }
    };
    let init = start
        .into_iter()
        .map(|s| {
            let m = s.contents();
            (format!("{} of {}", name, m.len()), (s, m))
        })
        .collect();
    mc::bfs(
        c,
        init,
        depth,
        |(_, m)| {
            let n = m.len();
            let mut a = vec![Op::Push(0), Op::PushD(1), Op::Reserve(0), Op::Reserve(100), Op::Consume(0), Op::Consume(2), Op::Append(0), Op::Append(3), Op::ViewFull];
            if n > 6 {
                a.extend([Op::Insert(n / 2, 2), Op::SetD(n / 2, 3), Op::IndexMut(n / 2, 4), Op::Append(n), Op::Consume(n + 1)]);
            }
            for i in [0, 1, n.saturating_sub(1), n, n + 1, n + 7, usize::MAX / 3, usize::MAX, (1 << 32) + n / 2] {
                a.push(Op::Insert(i, 2));
                a.push(Op::SetD(i, 3));
                a.push(Op::IndexMut(i, 4));
            }
            a.extend([Op::View(vec![]), Op::View(vec![0]), Op::View(vec![n]), Op::View((0..n).step_by(2).collect()), Op::View((1..n).collect()), Op::View(vec![0, usize::MAX])]);
            a.retain(T::supports);
            a
        },
        |(s, m), op| {
            let m0 = m.clone();
            let n = m.len();
            let mut want = m.clone();
            // what a list does: apply, or reject with the content unchanged
            let expect: Option<bool> = match op {
                Op::Push(v) | Op::PushD(v) => {
                    want.push(val(*v));
                    Some(true)
                }
                Op::Insert(i, v) => {
                    if *i <= n {
                        want.insert(*i, val(*v));
                    }
                    if *i == n {
                        T::end_insert()
                    } else {
                        Some(*i < n)
                    }
                }
                Op::SetD(i, v) | Op::IndexMut(i, v) => {
                    if *i < n {
                        want[*i] = val(*v);
                    }
                    Some(*i < n)
                }
                Op::Consume(k) | Op::Append(k) => {
                    (0..*k).for_each(|i| want.push(val(i + 3)));
                    Some(true)
                }
                Op::Reserve(_) | Op::ViewFull => Some(true),
                Op::View(v) => {
                    if v.as_slice().iter().all(|i| *i < n) {
                        want = v.as_slice().iter().map(|i| m0[*i]).collect();
                        Some(true)
                    } else {
                        Some(false)
                    }
                }
            };
            let out = match catch_unwind(AssertUnwindSafe(|| s.apply(op))) {
                Ok(Ok(())) => Out::Done,
                Ok(Err(())) => Out::Err,
                Err(_) => Out::Panic,
            };
            match expect {
                Some(true) => ensure!(out == Out::Done, "valid operation was rejected: {:?}", out),
                Some(false) => {
                    // only the accessors without a result type may stop with a panic
                    ensure!(out == Out::Err || (out == Out::Panic && matches!(op, Op::SetD(..) | Op::IndexMut(..))), "invalid operation ended with {:?}", out);
                    want = m0.clone();
                }
                None => {
                    ensure!(out != Out::Panic, "insert at the end panicked");
                    if out == Out::Err {
                        want = m0.clone();
                    }
                }
            }
            let got = s.contents();
            ensure!(got == want, "contents {:?} expected {:?}", got, want);
            ensure!(s.len_of().as_slice().iter().all(|l| *l == want.len()), "length {:?} expected {}", s.len_of(), want.len());
            for i in (0..want.len() + 2).chain(far(want.len())) {
                ensure!(s.get_at(i) == want.get(i).copied(), "element {} is {:?}, expected {:?}", i, s.get_at(i), want.get(i));
            }
            *m = want;
            Ok(())
        },
        |(_, m)| m.clone(),
    );
}
fn main() {
    let mut gs = vec![];
    gs.push(g("PointCloud3D", |c| {
        let d = c.q(5, 6);
        search(c, "PointCloud3D", vec![PointCloud3D::new(), PointCloud3D::with_capacity(7), PointCloud3D::from(list(3))], false, d)
    }));
    gs.push(g("PointCloud2D", |c| {
        let d = c.q(5, 6);
        search(c, "PointCloud2D", vec![C2(PointCloud2D::new()), C2(PointCloud2D::from((0..3).map(|i| pt2(i + 3)).collect::<Vec<_>>()))], true, d)
    }));
    gs.push(g("Vec", |c| {
        let d = c.q(6, 7);
        search(c, "Vec", vec![vec![], list(3)], false, d)
    }));
    gs.push(g("VecDeque", |c| {
        let d = c.q(6, 7);
        let mut w: VecDeque<Point3D> = VecDeque::with_capacity(4);
        list(4).into_iter().for_each(|p| w.push_back(p));
        w.rotate_left(2);
        search(c, "VecDeque", vec![VecDeque::new(), list(3).into_iter().collect(), w], false, d)
    }));
    gs.push(g("PointCloud3Df32", |c| {
        let d = c.q(8, 10);
        let mut p = PointCloud3Df32::with_capacity(3);
        list(3).into_iter().for_each(|x| IsPushable::push(&mut p, x));
        search(c, "PointCloud3Df32", vec![PointCloud3Df32::new(), p], false, d)
    }));
    for n in sizes(true) {
        gs.push(g(format!("large n={}", n), move |c| {
            if !c.size(n, HUGE) {
                return;
            }
            let d = if n <= c.q(40, 300) { 2 } else { 1 };
            search(c, "PointCloud3D", vec![PointCloud3D::from(list(n))], false, d);
            search(c, "PointCloud2D", vec![C2(PointCloud2D::from((0..n).map(|i| pt2(i + 3)).collect::<Vec<_>>()))], true, d);
            search(c, "Vec", vec![list(n)], false, d);
            let mut w: VecDeque<Point3D> = list(n).into_iter().collect();
            w.rotate_left(n / 3);
            search(c, "VecDeque", vec![list(n).into_iter().collect(), w], false, d);
            let mut p = PointCloud3Df32::with_capacity(n / 2);
            list(n).into_iter().for_each(|x| IsPushable::push(&mut p, x));
            search(c, "PointCloud3Df32", vec![p], false, d);
            c.case(
                || format!("text of {} points", n),
                |c| {
                    c.trans(2);
                    let pc = PointCloud3D::from(list(n));
                    let p2 = PointCloud2D::from(list(n).as_slice().iter().map(|p| Point2D::new(p.x, p.z)).collect::<Vec<_>>());
                    let r3 = PointCloud3D::<Point3D>::parse(&pc.to_str()).map_err(|e| format!("parse: {:?}", e))?;
                    let r2 = PointCloud2D::<Point2D>::parse(&p2.to_str()).map_err(|e| format!("parse: {:?}", e))?;
                    ensure!(r3.contents() == pc.contents() && C2(r2).contents() == C2(p2).contents(), "text changed the points");
                    Ok(())
                },
            );
        }));
    }
    gs.push(g("text form", |c| {
        // to_str/parse/Display of clouds keep the list of points
        for len in 0..=c.q(3, 4) {
            tuples(6, len, |t| {
                let v: Vec<Point3D> = t.iter().map(|i| pt(*i * 4)).collect();
                c.state(&t.to_vec());
                c.case(
                    || format!("{:?}", v),
                    |c| {
                        c.trans(4);
                        let pc = PointCloud3D::from(v.clone());
                        let p2 = PointCloud2D::from(v.as_slice().iter().map(|p| Point2D::new(p.x, p.z)).collect::<Vec<_>>());
                        let r3 = PointCloud3D::<Point3D>::parse(&pc.to_str());
                        let r2 = PointCloud2D::<Point2D>::parse(&p2.to_str());
                        if v.is_empty() {
                            ensure!(r3.is_err() && r2.is_err(), "empty text accepted");
                            return Ok(());
                        }
                        let r3 = r3.map_err(|e| format!("parse: {:?}", e))?;
                        let r2 = r2.map_err(|e| format!("parse: {:?}", e))?;
                        ensure!(r3.contents() == pc.contents(), "text {:?} reads as {:?}", pc.to_str(), r3);
                        ensure!(C2(r2).contents() == C2(p2.clone()).contents(), "text {:?}", p2.to_str());
                        let vv: Vec<Point3D> = pc.clone().into();
                        ensure!(vv.contents() == pc.contents(), "into Vec changed the points");
                        let mut twice = pc.clone();
                        twice.for_each_point(|p| p.set_x(p.x() + 1.0));
                        ensure!(twice.data.as_slice().iter().zip(v.as_slice().iter()).all(|(a, b)| a.x == b.x + 1.0 && a.y == b.y && a.z == b.z), "for_each_point");
                        Ok(())
                    },
                );
                !c.stopped()
            });
        }
    }));
    mc::main(
        Spec {
            prop: "C39",
            level: "model_checking",
            rule: "breadth-first search over all operation histories up to the stated depth for every point container (from empty, short and - depth 1 to 2 - containers of up to 300, thorough 4097 points), every operation with valid, end, just-outside and huge positions; after each step length, contents and element access are compared with a plain list; states = distinct contents, transitions = operations",
            assumptions: &["the accessors without a result type (set_d, index) may panic for positions outside the list, with the contents unchanged"],
        },
        gs,
    )
}
