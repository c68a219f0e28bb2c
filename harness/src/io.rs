//! Shared parts of the file format checks: every loader and every streaming reader behind one interface, controlled
//! readers and writers, and a corpus of small valid files whose meaning is known independently of the library.
use crate::*;
use rust_3d::io::*;
use rust_3d::*;
use std::io::{BufRead, Error, ErrorKind as EK, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

pub type B3 = [u64; 3];
pub fn b3(p: [f64; 3]) -> B3 {
    [p[0].to_bits(), p[1].to_bits(), p[2].to_bits()]
}
pub fn pb(p: &Point3D) -> B3 {
    b3([p.x, p.y, p.z])
}
pub fn f3(b: &B3) -> [f64; 3] {
    [f64::from_bits(b[0]), f64::from_bits(b[1]), f64::from_bits(b[2])]
}
/// What a file contains, independent of the container it is loaded into.
#[derive(Clone, PartialEq, Eq, Default, Hash)]
pub struct Out {
    pub pts: Vec<B3>,
    pub faces: Vec<[usize; 3]>,
    pub normals: Vec<B3>,
}
impl std::fmt::Debug for Out {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "points {:?} faces {:?} normals {:?}", self.pts.as_slice().iter().take(8).map(f3).collect::<Vec<_>>(), self.faces.as_slice().iter().take(8).collect::<Vec<_>>(), self.normals.as_slice().iter().take(4).map(f3).collect::<Vec<_>>())
    }
}
pub type LR = Res<Out>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Fm {
    Ascii,
    Binary,
    Auto,
}
impl Fm {
    pub const ALL: [Fm; 3] = [Fm::Ascii, Fm::Binary, Fm::Auto];
    pub fn get(self) -> StlFormat {
        match self {
            Fm::Ascii => StlFormat::Ascii,
            Fm::Binary => StlFormat::Binary,
            Fm::Auto => StlFormat::Auto,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Xy,
    Xyz,
    ObjPoints,
    ObjMesh,
    OffPoints,
    OffMesh,
    Pts,
    Ptx,
    Psl,
    Gcode,
    Las,
    PlyMesh,
    PlyPoints,
    PlyEither,
    StlDuped(Fm),
    StlUnique(Fm),
    StlTriplets(Fm),
}
pub const KINDS: [Kind; 23] = [
    Kind::Xy,
    Kind::Xyz,
    Kind::ObjPoints,
    Kind::ObjMesh,
    Kind::OffPoints,
    Kind::OffMesh,
    Kind::Pts,
    Kind::Ptx,
    Kind::Psl,
    Kind::Gcode,
    Kind::Las,
    Kind::PlyMesh,
    Kind::PlyPoints,
    Kind::PlyEither,
    Kind::StlDuped(Fm::Ascii),
    Kind::StlDuped(Fm::Binary),
    Kind::StlDuped(Fm::Auto),
    Kind::StlUnique(Fm::Ascii),
    Kind::StlUnique(Fm::Binary),
    Kind::StlUnique(Fm::Auto),
    Kind::StlTriplets(Fm::Ascii),
    Kind::StlTriplets(Fm::Binary),
    Kind::StlTriplets(Fm::Auto),
];
pub type M = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
pub fn mesh_out(m: &M, normals: &[Point3D]) -> Out {
    Out {
        pts: (0..m.num_vertices()).map(|i| pb(&m.vertex(VId(i)).unwrap())).collect(),
        faces: (0..m.num_faces())
            .map(|i| {
                let f = m.face_vertex_ids(FId(i)).unwrap();
                [f.a.0, f.b.0, f.c.0]
            })
            .collect(),
        normals: normals.iter().map(pb).collect(),
    }
}
fn e<T: std::fmt::Debug>(x: T) -> String {
    let mut s = format!("{:?}", x);
    if s.len() > 200 {
        s = s.chars().take(200).collect()
    }
    s
}
/// Runs the one-shot loader on the given targets (true: the mesh was filled).
pub fn load_into<R, IP, EM, N>(k: Kind, r: R, p2: &mut Vec<Point2D>, ip: &mut IP, m: &mut EM, nn: &mut N) -> Res<bool>
where
    R: BufRead + Seek,
    IP: IsPushable<Point3D>,
    N: IsPushable<Point3D>,
    EM: IsFaceEditableMesh<Point3D, Face3> + IsVertexEditableMesh<Point3D, Face3>,
{
    Ok(match k {
        Kind::Xy => load_xy(r, p2).map(|_| false).map_err(e)?,
        Kind::Xyz => load_xyz(r, ip).map(|_| false).map_err(e)?,
        Kind::ObjPoints => load_obj_points(r, ip).map(|_| false).map_err(e)?,
        Kind::ObjMesh => load_obj_mesh(r, m).map(|_| true).map_err(e)?,
        Kind::OffPoints => load_off_points(r, ip).map(|_| false).map_err(e)?,
        Kind::OffMesh => load_off_mesh(r, m).map(|_| true).map_err(e)?,
        Kind::Pts => load_pts(r, ip).map(|_| false).map_err(e)?,
        Kind::Ptx => load_ptx(r, ip).map(|_| false).map_err(e)?,
        Kind::Psl => load_psl(r, ip).map(|_| false).map_err(e)?,
        Kind::Gcode => load_gcode_points(r, ip).map(|_| false).map_err(e)?,
        Kind::Las => load_las(r, ip).map(|_| false).map_err(e)?,
        Kind::PlyMesh => load_ply_mesh(r, m).map(|_| true).map_err(e)?,
        Kind::PlyPoints => load_ply_points(r, ip).map(|_| false).map_err(e)?,
        Kind::PlyEither => match load_ply_either(r, m, ip).map_err(e)? {
            MeshOrPoints::Mesh => true,
            MeshOrPoints::Points => false,
        },
        Kind::StlDuped(f) => load_stl_mesh_duped(r, f.get(), m, nn).map(|_| true).map_err(e)?,
        Kind::StlUnique(f) => load_stl_mesh_unique(r, f.get(), m, nn).map(|_| true).map_err(e)?,
        Kind::StlTriplets(f) => load_stl_triplets(r, f.get(), ip, nn).map(|_| false).map_err(e)?,
    })
}
/// Runs the one-shot loader.
pub fn load<R: BufRead + Seek>(k: Kind, r: R) -> LR {
    let mut p2: Vec<Point2D> = Vec::new();
    let mut ip: Vec<Point3D> = Vec::new();
    let mut nn: Vec<Point3D> = Vec::new();
    let mut m = M::default();
    let mesh = load_into(k, r, &mut p2, &mut ip, &mut m, &mut nn)?;
    if mesh && ip.as_slice().iter().count() > 0 {
        return Err("BROKEN: mesh reported, points loaded".into());
    }
    if !mesh && m.num_vertices() > 0 {
        return Err("BROKEN: points reported, mesh loaded".into());
    }
    Ok(if mesh {
        mesh_out(&m, &nn)
    } else if k == Kind::Xy {
        Out { pts: p2.as_slice().iter().map(|p| b3([p.x, p.y, 0.0])).collect(), ..Default::default() }
    } else {
        Out { pts: ip.as_slice().iter().map(pb).collect(), faces: vec![], normals: nn.as_slice().iter().map(pb).collect() }
    })
}
/// One element of a streaming reader.
#[derive(Clone, PartialEq, Debug, Hash)]
pub enum Item {
    P(B3),
    F([usize; 3]),
    T([B3; 4]),
    Reserve(usize, usize),
}
type SR = std::result::Result<Item, String>;
/// Forwards nth so that a specialised implementation of the reader is exercised
struct Fwd<I, F>(I, F);
impl<T, I: Iterator<Item = T>, F: FnMut(T) -> SR> Iterator for Fwd<I, F> {
    type Item = SR;
    fn next(&mut self) -> Option<SR> {
        self.0.next().map(&mut self.1)
    }
    fn nth(&mut self, n: usize) -> Option<SR> {
        self.0.nth(n).map(&mut self.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn count(self) -> usize {
        self.0.count()
    }
    fn last(self) -> Option<SR> {
        self.0.last().map(self.1)
    }
}
pub type Stream<'a> = Box<dyn Iterator<Item = SR> + 'a>;
fn dr(x: DataReserve<Point3D>) -> Item {
    match x {
        DataReserve::Data(p) => Item::P(pb(&p)),
        DataReserve::Reserve(n) => Item::Reserve(n, 0),
    }
}
fn fdr(x: FaceDataReserve<Point3D>) -> Item {
    match x {
        FaceDataReserve::Data(p) => Item::P(pb(&p)),
        FaceDataReserve::Face(f) => Item::F(f),
        FaceDataReserve::ReserveDataFaces(a, b) => Item::Reserve(a, b),
    }
}
/// What to do with a streaming reader of any format
pub trait Visit<'a> {
    type Out;
    fn visit<T: 'a, E: std::fmt::Debug + 'a, I: Iterator<Item = std::result::Result<T, E>> + 'a>(self, i: I, f: fn(T) -> Item) -> Self::Out;
}
struct Boxed;
impl<'a> Visit<'a> for Boxed {
    type Out = Stream<'a>;
    fn visit<T: 'a, E: std::fmt::Debug + 'a, I: Iterator<Item = std::result::Result<T, E>> + 'a>(self, i: I, f: fn(T) -> Item) -> Stream<'a> {
        Box::new(Fwd(i, move |x: std::result::Result<T, E>| x.map(f).map_err(e)))
    }
}
/// Opens the streaming reader (None: the format has none of its own)
pub fn stream<'a, R: BufRead + Seek + 'a>(k: Kind, r: R) -> Option<Res<Stream<'a>>> {
    with_stream(k, r, Boxed)
}
/// Consumes a streaming reader by other means than next: the items from the given one on as reported by each of them
pub struct Consume {
    pub before: usize,
    pub how: usize,
}
pub const CONSUME: [&str; 8] = ["count", "last", "fold", "for_each", "find error", "position", "skip", "step_by"];
impl<'a> Visit<'a> for Consume {
    type Out = Vec<SR>;
    fn visit<T: 'a, E: std::fmt::Debug + 'a, I: Iterator<Item = std::result::Result<T, E>> + 'a>(self, mut i: I, f: fn(T) -> Item) -> Vec<SR> {
        let g = move |x: std::result::Result<T, E>| x.map(f).map_err(e);
        for _ in 0..self.before {
            i.next();
        }
        let mut v = vec![];
        match self.how {
            0 => v.push(Err(i.count().to_string())),
            1 => v.extend(i.last().map(g)),
            2 => {
                v = i.fold(v, |mut v, x| {
                    v.push(g(x));
                    v
                })
            }
            3 => i.for_each(|x| v.push(g(x))),
            4 => {
                v.extend(i.find(|x| x.is_err()).map(g));
                v.extend(i.next().map(g));
            }
            5 => {
                v.push(Err(format!("{:?}", i.position(|x| x.is_err()))));
                v.push(Err(i.all(|x| x.is_ok()).to_string()));
            }
            6 => i.skip(2).for_each(|x| v.push(g(x))),
            _ => i.step_by(2).for_each(|x| v.push(g(x))),
        }
        v
    }
}
/// What Consume must report for a stream of these items
pub fn consumed(items: &[SR], how: &Consume) -> Vec<SR> {
    let rest = &items[how.before.min(items.len())..];
    let position = rest.iter().position(|x| x.is_err());
    match how.how {
        0 => vec![Err(rest.len().to_string())],
        1 => rest.last().cloned().into_iter().collect(),
        2 | 3 => rest.to_vec(),
        4 => rest.iter().filter(|x| x.is_err()).cloned().collect(),
        5 => vec![Err(format!("{:?}", position)), Err("true".to_string())],
        6 => rest.iter().skip(2).cloned().collect(),
        _ => rest.iter().step_by(2).cloned().collect(),
    }
}
/// Hands the streaming reader of this kind to a visitor
pub fn with_stream<'a, R: BufRead + Seek + 'a, V: Visit<'a>>(k: Kind, r: R, v: V) -> Option<Res<V::Out>> {
    Some(Ok(match k {
        Kind::Xy => v.visit(XyIterator::<Point2D, R>::new(r), |p| Item::P(b3([p.x, p.y, 0.0]))),
        Kind::Xyz => v.visit(XyzIterator::<Point3D, R>::new(r), |p| Item::P(pb(&p))),
        Kind::ObjPoints => v.visit(ObjPointsIterator::<Point3D, R>::new(r), |p| Item::P(pb(&p))),
        Kind::ObjMesh => v.visit(ObjMeshIterator::<Point3D, R>::new(r), |p| match p {
            FaceData::Face(f) => Item::F(f),
            FaceData::Data(p) => Item::P(pb(&p)),
        }),
        Kind::OffPoints => v.visit(OffPointsIterator::<Point3D, R>::new(r), dr),
        Kind::OffMesh => v.visit(OffMeshIterator::<Point3D, R>::new(r), fdr),
        Kind::Pts => v.visit(PtsIterator::<Point3D, R>::new(r), dr),
        Kind::Ptx => v.visit(PtxIterator::<Point3D, R>::new(r), dr),
        Kind::Psl => v.visit(PslIterator::<Point3D, R>::new(r), |p| Item::P(pb(&p))),
        Kind::Gcode => v.visit(GcodeIterator::<Point3D, R>::new(r), |p| Item::P(pb(&p))),
        Kind::Las => match LasIterator::<Point3D, R>::new(r) {
            Ok(i) => v.visit(i, dr),
            Err(x) => return Some(Err(e(x))),
        },
        Kind::PlyMesh => match PlyMeshIterator::<Point3D, R>::new(r) {
            Ok(i) => v.visit(i, fdr),
            Err(x) => return Some(Err(e(x))),
        },
        Kind::PlyPoints => match PlyPointsIterator::<Point3D, R>::new(r) {
            Ok(i) => v.visit(i, dr),
            Err(x) => return Some(Err(e(x))),
        },
        Kind::PlyEither => return None,
        Kind::StlDuped(f) | Kind::StlUnique(f) | Kind::StlTriplets(f) => match StlIterator::<Point3D, R>::new(r, f.get()) {
            Ok(i) => v.visit(i, |x| match x {
                DataReserve::Reserve(n) => Item::Reserve(n, 0),
                DataReserve::Data(t) => Item::T([pb(&t.a), pb(&t.b), pb(&t.c), pb(&t.n)]),
            }),
            Err(x) => return Some(Err(e(x))),
        },
    }))
}
/// What the one-shot loader of this kind must make of streamed elements (the containers are checked by C05 and C39)
pub fn assemble(k: Kind, items: &[Item]) -> LR {
    let mut o = Out::default();
    let mut ids: std::collections::HashMap<[u64; 3], usize> = Default::default();
    for i in items {
        match i {
            Item::Reserve(..) => (),
            Item::P(p) => o.pts.push(*p),
            Item::F(f) => {
                let n = o.pts.as_slice().iter().count();
                if f.iter().any(|i| *i >= n) || f[0] == f[1] || f[0] == f[2] || f[1] == f[2] {
                    return Err("InvalidMeshIndices".into());
                }
                o.faces.push(*f)
            }
            Item::T([a, b, c, n]) => match k {
                Kind::StlUnique(_) => {
                    let mut id = |p: &B3| {
                        // by value: both zeros are the same, NaN equals nothing
                        let v = f3(p);
                        if v.iter().any(|x| x.is_nan()) {
                            o.pts.push(*p);
                            return o.pts.as_slice().iter().count() - 1;
                        }
                        *ids.entry(v.map(|x| (x + 0.0).to_bits())).or_insert_with(|| {
                            o.pts.push(*p);
                            o.pts.as_slice().iter().count() - 1
                        })
                    };
                    let f = [id(a), id(b), id(c)];
                    if f[0] != f[1] && f[0] != f[2] && f[1] != f[2] {
                        o.faces.push(f);
                        o.normals.push(*n)
                    }
                }
                _ => {
                    if let Kind::StlDuped(_) = k {
                        let s = o.pts.as_slice().iter().count();
                        o.faces.push([s, s + 1, s + 2])
                    }
                    o.pts.extend_from_slice(&[*a, *b, *c]);
                    o.normals.push(*n)
                }
            },
        }
    }
    Ok(o)
}

// ---------------------------------------------------------------- controlled reader
/// How the environment answers the reader's requests
#[derive(Clone, Debug)]
pub enum Plan {
    /// everything at once
    Whole,
    /// pieces of this size
    Piece(usize),
    /// pieces ending at these positions
    Cuts(Vec<usize>),
    /// like Piece, with an interrupted call before every piece
    Interrupted(usize),
}
thread_local! {
    static CALLS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// Number of requests to controlled readers since the last call
pub fn calls() -> usize {
    CALLS.with(|c| c.replace(0))
}
pub struct Src {
    data: Rc<Vec<u8>>,
    pos: usize,
    end: usize,
    plan: Plan,
    intr: bool,
    /// fail when the data before this position has been consumed
    pub fail_at: Option<usize>,
    pub fail_kind: EK,
    /// keeps failing (false: a single failure, then the data continues)
    pub sticky: bool,
    failed: bool,
    /// reports the end of the data once when this position is reached, then continues
    pub gap_at: Option<usize>,
    pub calls: usize,
}
impl Src {
    pub fn new(data: &Rc<Vec<u8>>, plan: Plan) -> Src {
        Src { data: data.clone(), pos: 0, end: 0, plan, intr: false, fail_at: None, fail_kind: EK::Other, sticky: true, failed: false, gap_at: None, calls: 0 }
    }
    pub fn whole(data: &[u8]) -> Src {
        Src::new(&Rc::new(data.to_vec()), Plan::Whole)
    }
    pub fn failing(data: &Rc<Vec<u8>>, plan: Plan, at: usize, kind: EK, sticky: bool) -> Src {
        let mut s = Src::new(data, plan);
        s.fail_at = Some(at);
        s.fail_kind = kind;
        s.sticky = sticky;
        s
    }
    fn len(&self) -> usize {
        self.data.as_slice().iter().len()
    }
}
impl BufRead for Src {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        self.calls += 1;
        CALLS.with(|c| c.set(c.get() + 1));
        if self.pos >= self.end {
            if let Some(f) = self.fail_at {
                if self.pos >= f && (self.sticky || !self.failed) {
                    self.failed = true;
                    return Err(Error::new(self.fail_kind, "injected"));
                }
            }
            let n = self.len();
            let p = self.pos;
            if self.gap_at == Some(p) {
                self.gap_at = None;
                self.end = p;
                return Ok(&[]);
            }
            let mut end = match &self.plan {
                Plan::Whole => n,
                Plan::Piece(k) => p + k,
                Plan::Cuts(c) => c.as_slice().iter().copied().find(|c| *c > p).unwrap_or(n),
                Plan::Interrupted(k) => {
                    self.intr = !self.intr;
                    if self.intr {
                        return Err(Error::new(EK::Interrupted, "interrupted"));
                    }
                    p + k
                }
            };
            if let Some(f) = self.fail_at {
                if p < f {
                    end = end.min(f)
                }
            }
            if let Some(f) = self.gap_at {
                if p < f {
                    end = end.min(f)
                }
            }
            self.end = end.min(n).max(p.min(n));
        }
        let (a, b) = (self.pos.min(self.len()), self.end.min(self.len()));
        Ok(&self.data[a..b.max(a)])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
        assert!(self.pos <= self.end.max(self.pos));
    }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = {
            let b = self.fill_buf()?;
            let n = b.len().min(buf.len());
            buf[..n].copy_from_slice(&b[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl Seek for Src {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.len() as i128 + d as i128,
        };
        if p < 0 {
            return Err(Error::new(EK::InvalidInput, "negative"));
        }
        self.pos = p as usize;
        self.end = self.pos;
        Ok(p as u64)
    }
}
pub fn load_bytes(k: Kind, data: &[u8]) -> LR {
    load(k, std::io::Cursor::new(data))
}

// ---------------------------------------------------------------- controlled writer
/// What the writer does with one call
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum W {
    /// accept at most this many bytes
    Accept(usize),
    Interrupt,
    Fail,
    /// accepts nothing
    Zero,
}
pub struct Sink<F: FnMut(usize, usize) -> W> {
    pub out: Vec<u8>,
    pub calls: usize,
    pub f: F,
}
impl<F: FnMut(usize, usize) -> W> Sink<F> {
    /// f(call, bytes written so far)
    pub fn new(f: F) -> Self {
        Sink { out: Vec::new(), calls: 0, f }
    }
}
impl<F: FnMut(usize, usize) -> W> Write for Sink<F> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let c = self.calls;
        self.calls += 1;
        match (self.f)(c, self.out.as_slice().iter().len()) {
            W::Accept(n) => {
                let n = n.min(buf.len()).max(1);
                self.out.extend_from_slice(&buf[..n]);
                Ok(n)
            }
            W::Interrupt => Err(Error::new(EK::Interrupted, "interrupted")),
            W::Fail => Err(Error::new(EK::Other, "injected")),
            W::Zero => Ok(0),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- encoders
pub enum Txt {}
pub fn push32(v: &mut Vec<u8>, x: f32, be: bool) {
    v.extend_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() })
}
/// binary STL
pub fn enc_stl_binary(header: &[u8; 80], tris: &[[[f32; 3]; 4]], attr: u16) -> Vec<u8> {
    let mut v = header.to_vec();
    v.extend_from_slice(&(tris.len() as u32).to_le_bytes());
    for [a, b, c, n] in tris {
        for p in [n, a, b, c] {
            for x in p {
                push32(&mut v, *x, false)
            }
        }
        v.extend_from_slice(&attr.to_le_bytes());
    }
    v
}
pub fn enc_stl_ascii(tris: &[[[f64; 3]; 4]]) -> Vec<u8> {
    let mut s = String::from("solid test\n");
    for [a, b, c, n] in tris {
        s += &format!("facet normal {} {} {}\nouter loop\n", n[0], n[1], n[2]);
        for p in [a, b, c] {
            s += &format!("vertex {} {} {}\n", p[0], p[1], p[2]);
        }
        s += "endloop\nendfacet\n";
    }
    s += "endsolid test\n";
    s.into_bytes()
}
pub struct LasFile {
    pub minor: u8,
    pub header_size: u16,
    pub gap: usize,
    pub format: u8,
    pub record: u16,
    pub legacy_count: u32,
    pub count: u64,
    pub scale: [f64; 3],
    pub offset: [f64; 3],
    pub recs: Vec<[i32; 3]>,
    pub fill: u8,
}
impl Default for LasFile {
    fn default() -> Self {
        LasFile { minor: 4, header_size: 375, gap: 0, format: 0, record: 20, legacy_count: 0, count: 0, scale: [1.0; 3], offset: [0.0; 3], recs: vec![], fill: 0 }
    }
}
impl LasFile {
    pub fn bytes(&self) -> Vec<u8> {
        let mut h = vec![0u8; 375];
        h[0..4].copy_from_slice(b"LASF");
        h[24] = 1;
        h[25] = self.minor;
        h[94..96].copy_from_slice(&self.header_size.to_le_bytes());
        let off = self.header_size as usize + self.gap;
        h[96..100].copy_from_slice(&(off as u32).to_le_bytes());
        h[104] = self.format;
        h[105..107].copy_from_slice(&self.record.to_le_bytes());
        h[107..111].copy_from_slice(&self.legacy_count.to_le_bytes());
        for i in 0..3 {
            h[131 + 8 * i..139 + 8 * i].copy_from_slice(&self.scale[i].to_le_bytes());
            h[155 + 8 * i..163 + 8 * i].copy_from_slice(&self.offset[i].to_le_bytes());
        }
        if self.minor < 4 {
            // before version 1.4 this is user data
            h[if self.minor == 3 { 235 } else { 227 }..].iter_mut().for_each(|b| *b = self.fill)
        } else {
            h[247..255].copy_from_slice(&self.count.to_le_bytes());
        }
        let mut h: Vec<u8> = h.into_iter().take(self.header_size as usize).collect();
        h.resize(off, self.fill);
        for r in self.recs.as_slice().iter() {
            let s = h.as_slice().iter().len();
            for x in r {
                h.extend_from_slice(&x.to_le_bytes())
            }
            h.resize(s + (self.record as usize).max(12), self.fill);
        }
        h
    }
}
pub fn enc_psl(passes: &[Vec<Vec<[f32; 3]>>]) -> Vec<u8> {
    let mut v = b"PSL ".to_vec();
    v.extend_from_slice(&1i32.to_le_bytes());
    v.extend_from_slice(&[b'c'; 128]);
    v.extend_from_slice(&(passes.len() as i32).to_le_bytes());
    v.extend_from_slice(&0i32.to_le_bytes());
    v.extend_from_slice(&[0xAB; 368]);
    for p in passes {
        v.extend_from_slice(&(p.as_slice().iter().len() as i32).to_le_bytes());
        v.extend_from_slice(&7i32.to_le_bytes());
        v.extend_from_slice(&[0xCD; 56]);
        for l in p.as_slice().iter() {
            v.extend_from_slice(&(l.as_slice().iter().len() as i32).to_le_bytes());
            v.extend_from_slice(&[0xEF; 12]);
            v.extend_from_slice(&[0x11; 48]);
            for q in l.as_slice().iter() {
                for x in q {
                    push32(&mut v, *x, false)
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- large files
pub struct Large {
    pub kind: Kind,
    pub data: Rc<Vec<u8>>,
    /// the file declares how many elements it has
    pub declares: bool,
    /// reading must get beyond this position to know the content; a declaring file cut here or before (but not empty) is incomplete
    pub need: usize,
}
/// A file of n (at least 8) points of every format (and about n faces)
pub fn large_files(n: usize) -> Vec<Large> {
    let p = |i: usize| [i as f64 * 0.5, -(i as f64), (i * i % 97) as f64];
    let head = |v: usize, f: usize| format!("ply\nformat ascii 1.0\nelement vertex {}\nproperty float x\nproperty float y\nproperty float z\nelement face {}\nproperty list uchar uint vertex_indices\nend_header\n", v, f);
    let (mut xy, mut xyz, mut obj, mut gcode, mut points, mut faces) = (String::new(), String::new(), String::new(), String::new(), String::new(), String::new());
    let mut be = head(n, n - 2).replace("ascii", "binary_big_endian").into_bytes();
    for i in 0..n {
        let [x, y, z] = p(i);
        xy += &format!("{} {}\n", x, y);
        xyz += &format!("{} {} {}\n", x, y, z);
        obj += &format!("v {} {} {}\n", x, y, z);
        gcode += &match i % 9 {
            4 => format!("G91\nG1 X{} Y1\n", y),
            7 => format!("G90\nG92 X{} Y{} Z{}\n", x, y, z),
            _ => format!("G1 X{} Y{} Z{}\n", x, y, z),
        };
        points += &format!("{} {} {}\n", x, y, z);
        for w in [x, y, z] {
            push32(&mut be, w as f32, true)
        }
    }
    let be_points = be.as_slice().iter().count();
    for i in 0..n - 2 {
        faces += &format!("3 {} {} {}\n", i, i + 1, i + 2);
        obj += &format!("f {} {} {}\n", i + 1, i + 2, i + 3);
        be.push(3);
        for w in 0..3 {
            be.extend_from_slice(&((i + w) as u32).to_be_bytes())
        }
    }
    let tris: Vec<[[f32; 3]; 4]> = (0..n).map(|i| [p(i), p(i + 1), p(i + 2), [0.0, 0.0, 1.0]].map(|q| q.map(|x| x as f32))).collect();
    let tris64: Vec<[[f64; 3]; 4]> = (0..n).map(|i| [p(i), p(i + 1), p(i + 2), [0.0, 0.0, 1.0]]).collect();
    let las = |minor: u8| LasFile { legacy_count: if minor == 4 { 0 } else { n as u32 }, count: n as u64, minor, header_size: if minor == 4 { 375 } else { 227 }, recs: (0..n).map(|i| [i as i32, -(i as i32), 7]).collect(), ..Default::default() }.bytes();
    let psl = enc_psl(&[(0..7).map(|l| (0..n / 7).map(|i| p(l * (n / 7) + i).map(|x| x as f32)).collect()).collect()]);
    let off = format!("OFF\n{} {} 0\n{}", n, n - 2, points);
    let ply = head(n, n - 2) + &points;
    let ptx = format!("{}\n2\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n{}", n / 2, points.lines().take(n / 2 * 2).map(|l| format!("{}\n", l)).collect::<String>());
    let mut v = vec![];
    let mut text = |kind: Kind, t: String, declares: bool, points: usize| {
        let d = t.into_bytes();
        let n = d.as_slice().iter().count();
        let need = if declares { find_last_token(&d, points - 1) } else { n };
        v.push(Large { kind, data: Rc::new(d), declares, need })
    };
    let (off_points, ply_points) = (off.as_str().len(), ply.as_str().len());
    let (off, ply) = (off + &faces, ply + &faces);
    text(Kind::Xy, xy, false, 0);
    text(Kind::Xyz, xyz, false, 0);
    text(Kind::ObjMesh, obj.clone(), false, 0);
    text(Kind::ObjPoints, obj, false, 0);
    text(Kind::Gcode, gcode, false, 0);
    text(Kind::OffPoints, off.clone(), true, off_points);
    let l = off.as_str().len();
    text(Kind::OffMesh, off, true, l);
    text(Kind::PlyPoints, ply.clone(), true, ply_points);
    let l = ply.as_str().len();
    text(Kind::PlyMesh, ply.clone(), true, l);
    text(Kind::PlyEither, ply, true, l);
    let pts = format!("{}\n{}", n, points);
    let l = pts.as_str().len();
    text(Kind::Pts, pts, true, l);
    let l = ptx.as_str().len();
    text(Kind::Ptx, ptx, true, l);
    let stl = String::from_utf8(enc_stl_ascii(&tris64)).unwrap();
    text(Kind::StlTriplets(Fm::Ascii), stl.clone(), false, 0);
    text(Kind::StlUnique(Fm::Auto), stl, false, 0);
    for x in &mut v {
        if matches!(x.kind, Kind::StlTriplets(_) | Kind::StlUnique(_)) {
            x.need -= "endsolid test\n".len() - 7
        }
    }
    let mut binary = |kind: Kind, d: &Vec<u8>, end: usize| v.push(Large { kind, data: Rc::new(d.clone()), declares: true, need: end - 1 });
    let end = |d: &Vec<u8>| d.as_slice().iter().count();
    binary(Kind::PlyPoints, &be, be_points);
    binary(Kind::PlyMesh, &be, end(&be));
    let stl = enc_stl_binary(&[0; 80], &tris, 0);
    for k in [Kind::StlDuped(Fm::Auto), Kind::StlTriplets(Fm::Binary), Kind::StlUnique(Fm::Binary)] {
        binary(k, &stl, end(&stl))
    }
    for minor in [2, 4] {
        let d = las(minor);
        let e = end(&d);
        binary(Kind::Las, &d, e);
    }
    binary(Kind::Psl, &psl, end(&psl));
    v
}
/// A file of three points and (if there are any) two faces of every format, whose lines and elements are w bytes longer than needed
pub fn wide_files(w: usize) -> Vec<Large> {
    let z = "0".repeat(w);
    let b = " ".repeat(w);
    let p = |i: usize| [0.5 + i as f64, (i * i) as f64, (7 - i) as f64];
    let points: String = (0..3).map(p).map(|[x, y, u]| format!("{}{} {} {}\n", z, x, y, u)).collect();
    let blanks: String = (0..3).map(p).map(|[x, y, u]| format!("{}{}{} {} {}\n", x, b, y, b, u)).collect();
    let faces: String = [[0, 1, 2], [2, 1, 0]].iter().map(|f| format!("3 {} {}{} {}\n", f[0], z, f[1], f[2])).collect();
    let head = |f: usize| format!("ply\nformat ascii 1.0\ncomment {}\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\nelement face {}\nproperty list uchar uint vertex_indices\nend_header\n", z, f);
    let mut v = vec![];
    let mut text = |kind: Kind, t: String, declares: bool| {
        let d = t.into_bytes();
        let n = d.as_slice().iter().count();
        let need = if declares { find_last_token(&d, n - 1) } else { n };
        v.push(Large { kind, data: Rc::new(d), declares, need })
    };
    text(Kind::Xy, (0..3).map(p).map(|[x, y, _]| format!("{}{} {}\n", z, x, y)).collect(), false);
    text(Kind::Xyz, points.clone(), false);
    for l in [&points, &blanks] {
        let obj: String = format!("#{}\n", z) + &l.lines().map(|l| format!("v {}\n", l)).collect::<String>() + &format!("f {}1 2 3\nf 3/{}1/ 2//{}2 1\n", z, z, z);
        text(Kind::ObjMesh, obj.clone(), false);
        text(Kind::ObjPoints, obj, false);
        text(Kind::OffPoints, format!("OFF\n3 0 0\n{}", l), true);
        text(Kind::OffMesh, format!("OFF\n{}\n3 2 0\n{}{}", format!("#{}", z), l, faces), true);
        text(Kind::PlyPoints, head(0) + l, true);
        text(Kind::PlyMesh, head(2) + l + &faces, true);
        text(Kind::PlyEither, head(2) + l + &faces, true);
        text(Kind::Pts, format!("3\n{}", l), true);
        text(Kind::Ptx, format!("{}1\n{}3\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n{}1 0 0 0\n0 1 0 0\n0 0 1 0\n{}1 {}1 {}1 1\n{}", z, z, z, z, z, z, l), true);
    }
    text(Kind::Gcode, format!(";{}\nG1 X{}1 Y2 ;{}\nG91 {} Z1\nG1 X1 {} Y{}2\n", z, z, z, b, b, z), false);
    let tris64: Vec<[[f64; 3]; 4]> = (0..3).map(|i| [p(i), p(i + 1), p(i + 5), [0.0, 0.0, 1.0]]).collect();
    let stl = String::from_utf8(enc_stl_ascii(&tris64)).unwrap().replace("vertex ", &format!("{}vertex  {}", b, z)).replace("normal ", &format!("normal {}", z));
    text(Kind::StlTriplets(Fm::Ascii), stl.clone(), false);
    text(Kind::StlUnique(Fm::Ascii), stl, false);
    for x in &mut v {
        if matches!(x.kind, Kind::StlTriplets(_) | Kind::StlUnique(_)) {
            x.need -= "endsolid test\n".len() - 7
        }
    }
    for slot in 0..4usize {
        for (be, faces) in [(false, false), (true, false), (false, true), (true, true)] {
            // w further bytes before, between or behind the coordinates, and on both sides of the indices
            let more: String = (0..w).map(|i| format!("property uchar a{}\n", i)).collect();
            let mut h = format!("ply\nformat binary_{}_endian 1.0\nelement vertex 3\n", if be { "big" } else { "little" });
            for k in 0..4 {
                if k == slot {
                    h += &more
                }
                if k < 3 {
                    h += &format!("property float {}\n", ["x", "y", "z"][k])
                }
            }
            if faces {
                h += "element face 2\n";
                if slot == 0 {
                    h += &more
                }
                h += "property list uchar uint vertex_indices\n";
                if slot == 3 {
                    h += &more
                }
            }
            let mut d = (h + "end_header\n").into_bytes();
            for q in (0..3).map(p) {
                for k in 0..4 {
                    if k == slot {
                        d.extend(vec![b'\n'; w])
                    }
                    if k < 3 {
                        push32(&mut d, q[k] as f32, be)
                    }
                }
            }
            if faces {
                for f in [[0u32, 1, 2], [2, 1, 0]] {
                    if slot == 0 {
                        d.extend(vec![2; w])
                    }
                    d.push(3);
                    for i in f {
                        d.extend_from_slice(&if be { i.to_be_bytes() } else { i.to_le_bytes() })
                    }
                    if slot == 3 {
                        d.extend(vec![2; w])
                    }
                }
            }
            let need = d.as_slice().iter().count() - 1;
            let d = Rc::new(d);
            for kind in if faces { [Kind::PlyMesh, Kind::PlyEither] } else { [Kind::PlyPoints, Kind::PlyEither] } {
                v.push(Large { kind, data: d.clone(), declares: true, need })
            }
        }
    }
    for minor in [2u8, 4] {
        let d = LasFile { legacy_count: if minor == 4 { 0 } else { 3 }, count: 3, minor, header_size: if minor == 4 { 375 } else { 227 }, record: 20 + w as u16, gap: w, fill: 1, recs: vec![[1, 2, 3], [4, 5, 6], [7, 8, 9]], ..Default::default() }.bytes();
        let need = d.as_slice().iter().count() - 1;
        v.push(Large { kind: Kind::Las, data: Rc::new(d), declares: true, need });
    }
    v
}
/// About 40 positions of 0..=n: the first and last ones, around powers of two, spread over the rest
pub fn positions(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, 2, 3, 5, 7, n / 7, n / 3, n / 2, 2 * n / 3, 6 * n / 7];
    for k in 0..8 {
        v.push(n.saturating_sub(k))
    }
    for k in [256usize, 1024, 4096, 8192, 65536, 1 << 17, 1 << 20] {
        v.extend_from_slice(&[k - 1, k, k + 1])
    }
    v.retain(|x| *x <= n);
    v.sort();
    v.dedup();
    v
}

// ---------------------------------------------------------------- corpus
/// A valid file with its meaning
pub struct Sample {
    pub name: String,
    pub kinds: Vec<Kind>,
    pub data: Vec<u8>,
    pub text: bool,
    /// expected content per kind
    pub want: Vec<Out>,
    /// positions after which everything the file declares is present (the last one is where the file may be cut without loss);
    /// a file cut between two of them is incomplete. Empty: the format declares nothing.
    pub complete: Vec<usize>,
    /// the last token of a text file starts here (a cut within a token can't be noticed)
    pub last_token: usize,
}
fn find_last_token(d: &[u8], end: usize) -> usize {
    let mut i = end;
    while i > 0 && !(d[i - 1] as char).is_whitespace() {
        i -= 1
    }
    i
}
fn pts_of(v: &[[f64; 3]]) -> Vec<B3> {
    v.iter().map(|p| b3(*p)).collect()
}
pub fn corpus() -> Vec<Sample> {
    let mut c = Vec::new();
    let mut add = |name: &str, kinds: &[Kind], data: Vec<u8>, text: bool, want: Vec<Out>, complete: Vec<usize>| {
        let n = data.as_slice().iter().len();
        let end = complete.as_slice().last().copied().unwrap_or(n);
        let last_token = if text { find_last_token(&data, end) } else { end };
        assert!(kinds.len() == want.as_slice().iter().len());
        c.push(Sample { name: name.into(), kinds: kinds.to_vec(), data, text, want, complete, last_token });
    };
    let o = |p: &[[f64; 3]]| Out { pts: pts_of(p), ..Default::default() };
    let of = |p: &[[f64; 3]], f: &[[usize; 3]]| Out { pts: pts_of(p), faces: f.to_vec(), ..Default::default() };
    let t = |s: &str| s.as_bytes().to_vec();
    add("xy", &[Kind::Xy], t("1.5 -2\n0 3e2\n-0.25 12\n"), true, vec![o(&[[1.5, -2.0, 0.0], [0.0, 300.0, 0.0], [-0.25, 12.0, 0.0]])], vec![]);
    add("xy;", &[Kind::Xy], t("1;2\n3;44\n"), true, vec![o(&[[1.0, 2.0, 0.0], [3.0, 44.0, 0.0]])], vec![]);
    add("xyz", &[Kind::Xyz], t("1 2 3\n-4.5 5e-1 16\n"), true, vec![o(&[[1.0, 2.0, 3.0], [-4.5, 0.5, 16.0]])], vec![]);
    add("xyz,", &[Kind::Xyz], t("1,2,3\n4,5,66\n7,8,9\n"), true, vec![o(&[[1.0, 2.0, 3.0], [4.0, 5.0, 66.0], [7.0, 8.0, 9.0]])], vec![]);
    let v4 = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.5], [0.0, 1.5, 0.0], [0.0, 0.0, 12.0]];
    add(
        "obj",
        &[Kind::ObjPoints, Kind::ObjMesh],
        t("# c\nv 0 0 0\nv 1 0 0.5\nvn 0 0 1\nv 0 1.5 0\nv 0 0 12\nf 1 2 3\nf 2/1/1 3//2 4/7\n"),
        true,
        vec![o(&v4), of(&v4, &[[0, 1, 2], [1, 2, 3]])],
        vec![],
    );
    add("obj quad", &[Kind::ObjPoints, Kind::ObjMesh], t("v 0 0 0\nv 1 0 0.5\nv 0 1.5 0\nv 0 0 12\nf 1 2 3 4\n"), true, vec![o(&v4), of(&v4, &[[0, 1, 2], [0, 2, 3]])], vec![]);
    let off = "OFF\n# c\n4 2 0\n0 0 0\n1 0 0.5\n0 1.5 0\n0 0 12\n3 0 1 2\n3 1 2 3\n";
    add("off mesh", &[Kind::OffMesh], t(off), true, vec![of(&v4, &[[0, 1, 2], [1, 2, 3]])], vec![off.len() - 1]);
    add("off points", &[Kind::OffPoints], t(off), true, vec![o(&v4)], vec![off.find("\n3 0").unwrap()]);
    let pts = "2\n1 2 3 -7 1 2 3\n4 5 6\n1\n7 8 90\n";
    add("pts", &[Kind::Pts], t(pts), true, vec![o(&[[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 8.0, 90.0]])], vec![0, pts.find("1\n7").unwrap(), pts.len() - 1]);
    let ptx_h = |a: usize, b: usize, m: &str| format!("{}\n{}\n0 0 0\n1 0 0\n0 1 0\n0 0 1\n{}", a, b, m);
    let id = "1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n";
    let mv = "0 2 0 0\n-1 0 0 0\n0 0 1 0\n10 20 30 1\n"; // x' = -y + 10, y' = 2x + 20, z' = z + 30
    let b1 = ptx_h(2, 1, id) + "1 2 3 0.5\n4 5 6 0.5\n";
    let ptx = b1.clone() + &ptx_h(1, 2, mv) + "1 2 3 0.5 1 2 3\n7 8 9 0.25\n";
    add("ptx", &[Kind::Ptx], t(&ptx), true, vec![o(&[[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [8.0, 22.0, 33.0], [2.0, 34.0, 39.0]])], vec![0, b1.len(), ptx.len() - 6]);
    add(
        "gcode",
        &[Kind::Gcode],
        t("; c\nG90\nG1 X1 Y2 F9\nM104 S200\nG91 ; rel\nG2 X1 Z-2.5\nG92 Z7\nG90;abs\nG3 Y15\n"),
        true,
        vec![o(&[[1.0, 2.0, 0.0], [2.0, 2.0, -2.5], [2.0, 2.0, 7.0], [2.0, 15.0, 7.0]])],
        vec![],
    );
    let psl = enc_psl(&[vec![vec![[1.0, 2.0, 3.0], [4.0, 5.5, -6.0]], vec![], vec![[7.0, 8.0, 9.0]]], vec![], vec![vec![[0.5, 0.25, 1e6]]]]);
    let n = psl.as_slice().iter().len();
    add("psl", &[Kind::Psl], psl, false, vec![o(&[[1.0, 2.0, 3.0], [4.0, 5.5, -6.0], [7.0, 8.0, 9.0], [0.5, 0.25, 1e6]])], vec![n]);
    for (name, minor, hs, leg, cnt, gap, fmt, rec) in [("las 1.4", 4u8, 375u16, 0u32, 2u64, 0usize, 6u8, 30u16), ("las 1.2", 2, 227, 2, 0, 3, 0, 20), ("las 1.4 legacy", 4, 375, 2, 2, 5, 1, 28)] {
        let l = LasFile { minor, header_size: hs, legacy_count: leg, count: cnt, gap, format: fmt, record: rec, scale: [0.5, 0.25, 2.0], offset: [100.0, 0.0, -10.0], recs: vec![[1, 2, 3], [-4, 500, 6]], fill: 0x77 };
        let d = l.bytes();
        let n = d.as_slice().iter().len();
        add(name, &[Kind::Las], d, false, vec![o(&[[100.5, 0.5, -4.0], [98.0, 125.0, 2.0]])], vec![n]);
    }
    // PLY
    let hd = |f: &str, np: usize, nf: usize, t: &str| {
        format!("ply\nformat {} 1.0\ncomment c\nelement vertex {}\nproperty {} x\nproperty {} y\nproperty uchar q\nproperty {} z\nelement face {}\nproperty list uchar int vertex_indices\nend_header\n", f, np, t, t, t, nf)
    };
    let ply_a = hd("ascii", 4, 2, "float") + "0 0 7 0\n1 0 7 0.5\n0 1.5 7 0\n0 0 7 12\n3 0 1 2\n3 1 2 3\n";
    let fs = [[0, 1, 2], [1, 2, 3]];
    add("ply ascii", &[Kind::PlyMesh, Kind::PlyEither], t(&ply_a), true, vec![of(&v4, &fs), of(&v4, &fs)], vec![ply_a.len() - 1]);
    add("ply ascii points", &[Kind::PlyPoints], t(&ply_a), true, vec![o(&v4)], vec![ply_a.find("\n3 0").unwrap()]);
    for be in [false, true] {
        for dbl in [false, true] {
            let f = if be { "binary_big_endian" } else { "binary_little_endian" };
            let mut d = t(&hd(f, 4, 2, if dbl { "double" } else { "float" }));
            for p in v4 {
                for (i, x) in p.iter().enumerate() {
                    if i == 2 {
                        d.push(0x0a)
                    }
                    if dbl {
                        d.extend_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() })
                    } else {
                        push32(&mut d, *x as f32, be)
                    }
                }
            }
            let np = d.as_slice().iter().len();
            for q in fs {
                d.push(3);
                for i in q {
                    d.extend_from_slice(&if be { (i as i32).to_be_bytes() } else { (i as i32).to_le_bytes() })
                }
            }
            let nd = d.as_slice().iter().len();
            let nm = format!("ply {}{}", if be { "be" } else { "le" }, if dbl { "64" } else { "32" });
            add(&nm, &[Kind::PlyMesh, Kind::PlyEither], d.clone(), false, vec![of(&v4, &fs), of(&v4, &fs)], vec![nd]);
            add(&(nm + " points"), &[Kind::PlyPoints], d, false, vec![o(&v4)], vec![np]);
        }
    }
    let pa = "ply\nformat ascii 1.0\nelement vertex 2\nproperty float x\nproperty float y\nproperty float z\nend_header\n1 2 3\n4 5 66\n";
    let w = o(&[[1.0, 2.0, 3.0], [4.0, 5.0, 66.0]]);
    add("ply points only", &[Kind::PlyPoints, Kind::PlyEither], t(pa), true, vec![w.clone(), w], vec![pa.len() - 1]);
    // STL
    let tris = [[[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], [[1.0, 0.0, 0.0], [0.0, 1.5, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, -1.0]]];
    let trif: Vec<[[f32; 3]; 4]> = tris.iter().map(|t| t.map(|p: [f64; 3]| p.map(|x| x as f32))).collect();
    let items: Vec<Item> = tris.iter().map(|t| Item::T([b3(t[0]), b3(t[1]), b3(t[2]), b3(t[3])])).collect();
    let a = enc_stl_ascii(&tris);
    let nl = a.as_slice().iter().len();
    for (name, d, fm, text) in [("stl ascii", a, Fm::Ascii, true), ("stl binary", enc_stl_binary(&[b'h'; 80], &trif, 0x1234), Fm::Binary, false)] {
        let ks = [Kind::StlDuped(fm), Kind::StlUnique(fm), Kind::StlTriplets(fm), Kind::StlDuped(Fm::Auto), Kind::StlUnique(Fm::Auto), Kind::StlTriplets(Fm::Auto)];
        let want = ks.iter().map(|k| assemble(*k, &items).unwrap()).collect();
        let n = d.as_slice().iter().len();
        let complete = if text {
            let s = String::from_utf8(d.clone()).unwrap();
            let first = s.find("endfacet").unwrap() + 9;
            vec![11, first, nl - "endsolid test\n".len()]
        } else {
            vec![n]
        };
        add(name, &ks, d, text, want, complete);
    }
    c
}

// ---------------------------------------------------------------- savers
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Save {
    Xy,
    Xyz,
    PlyAscii,
    PlyAsciiColored,
    PlyBinary(bool),
    PlyBinaryColored(bool),
    StlAscii,
}
pub const SAVES: [Save; 9] = [
    Save::Xy,
    Save::Xyz,
    Save::PlyAscii,
    Save::PlyAsciiColored,
    Save::PlyBinary(false),
    Save::PlyBinary(true),
    Save::PlyBinaryColored(false),
    Save::PlyBinaryColored(true),
    Save::StlAscii,
];
pub fn build_mesh(pts: &[[f64; 3]], faces: &[[usize; 3]]) -> M {
    let mut m = M::default();
    for p in pts {
        m.add_vertex(Point3D::new(p[0], p[1], p[2]));
    }
    for f in faces {
        m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).unwrap();
    }
    m
}
pub fn colors(n: usize) -> Vec<Rgb> {
    // values that look like separators, line ends and signs in binary files
    (0..n).map(|i| Rgb::new([0, 10, 13, 32, 255, 128, 45][i % 7], [255, 32, 0, 10][i % 4], [10, 13, 255][i % 3])).collect()
}
fn prec(b: bool) -> Precision {
    if b {
        Precision::P64
    } else {
        Precision::P32
    }
}
pub fn save<W: Write>(s: Save, m: &M, w: &mut W) -> R {
    let n = m.num_vertices();
    let pts = || (0..n).map(|i| m.vertex(VId(i)).unwrap()).collect::<Vec<Point3D>>();
    let col = colors(n);
    match s {
        Save::Xy => {
            let v: Vec<Point2D> = pts().as_slice().iter().map(|p| Point2D::new(p.x, p.y)).collect();
            save_xy(w, &v, " ", "\n").map_err(e)
        }
        Save::Xyz => save_xyz(w, &pts(), ";", "\n").map_err(e),
        Save::PlyAscii => save_ply_ascii(w, m).map_err(e),
        Save::PlyAsciiColored => save_ply_ascii_colored(w, m, &col).map_err(e),
        Save::PlyBinary(p) => save_ply_binary(w, m, &prec(p)).map_err(e),
        Save::PlyBinaryColored(p) => save_ply_binary_colored(w, m, &prec(p), &col).map_err(e),
        Save::StlAscii => save_stl_ascii(w, m).map_err(e),
    }
}

// ---------------------------------------------------------------- odd characters
/// what a word of a text file has to be
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Must {
    Float,
    Count,
    /// exactly this word
    Exact,
    /// starts with exactly this word (what follows is not looked at)
    Keyword,
    /// a float behind the first character
    Axis,
}
fn reading(w: &str, m: Must, orig: &str) -> Option<String> {
    match m {
        Must::Float => w.parse::<f64>().ok().map(|x| format!("{:?}", x)),
        Must::Count => w.parse::<usize>().ok().map(|x| x.to_string()),
        Must::Exact => (w == orig).then(|| w.to_string()),
        Must::Keyword => w.starts_with(orig).then(|| orig.to_string()),
        Must::Axis => w[1..].parse::<f64>().ok().map(|x| format!("{}{:?}", &w[..1], x)),
    }
}
/// Every printable character (and some others) in front of, within, behind and instead of each word (line, word) of a text file:
/// the file is rejected, or read as if the number was written plainly if it still is one
pub fn odd_words(c: &mut Ctx, k: Kind, text: &str, words: &[(usize, usize, Must)], skip: &str) {
    let mut chars: Vec<String> = (33u8..127).map(|b| (b as char).to_string()).filter(|x| !skip.contains(x.as_str())).collect();
    chars.extend(["\u{e9}", "\u{b2}", "\u{ff11}", "\u{feff}", "\0", "\u{7f}", "\u{1b}"].iter().map(|x| x.to_string()));
    if !skip.contains('/') {
        chars.push("//".to_string());
    }
    // numbers written with ever more digits
    for (line, word, must) in words {
        if !matches!(must, Must::Float | Must::Axis) {
            continue;
        }
        for n in (0..c.q(300usize, 3000)).chain([1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 70000]) {
            for how in 0..3 {
                c.state(&(k, text, line, word, n, how));
                c.case(
                    || format!("{:?} {:?} line {} word {} with {} more digits {}", k, text, line, word, n, ["in front", "behind", "of a fraction"][how]),
                    |c| {
                        let lines: Vec<Vec<&str>> = text.split_terminator('\n').map(|l| l.split(' ').collect()).collect();
                        let orig = lines[*line][*word];
                        let (axis, num) = orig.split_at(if *must == Must::Axis { 1 } else { 0 });
                        let (sign, num) = num.split_at(if num.starts_with('-') { 1 } else { 0 });
                        let (man, exp) = num.split_at(num.find(|x| x == 'e' || x == 'E').unwrap_or(num.len()));
                        let digits = |d: &str| d.repeat(n);
                        let dot = if man.contains('.') { "" } else { "." };
                        let new = match how {
                            0 => format!("{}{}{}{}{}", axis, sign, digits("0"), man, exp),
                            1 => format!("{}{}{}{}{}{}", axis, sign, man, dot, digits("0"), exp),
                            _ => format!("{}{}{}{}{}{}", axis, sign, man, dot, digits("3"), exp),
                        };
                        let with = |w: &str| -> String {
                            let mut l = lines.clone();
                            l[*line][*word] = w;
                            l.iter().map(|l| l.join(" ") + "\n").collect()
                        };
                        let plain = reading(&new, *must, orig).unwrap();
                        c.trans(1);
                        match (load_bytes(k, with(&new).as_bytes()), load_bytes(k, with(&plain).as_bytes())) {
                            (Ok(a), Ok(b)) if a == b => Ok(()),
                            (a, b) => Err(format!("read (ok {}) differently from {:?} (ok {})", a.is_ok(), plain, b.is_ok())),
                        }
                    },
                );
                if c.stopped() {
                    return;
                }
            }
        }
    }
    // lines of blanks: as if nothing was on them
    // (the first line of an STL file is its name)
    for line in if text.starts_with("solid") { 1 } else { 0 }..=text.matches('\n').count() {
        for n in (1..c.q(140usize, 1100)).chain([255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536]) {
            for pad in [" ", "\t", "\t ", "\r"] {
                c.state(&(k, text, line, n, pad, "blank line"));
                c.case(
                    || format!("{:?} {:?} in front of line {} one of {} times {:?}", k, text, line, n, pad),
                    |c| {
                        let with = |n: usize| -> String {
                            let mut ls: Vec<String> = text.split_terminator('\n').map(|x| x.to_string()).collect();
                            ls.insert(line, pad.repeat(n));
                            ls.join("\n") + "\n"
                        };
                        c.trans(1);
                        match (load_bytes(k, with(n).as_bytes()), load_bytes(k, with(0).as_bytes())) {
                            (Ok(a), Ok(b)) if a == b => Ok(()),
                            (Err(_), Err(_)) => Ok(()),
                            (a, b) => Err(format!("read (ok {}) differently from an empty one (ok {})", a.is_ok(), b.is_ok())),
                        }
                    },
                );
                if c.stopped() {
                    return;
                }
            }
        }
    }
    // any number of blanks behind a line, and in front of a line and its words: as many as one
    let mut at: Vec<(usize, Option<usize>)> = words.iter().map(|(l, w, _)| (*l, Some(*w))).collect();
    at.extend((0..text.matches('\n').count()).map(|l| (l, None)));
    for (line, word) in at {
        for n in (2..c.q(140usize, 1100)).chain([255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536]) {
            for pad in [" ", "\t", "\t "] {
                c.state(&(k, text, line, word, n, pad, "blanks"));
                c.case(
                    || format!("{:?} {:?} line {} {:?} times {} {:?}", k, text, line, word, n, pad),
                    |c| {
                        let with = |n: usize| -> String {
                            let mut s = String::new();
                            for (i, l) in text.split_terminator('\n').enumerate() {
                                for (j, w) in l.split(' ').enumerate() {
                                    if j > 0 {
                                        s += " "
                                    }
                                    if i == line && word == Some(j) {
                                        s += &pad.repeat(n)
                                    }
                                    s += w
                                }
                                if i == line && word.is_none() {
                                    s += &pad.repeat(n)
                                }
                                s += "\n"
                            }
                            s
                        };
                        let few = if word.is_none() { 0 } else { 1 };
                        c.trans(1);
                        match (load_bytes(k, with(n).as_bytes()), load_bytes(k, with(few).as_bytes())) {
                            (Ok(a), Ok(b)) if a == b => Ok(()),
                            (Err(_), Err(_)) => Ok(()),
                            (a, b) => Err(format!("read (ok {}) differently from {} (ok {})", a.is_ok(), few, b.is_ok())),
                        }
                    },
                );
                if c.stopped() {
                    return;
                }
            }
        }
    }
    for (line, word, must) in words {
        for ch in &chars {
            for how in 0..4 {
                c.state(&(k, text, line, word, ch, how));
                c.case(
                    || format!("{:?} {:?} line {} word {} with {:?} {}", k, text, line, word, ch, ["in front", "behind", "instead", "within"][how]),
                    |c| {
                        let lines: Vec<Vec<&str>> = text.split_terminator('\n').map(|l| l.split(' ').collect()).collect();
                        let orig = lines[*line][*word];
                        let keep = if *must == Must::Axis { 1 } else { 0 };
                        let new = match how {
                            0 => format!("{}{}{}", &orig[..keep], ch, &orig[keep..]),
                            1 => format!("{}{}", orig, ch),
                            2 => format!("{}{}", &orig[..keep], ch),
                            _ => format!("{}{}{}", &orig[..keep + 1], ch, &orig[keep + 1..]),
                        };
                        let with = |w: &str| -> String {
                            let mut l = lines.clone();
                            l[*line][*word] = w;
                            l.iter().map(|l| l.join(" ") + "\n").collect()
                        };
                        c.trans(1);
                        let got = load_bytes(k, with(&new).as_bytes());
                        match reading(&new, *must, orig) {
                            None => match got {
                                Err(_) => Ok(()),
                                Ok(o) => Err(format!("{:?} is read as {:?}", new, o)),
                            },
                            Some(plain) => match (got, load_bytes(k, with(&plain).as_bytes())) {
                                (Ok(a), Ok(b)) if a == b => Ok(()),
                                (Err(_), Err(_)) => Ok(()),
                                (Err(_), _) if *must == Must::Keyword => Ok(()),
                                (a, b) => Err(format!("{:?} is read (ok {}) differently from {:?} (ok {})", new, a.is_ok(), plain, b.is_ok())),
                            },
                        }
                    },
                );
                if c.stopped() {
                    return;
                }
            }
        }
    }
}
