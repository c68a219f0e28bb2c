//! C20: PSL and LAS files give one point per record, whatever the layout of the file.
use mc::io::*;
use mc::*;
use rust_3d::Point3D;
use std::io::{BufRead, Read, Seek, SeekFrom};
use std::rc::Rc;

fn coord(i: usize) -> [f32; 3] {
    [i as f32, 0.5 * (i % 3) as f32 - 1.0, [2.0, -4.0, 1024.5, 0.0, -1e-30, f32::MAX, f32::MIN_POSITIVE][i % 7]]
}
fn near(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 4.0 * f64::EPSILON * scale
}
/// tol: allowed error of each coordinate (0: exact)
fn expect(c: &mut Ctx, k: Kind, key: impl Fn() -> String, d: Vec<u8>, want: &[[f64; 3]], tol: &[f64]) {
    let d = Rc::new(d);
    c.case(
        || format!("{:?} {}", k, key()),
        |c| {
            c.state(&(k, &d[..]));
            c.trans(1);
            let check = |o: Out, how: &str| -> R {
                let n = want.len();
                let m = o.pts.as_slice().iter().count();
                ensure!(n == m, "{}: {} points instead of {}", how, m, n);
                for (i, p) in o.pts.as_slice().iter().enumerate() {
                    let p = f3(p);
                    for a in 0..3 {
                        let t = tol.get(a).copied().unwrap_or(0.0);
                        ensure!(near(p[a], want[i][a], t), "{}: point {} is {:?} instead of {:?}", how, i, p, want[i])
                    }
                }
                Ok(())
            };
            check(load(k, Src::new(&d, Plan::Whole))?, "loaded")?;
            let it: Vec<Item> = match stream(k, Src::new(&d, Plan::Piece(5))) {
                Some(Ok(i)) => i.collect::<std::result::Result<Vec<_>, _>>()?,
                Some(Err(e)) => return Err(e),
                None => return Err("no stream".into()),
            };
            check(assemble(k, &it)?, "streamed")
        },
    );
}
fn reject(c: &mut Ctx, k: Kind, key: impl Fn() -> String, d: Vec<u8>) {
    let d = Rc::new(d);
    c.case(
        || format!("{:?} {}", k, key()),
        |c| {
            c.state(&(k, &d[..]));
            c.trans(1);
            match load(k, Src::new(&d, Plan::Whole)) {
                Err(_) => Ok(()),
                Ok(o) => Err(format!("accepted as {:?}", o)),
            }
        },
    );
}
// ---------------------------------------------------------------- psl
fn psl(passes: &[Vec<usize>]) -> (Vec<u8>, Vec<[f64; 3]>) {
    let mut i = 0;
    let mut want = vec![];
    let v: Vec<Vec<Vec<[f32; 3]>>> = passes
        .iter()
        .map(|p| {
            p.as_slice()
                .iter()
                .map(|k| {
                    (0..*k)
                        .map(|_| {
                            let q = coord(i);
                            i += 1;
                            want.push([q[0] as f64, q[1] as f64, q[2] as f64]);
                            q
                        })
                        .collect()
                })
                .collect()
        })
        .collect();
    (enc_psl(&v), want)
}
/// all shapes of a pass: up to `lines` lines of up to `points` points
fn shapes(lines: usize, points: usize) -> Vec<Vec<usize>> {
    let mut v = vec![];
    for n in 0..=lines {
        tuples(points + 1, n, |t| {
            v.push(t.to_vec());
            true
        });
    }
    v
}
fn psl_structures(c: &mut Ctx) {
    for (passes, lines, points) in [(1, 5, 3), (2, 3, c.q(2, 3)), (3, 2, c.q(2, 3)), (4, 2, c.q(0, 1)), (5, 1, c.q(2, 3))] {
        let s = shapes(lines, points);
        for n in 0..=passes {
            tuples(s.as_slice().iter().count(), n, |t| {
                let p: Vec<Vec<usize>> = t.iter().map(|i| s[*i].clone()).collect();
                let (d, w) = psl(&p);
                expect(c, Kind::Psl, || format!("points per line {:?}", p), d.clone(), &w, &[]);
                if n < 3 {
                    let mut e = d;
                    e.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7]);
                    expect(c, Kind::Psl, || format!("points per line {:?}, with bytes behind", p), e, &w, &[]);
                }
                !c.stopped()
            });
        }
    }
}
fn psl_reserved(c: &mut Ctx) {
    // nothing but the counts and the points is interpreted: every other byte may have every value
    let (d, w) = psl(&[vec![1, 2], vec![], vec![0, 1]]);
    let mut free = vec![];
    for i in 0..136 {
        free.push(i)
    }
    for i in 140..512 {
        free.push(i)
    }
    // pass header, line header, point, line header, ...
    free.extend(516..576);
    free.extend(580..640);
    for i in free {
        for b in [0u8, 1, 2, 10, 127, 128, 255] {
            let mut e = d.clone();
            e[i] = b;
            expect(c, Kind::Psl, || format!("byte {} is {}", i, b), e, &w, &[]);
        }
    }
    for n in 0..d.as_slice().iter().len() {
        reject(c, Kind::Psl, || format!("cut after {} bytes", n), d.as_slice()[..n].to_vec());
    }
}
fn psl_sizes(c: &mut Ctx) {
    for n in (0..c.q(300usize, 1500)).chain([1025, 4097, HUGE]) {
        for p in [vec![vec![n]], vec![vec![1; n]], vec![vec![2]; n], vec![vec![n, 0, n], vec![], vec![n]]] {
            let (d, w) = psl(&p);
            expect(c, Kind::Psl, || format!("{} passes, {:?} ...", p.as_slice().iter().count(), p.as_slice().iter().next().map(|x| x.as_slice().iter().take(3).cloned().collect::<Vec<_>>())), d, &w, &[]);
        }
    }
}
// ---------------------------------------------------------------- las
const MIN: [u16; 11] = [20, 28, 26, 34, 57, 63, 30, 36, 38, 59, 67];
fn header_size(minor: u8) -> u16 {
    match minor {
        4 => 375,
        3 => 235,
        _ => 227,
    }
}
fn recs(n: usize) -> Vec<[i32; 3]> {
    (0..n).map(|i| [i as i32 + 1, [0, -7, i32::MAX, i32::MIN, 0x0a0d0a0d][i % 5], [1 << 20, -1, 255, 256][i % 4] + i as i32]).collect()
}
fn las(c: &mut Ctx, f: LasFile, what: &dyn Fn() -> String) {
    let mut want = vec![];
    let mut tol = vec![0.0; 3];
    for r in f.recs.as_slice().iter() {
        let mut p = [0.0; 3];
        for a in 0..3 {
            p[a] = f.offset[a] + r[a] as f64 * f.scale[a];
            let t: f64 = f.offset[a].abs() + (r[a] as f64 * f.scale[a]).abs();
            tol[a] = f64::max(tol[a], t)
        }
        want.push(p)
    }
    let key = || format!("1.{} header {} gap {} format {} record {} counts {}/{} scale {:?} offset {:?} fill {}: {}", f.minor, f.header_size, f.gap, f.format, f.record, f.legacy_count, f.count, f.scale, f.offset, f.fill, what());
    expect(c, Kind::Las, key, f.bytes(), &want, &tol)
}
/// how the count is given
fn count(f: &mut LasFile, n: usize, mode: usize) {
    match mode {
        0 => f.legacy_count = n as u32,
        1 => f.count = n as u64,
        _ => {
            f.legacy_count = n as u32;
            f.count = n as u64
        }
    }
}
fn las_layouts(c: &mut Ctx) {
    for minor in 0..=4u8 {
        for format in 0..=10u8 {
            for more in 0..c.q(12, 60) {
                let record = MIN[format as usize] + more;
                for hs in [0u16, 1, 25, 148, 200] {
                    for gap in [0usize, 1, 54, 148, 400] {
                        for n in [0usize, 1, 2, 5] {
                            for mode in 0..3 {
                                if mode > 0 && minor < 4 {
                                    continue;
                                }
                                for fill in [0u8, 1, 255] {
                                    if more > 3 && (fill == 1 || gap > 1 || hs > 1) {
                                        continue;
                                    }
                                    let mut f = LasFile { minor, header_size: header_size(minor) + hs, gap, format, record, recs: recs(n), fill, ..Default::default() };
                                    count(&mut f, n, mode);
                                    las(c, f, &|| String::new());
                                }
                            }
                        }
                    }
                }
            }
            if c.stopped() {
                return;
            }
        }
    }
    // every record length
    for record in 12..=c.q(1200u16, 12000) {
        let mut f = LasFile { record, recs: recs(3), fill: 0x5a, ..Default::default() };
        count(&mut f, 3, 2);
        las(c, f, &|| String::new());
    }
    for record in [32767u16, 32768, 40000, 65534, 65535] {
        let mut f = LasFile { record, recs: recs(3), fill: 0x5a, ..Default::default() };
        count(&mut f, 3, 1);
        las(c, f, &|| String::new());
    }
}
fn las_counts(c: &mut Ctx) {
    for n in (0..c.q(700usize, 5000)).chain([1025, 4097, HUGE]) {
        for mode in 0..3 {
            let mut f = LasFile { record: 28, format: 1, recs: recs(n), fill: 3, scale: [0.5, 0.25, 2.0], offset: [1.0, -2.0, 1e6], ..Default::default() };
            count(&mut f, n, mode);
            // more records than declared are not part of the file
            if n % 2 == 1 {
                let all = f.bytes();
                let mut d = all.clone();
                d.extend_from_slice(&[9; 28]);
                let w: Vec<[f64; 3]> = f.recs.as_slice().iter().map(|r| [1.0 + r[0] as f64 * 0.5, -2.0 + r[1] as f64 * 0.25, 1e6 + r[2] as f64 * 2.0]).collect();
                expect(c, Kind::Las, || format!("{} records and more behind, mode {}", n, mode), d, &w, &[]);
            }
            las(c, f, &|| String::new());
        }
    }
}
/// every combination of scales, offsets and extreme raw values per axis
fn las_values(c: &mut Ctx) {
    let scale = [1.0, 0.01, 0.001, -2.0, 1e-7, 0.5, 1e9];
    let offset = [0.0, 1.0, -500000.25, 1e12, 0.1, -1e-9];
    let raw = [0, 1, -1, 123456789, i32::MAX, i32::MIN, -98765, 256, 65536];
    for (i, s) in scale.iter().enumerate() {
        for (j, o) in offset.iter().enumerate() {
            for a in 0..3 {
                // this axis differs from both others
                for x in 0..scale.len() {
                    for y in 0..offset.len() {
                        let mut sc = [scale[x]; 3];
                        let mut of = [offset[y]; 3];
                        sc[a] = *s;
                        of[a] = *o;
                        sc[(a + 1) % 3] = scale[(x + i) % 7];
                        of[(a + 1) % 3] = offset[(y + j) % 6];
                        let r: Vec<[i32; 3]> = (0..9).map(|k| [raw[k], raw[(k + 2 + i) % 9], raw[(k * 2 + j) % 9]]).collect();
                        let mut f = LasFile { scale: sc, offset: of, recs: r, record: 20 + (i as u16) * 3, fill: 7, ..Default::default() };
                        count(&mut f, 9, (i + j) % 3);
                        las(c, f, &|| String::new());
                    }
                }
            }
        }
    }
    // each byte of a raw value
    for b in 0..12 {
        for v in 0..=255u8 {
            let mut f = LasFile { recs: vec![[0; 3], [1, 2, 3]], fill: 255, record: 23, ..Default::default() };
            count(&mut f, 2, 2);
            let mut w = f.recs[0];
            w[b / 4] = ((v as u32) << (8 * (b % 4))) as i32;
            f.recs[0] = w;
            las(c, f, &|| format!("byte {} = {}", b, v));
        }
    }
}
/// A file that consists of zeros between its header and its tail
struct Sparse {
    head: Vec<u8>,
    tail: Vec<u8>,
    tail_at: u64,
    zeros: Vec<u8>,
    at: u64,
}
impl Sparse {
    fn rest(&self) -> &[u8] {
        let h = self.head.as_slice().iter().count() as u64;
        if self.at < h {
            &self.head[self.at as usize..]
        } else if self.at < self.tail_at {
            &self.zeros[..((self.tail_at - self.at).min(1 << 20)) as usize]
        } else {
            let n = self.tail.as_slice().iter().count() as u64;
            &self.tail[(self.at - self.tail_at).min(n) as usize..]
        }
    }
}
impl Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.rest().iter().count().min(b.iter().count());
        b[..n].copy_from_slice(&self.rest()[..n]);
        self.at += n as u64;
        Ok(n)
    }
}
impl BufRead for Sparse {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        Ok(self.rest())
    }
    fn consume(&mut self, n: usize) {
        self.at += n as u64
    }
}
impl Seek for Sparse {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        let end = self.tail_at + self.tail.as_slice().iter().count() as u64;
        let to = match to {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(x) => self.at as i128 + x as i128,
            SeekFrom::End(x) => end as i128 + x as i128,
        };
        if to < 0 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.at = to as u64;
        Ok(self.at)
    }
}
/// The records start anywhere behind the header, as far as the header can tell
fn las_far(c: &mut Ctx) {
    let n = 3;
    for k in 9..=32u32 {
        for off in [-1i64, 0, 1, 77, 377, 3 << (k - 2)].iter().map(|d| (1i64 << k) + d).filter(|o| *o >= 400 && *o <= u32::MAX as i64) {
            for (record, format) in [(20u16, 0u8), (28, 1), (36, 3), (67, 10)] {
                for mode in 0..3 {
                    c.state(&(off, record, mode));
                    c.case(
                        || format!("records of {} bytes from {}, count {}", record, off, mode),
                        |c| {
                            c.trans(1);
                            let mut f = LasFile { format, record, recs: recs(n), scale: [0.5, 0.25, 2.0], ..Default::default() };
                            count(&mut f, n, mode);
                            let mut head = f.bytes();
                            let tail = head.split_off(375);
                            head[96..100].copy_from_slice(&(off as u32).to_le_bytes());
                            let file = || Sparse { head: head.clone(), tail: tail.clone(), tail_at: off as u64, zeros: vec![0; 1 << 20], at: 0 };
                            let want: Vec<[f64; 3]> = f.recs.as_slice().iter().map(|r| [r[0] as f64 * 0.5, r[1] as f64 * 0.25, r[2] as f64 * 2.0]).collect();
                            let mut pc = rust_3d::PointCloud3D::<Point3D>::new();
                            if let Err(e) = rust_3d::io::load_las(&mut file(), &mut pc) {
                                return Err(format!("rejected: {:?}", e));
                            }
                            let got: Vec<[f64; 3]> = pc.data.as_slice().iter().map(|p| [p.x, p.y, p.z]).collect();
                            ensure!(got == want, "{:?} instead of {:?}", got, want);
                            let mut got = vec![];
                            for i in rust_3d::io::LasIterator::<Point3D, _>::new(file()).map_err(|e| format!("{:?}", e))? {
                                match i {
                                    Ok(rust_3d::io::DataReserve::Data(p)) => got.push([p.x, p.y, p.z]),
                                    Ok(_) => (),
                                    Err(e) => return Err(format!("stream: {:?}", e)),
                                }
                            }
                            ensure!(got == want, "streamed {:?} instead of {:?}", got, want);
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}
/// unsupported files are rejected, and the other parts of the header are not interpreted
fn las_headers(c: &mut Ctx) {
    let base = || {
        let mut f = LasFile { recs: recs(3), record: 21, fill: 4, gap: 6, ..Default::default() };
        count(&mut f, 3, 2);
        f
    };
    let w: Vec<[f64; 3]> = base().recs.as_slice().iter().map(|r| [r[0] as f64, r[1] as f64, r[2] as f64]).collect();
    let d = base().bytes();
    let meant = |i: usize| i < 4 || (24..26).contains(&i) || (94..100).contains(&i) || (104..111).contains(&i) || (131..179).contains(&i) || (247..255).contains(&i);
    for i in 0..381 {
        if !meant(i) {
            for b in [0u8, 1, 2, 10, 127, 128, 255] {
                let mut e = d.clone();
                e[i] = b;
                expect(c, Kind::Las, || format!("header byte {} is {}", i, b), e, &w, &[]);
            }
        }
    }
    for format in 11..=255u8 {
        let mut f = base();
        f.format = format;
        reject(c, Kind::Las, || format!("format {}", format), f.bytes());
    }
    for minor in 5..=255u8 {
        let mut f = base();
        f.minor = minor;
        reject(c, Kind::Las, || format!("version 1.{}", minor), f.bytes());
    }
    for major in 2..=255u8 {
        for minor in 0..=255u8 {
            let mut e = d.clone();
            e[24] = major;
            e[25] = minor;
            reject(c, Kind::Las, || format!("version {}.{}", major, minor), e);
        }
    }
    // fewer records than declared, by far
    for n in 0..6usize {
        for k in 8..64u32 {
            let mut f = base();
            f.recs = recs(n);
            f.legacy_count = 0;
            f.count = (1u64 << k) + n as u64;
            reject(c, Kind::Las, || format!("{} records of {}", n, f.count), f.bytes());
            f.count = (3u64 << (k - 1)) - 1;
            reject(c, Kind::Las, || format!("{} records of {}", n, f.count), f.bytes());
            if k < 32 {
                f.count = 0;
                f.legacy_count = (1u32 << k) + n as u32;
                reject(c, Kind::Las, || format!("{} records of {}, legacy", n, f.legacy_count), f.bytes());
            }
        }
    }
    for record in 0..12 {
        let mut f = base();
        f.record = record;
        reject(c, Kind::Las, || format!("record length {}", record), f.bytes());
    }
    for n in 0..d.as_slice().iter().len() {
        reject(c, Kind::Las, || format!("cut after {} bytes", n), d.as_slice()[..n].to_vec());
    }
}
fn main() {
    mc::main(
        Spec {
            prop: "C20",
            level: "model_checking",
            rule: "a state is one file; all PSL structures up to the stated passes x lines x points, every reserved byte over 7 values, every cut; all LAS versions x record formats x record lengths x header sizes x gaps x count fields, records behind every power of two up to the largest offset the header can hold, all counts, scale/offset/raw value combinations, every byte of the raw values, every unused header byte over 7 values, every unsupported version/format/length, every cut; files written by an independent encoder, read at once and streamed in pieces",
            assumptions: &["LAS coordinates may be off by rounding of offset + raw * scale", "the two LAS point counts do not contradict each other"],
        },
        vec![g("psl structures", psl_structures), g("psl reserved", psl_reserved), g("psl sizes", psl_sizes), g("las layouts", las_layouts), g("las counts", las_counts), g("las values", las_values), g("las far records", las_far), g("las headers", las_headers)],
    )
}
