//! Small explicit exploration engine: exhaustive depth-first exploration of choice sequences (with an
//! optional deviation bound), explicit-state breadth-first search, supervision of the explored code
//! (panic, abort, runaway allocation, non-termination), evidence and replay files.
pub mod io;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;
pub type Res<T> = Result<T, String>;

// ---------------------------------------------------------------- allocation supervision
pub struct Alloc;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
/// One request of this size is treated as resource exhaustion (the process aborts; the supervisor turns it into a verdict).
pub const MAX_SINGLE_ALLOC: usize = 2 << 30;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_SINGLE_ALLOC {
            return std::ptr::null_mut();
        }
        let _ = LIVE.try_with(|c| {
            let v = c.get() + l.size() as isize;
            c.set(v);
            let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
        });
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as isize));
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: Alloc = Alloc;

/// Runs f and returns the growth of live memory at its peak in bytes.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - base).max(0) as usize)
}

// ---------------------------------------------------------------- hashing
#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
}
pub type U64Set = HashSet<u64, BuildHasherDefault<IdHasher>>;
pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- context of one group of executions
#[derive(Clone, Debug)]
pub struct Violation {
    pub group: String,
    pub case: u64,
    pub key: String,
    pub msg: String,
    pub known: Option<String>,
}
#[derive(Clone, Debug)]
pub struct Known {
    pub group: String,
    pub key: String,
    pub text: String,
}
pub struct Ctx {
    pub prop: String,
    pub group: String,
    pub tier: String,
    pub seed: u64,
    pub states: U64Set,
    pub transitions: u64,
    pub traces: u64,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    known: Vec<Known>,
    counter: u64,
    slot: Option<(std::fs::File, u64)>,
    only: Option<u64>,
    stop: bool,
    /// this group runs only the cases whose number is part.0 modulo part.1
    part: (u64, u64),
    in_case: bool,
}
thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
impl Ctx {
    /// whether a structured input of n elements is explored: quick runs all sizes up to 300, and 1025 and 4097 up to the given limit
    pub fn size(&self, n: usize, quick_limit: usize) -> bool {
        n <= quick_limit && [1025, 4097, HUGE].contains(&n) || n <= 300 || self.thorough() && n < HUGE
    }
    fn mine(&self, id: u64) -> bool {
        id % self.part.1 == self.part.0
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// a if quick, b if thorough
    pub fn q<T>(&self, a: T, b: T) -> T {
        if self.thorough() {
            b
        } else {
            a
        }
    }
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) -> bool {
        if !self.in_case && !self.mine(self.counter + 1) {
            return false;
        }
        self.states.insert(h64(t))
    }
    pub fn trans(&mut self, n: usize) {
        self.transitions += n as u64
    }
    pub fn note(&mut self, k: &str, n: u64) {
        *self.notes.entry(k.to_string()).or_insert(0) += n
    }
    pub fn stopped(&self) -> bool {
        self.stop
    }
    /// Executes one case of the bounded space against the implementation. `key` describes the input/history (it is the replay).
    pub fn case<K: Fn() -> String, F: FnOnce(&mut Ctx) -> R>(&mut self, key: K, f: F) -> bool {
        if self.stop {
            return false;
        }
        self.counter += 1;
        let id = self.counter;
        if !self.mine(id) {
            return true;
        }
        if let Some(only) = self.only {
            if only != id {
                return true;
            }
            println!("CASE group={} case={} input={}", self.group, id, key());
            let _ = std::io::stdout().flush();
        }
        if let Some((file, off)) = &self.slot {
            let _ = file.write_at(&id.to_le_bytes(), *off);
        }
        self.in_case = true;
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        self.in_case = false;
        self.traces += 1;
        if self.samples.len() < 3 || (self.samples.len() < 8 && id.is_power_of_two()) {
            let mut s = format!("{}: {}", self.group, key());
            if s.len() > 300 {
                let mut e = 300;
                while !s.is_char_boundary(e) {
                    e -= 1
                }
                s.truncate(e)
            }
            self.samples.push(s);
        }
        let msg = match r {
            Ok(Ok(())) => return true,
            Ok(Err(m)) => m,
            Err(_) => format!("panic: {}", PANIC.with(|p| p.borrow().clone())),
        };
        let key = key();
        let known = self
            .known
            .iter()
            .find(|k| k.group == self.group && k.key == key)
            .map(|k| k.text.clone());
        if known.is_none() && self.violations.iter().filter(|v| v.known.is_none()).count() >= 9 {
            self.stop = true;
        }
        self.violations.push(Violation { group: self.group.clone(), case: id, key, msg, known });
        false
    }
}

// ---------------------------------------------------------------- stateless exploration of choice sequences
/// Answers the nondeterministic choices of one execution.
pub struct Ch {
    pub trace: Vec<(u32, u32, bool)>,
    prefix: usize,
    pos: usize,
    dev_left: usize,
}
impl Ch {
    fn answer(&mut self, n: usize, dev: bool) -> usize {
        assert!(n > 0);
        let c = if self.pos < self.prefix {
            let (c, m, d) = self.trace[self.pos];
            assert!(m as usize == n && d == dev, "replay diverged: the harness does not own all nondeterminism");
            c
        } else {
            self.trace.push((0, n as u32, dev));
            0
        };
        if dev && c > 0 {
            self.dev_left -= 1;
        }
        self.pos += 1;
        c as usize
    }
    /// free choice in 0..n
    pub fn pick(&mut self, n: usize) -> usize {
        self.answer(n, false)
    }
    /// environment answer in 0..n where every answer but 0 is a deviation that counts against the bound
    pub fn dev(&mut self, n: usize) -> usize {
        if self.dev_left == 0 && self.pos >= self.prefix {
            return self.answer(1, false);
        }
        if self.pos < self.prefix && self.trace[self.pos].1 == 1 && !self.trace[self.pos].2 {
            return self.answer(1, false);
        }
        self.answer(n, true)
    }
    pub fn choices(&self) -> Vec<u32> {
        self.trace.iter().map(|x| x.0).collect()
    }
}
/// Enumerates every execution of `f`: all answers of `pick`, and all answers of `dev` with at most `bound` deviations.
pub fn explore(bound: usize, mut f: impl FnMut(&mut Ch) -> bool) -> u64 {
    let mut trace: Vec<(u32, u32, bool)> = Vec::new();
    let mut n = 0;
    loop {
        let prefix = trace.len();
        let mut ch = Ch { trace, prefix, pos: 0, dev_left: bound };
        n += 1;
        let go_on = f(&mut ch);
        trace = ch.trace;
        if !go_on {
            return n;
        }
        trace.truncate(ch.pos.max(prefix));
        // backtrack
        loop {
            match trace.pop() {
                None => return n,
                Some((c, m, d)) => {
                    if c + 1 < m {
                        if d && c == 0 {
                            let used = trace.iter().filter(|x| x.2 && x.0 > 0).count();
                            if used >= bound {
                                continue;
                            }
                        }
                        trace.push((c + 1, m, d));
                        break;
                    }
                }
            }
        }
    }
}
/// All tuples of length `len` over 0..n, simplest first. Stops when f returns false.
/// a deque whose storage wraps around behind its first k elements
pub fn wrapped<T: Clone>(v: &[T], k: usize) -> VecDeque<T> {
    let k = k.min(v.len());
    let mut d: VecDeque<T> = VecDeque::with_capacity(v.len());
    for x in &v[k..] {
        d.push_back(x.clone())
    }
    for x in v[..k].iter().rev() {
        d.push_front(x.clone())
    }
    d
}
pub fn tuples(n: usize, len: usize, mut f: impl FnMut(&[usize]) -> bool) {
    let mut t = vec![0; len];
    if n == 0 && len > 0 {
        return;
    }
    loop {
        if !f(&t) {
            return;
        }
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            t[i] += 1;
            if t[i] < n {
                break;
            }
            t[i] = 0;
        }
    }
}
/// All non-decreasing tuples (multisets).
pub fn multisets(n: usize, len: usize, mut f: impl FnMut(&[usize]) -> bool) {
    let mut t = vec![0; len];
    if n == 0 && len > 0 {
        return;
    }
    loop {
        if !f(&t) {
            return;
        }
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            if t[i] + 1 < n {
                let v = t[i] + 1;
                for x in t[i..].iter_mut() {
                    *x = v
                }
                break;
            }
        }
    }
}
/// All permutations of 0..n
pub fn permutations(n: usize, mut f: impl FnMut(&[usize]) -> bool) {
    fn rec(p: &mut Vec<usize>, used: &mut Vec<bool>, n: usize, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
        if p.len() == n {
            return f(p);
        }
        for i in 0..n {
            if !used[i] {
                used[i] = true;
                p.push(i);
                if !rec(p, used, n, f) {
                    return false;
                }
                p.pop();
                used[i] = false;
            }
        }
        true
    }
    rec(&mut vec![], &mut vec![false; n], n, &mut f);
}

// ---------------------------------------------------------------- explicit-state search
/// Breadth-first search over pairs (implementation state, model state) in `S`. `step` executes an action on the real
/// implementation, compares it with the model and returns the successor. States are merged by `canon`.
pub fn bfs<S: Clone, A: Clone + std::fmt::Debug, K: Hash + Eq>(
    ctx: &mut Ctx,
    init: Vec<(String, S)>,
    max_depth: usize,
    actions: impl Fn(&S) -> Vec<A>,
    step: impl Fn(&mut S, &A) -> R,
    canon: impl Fn(&S) -> K,
) {
    let mut seen: U64Set = Default::default();
    let mut queue: VecDeque<(S, String, usize)> = VecDeque::new();
    for (n, s) in init {
        let k = h64(&(&ctx.group, canon(&s)));
        seen.insert(k);
        ctx.states.insert(k);
        queue.push_back((s, n, 0));
    }
    let mut complete_depth = max_depth;
    while let Some((s, hist, depth)) = queue.pop_front() {
        if depth == max_depth {
            continue;
        }
        for a in actions(&s) {
            let mut next = None;
            ctx.transitions += 1;
            let ok = ctx.case(
                || format!("{} {:?}", hist, a),
                |_| {
                    let mut n = s.clone();
                    step(&mut n, &a)?;
                    next = Some(n);
                    Ok(())
                },
            );
            if ctx.stopped() {
                complete_depth = complete_depth.min(depth);
                return;
            }
            if ok {
                if let Some(n) = next {
                    let k = h64(&(&ctx.group, canon(&n)));
                    if seen.insert(k) {
                        ctx.states.insert(k);
                        queue.push_back((n, format!("{} {:?}", hist, a), depth + 1));
                    }
                }
            }
        }
    }
    ctx.note("max_bfs_depth", 0);
    let e = ctx.notes.entry("max_bfs_depth".into()).or_insert(0);
    *e = (*e).max(complete_depth as u64);
}

// ---------------------------------------------------------------- driver
pub struct Group {
    pub name: String,
    pub f: std::sync::Arc<dyn Fn(&mut Ctx) + Send + Sync>,
    pub part: (u64, u64),
}
pub fn g(name: impl Into<String>, f: impl Fn(&mut Ctx) + Send + Sync + 'static) -> Group {
    Group { name: name.into(), f: std::sync::Arc::new(f), part: (0, 1) }
}
/// one group whose cases are shared by `parts` workers (they start first); only for groups whose cases do not depend on each other
pub fn parts(name: impl Into<String>, parts: u64, f: impl Fn(&mut Ctx) + Send + Sync + 'static) -> Vec<Group> {
    let name = name.into();
    let f: std::sync::Arc<dyn Fn(&mut Ctx) + Send + Sync> = std::sync::Arc::new(f);
    (0..parts).map(|k| Group { name: if parts == 1 { name.clone() } else { format!("{} part {}", name, k + 1) }, f: f.clone(), part: (k, parts) }).collect()
}
pub struct Spec {
    pub prop: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()))
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn load_known(prop: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in t.lines() {
            // known<TAB>property<TAB>group<TAB>key<TAB>text
            let w: Vec<&str> = l.splitn(5, '\t').collect();
            if w.len() == 5 && w[0] == "known" && w[1] == prop {
                v.push(Known { group: w[2].into(), key: w[3].into(), text: w[4].into() });
            }
        }
    }
    v
}
const SLOT: u64 = 16;

pub fn main(spec: Spec, groups: Vec<Group>) {
    let args: Vec<String> = std::env::args().collect();
    let tier = args.get(1).cloned().unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if std::env::var("MC_CHILD").is_ok() {
        child(&spec, groups, &tier, seed);
    } else {
        supervise(&spec, &groups, &tier, seed);
    }
}

fn child(spec: &Spec, groups: Vec<Group>, tier: &str, seed: u64) -> ! {
    let start = Instant::now();
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{}{}", m, l));
        if std::env::var("MC_SHOW_PANICS").is_ok() {
            eprintln!("{}{}", m, l);
        }
    }));
    let slot_path = std::env::var("MC_SLOTS").ok();
    // MC_ONLY=group index:case number
    let only: Option<(usize, u64)> = std::env::var("MC_ONLY").ok().map(|s| {
        let (a, b) = s.split_once(':').expect("MC_ONLY=group:case");
        (a.parse().unwrap(), b.parse().unwrap())
    });
    let filter = std::env::var("MC_GROUP").ok();
    let known = load_known(spec.prop);
    let n = groups.len();
    let next = AtomicUsize::new(0);
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| std::cmp::Reverse(groups[*i].part.1));
    let done: Mutex<Vec<Option<Ctx>>> = Mutex::new((0..n).map(|_| None).collect());
    let workers = std::env::var("MC_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize).min(n.max(1));
    std::thread::scope(|s| {
        for _ in 0..workers {
            let body = || loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= n {
                    break;
                }
                let i = order[i];
                if let Some((gi, _)) = only {
                    if gi != i {
                        continue;
                    }
                }
                if let Some(f) = &filter {
                    if !groups[i].name.contains(f.as_str()) {
                        continue;
                    }
                }
                let slot = slot_path.as_ref().map(|p| {
                    (std::fs::OpenOptions::new().read(true).write(true).open(p).expect("slot file"), i as u64 * SLOT)
                });
                if let Some((f, o)) = &slot {
                    let _ = f.write_at(&1u64.to_le_bytes(), o + 8);
                }
                let mut ctx = Ctx {
                    prop: spec.prop.into(),
                    group: groups[i].name.clone(),
                    tier: tier.into(),
                    seed,
                    states: Default::default(),
                    transitions: 0,
                    traces: 0,
                    samples: vec![],
                    notes: Default::default(),
                    violations: vec![],
                    known: known.clone(),
                    counter: 0,
                    slot,
                    only: only.map(|x| x.1),
                    stop: false,
                    part: groups[i].part,
                    in_case: false,
                };
                let t0 = Instant::now();
                // code under test that is run outside of any case (to build inputs) must not panic either
                if catch_unwind(AssertUnwindSafe(|| (groups[i].f)(&mut ctx))).is_err() {
                    let msg = PANIC.with(|p| p.borrow().clone());
                    let v = Violation { group: ctx.group.clone(), case: ctx.counter, key: format!("building the inputs after case {}", ctx.counter), msg: format!("panicked: {}", msg), known: None };
                    ctx.violations.push(v);
                }
                if std::env::var("MC_VERBOSE").is_ok() {
                    eprintln!(
                        "{:30} traces={} states={} transitions={} {:.2}s {:?}",
                        ctx.group,
                        ctx.traces,
                        ctx.states.len(),
                        ctx.transitions,
                        t0.elapsed().as_secs_f64(),
                        ctx.notes
                    );
                }
                if let Some((f, o)) = &ctx.slot {
                    let _ = f.write_at(&2u64.to_le_bytes(), o + 8);
                }
                done.lock().unwrap()[i] = Some(ctx);
            };
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, body).unwrap();
        }
    });
    let ctxs = done.into_inner().unwrap();
    if only.is_some() {
        let mut bad = false;
        for c in ctxs.iter().flatten() {
            for v in &c.violations {
                println!("FAILED group={} case={} input={}\n  {}", v.group, v.case, v.key, v.msg);
                bad = true;
            }
        }
        std::process::exit(if bad { 1 } else { 0 });
    }
    let (mut states, mut transitions, mut traces) = (0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut notes: BTreeMap<String, u64> = Default::default();
    let mut per_group = vec![];
    let mut viol: Vec<(usize, Violation)> = vec![];
    let mut aborted = false;
    for (i, c) in ctxs.into_iter().enumerate() {
        let c = match c {
            Some(c) => c,
            None => continue,
        };
        states += c.states.len() as u64;
        transitions += c.transitions;
        traces += c.traces;
        samples.extend(c.samples.iter().take(3).cloned());
        aborted |= c.stop;
        for (k, v) in &c.notes {
            if k.starts_with("max_") {
                let e = notes.entry(k.clone()).or_insert(0);
                *e = (*e).max(*v);
            } else {
                *notes.entry(k.clone()).or_insert(0) += v;
            }
        }
        per_group.push(format!("{{\"group\":{},\"executions\":{},\"states\":{},\"transitions\":{}}}", js(&c.group), c.traces, c.states.len(), c.transitions));
        viol.extend(c.violations.into_iter().map(|v| (i, v)));
    }
    let mut seen_known: HashSet<String> = HashSet::new();
    for (_, v) in viol.iter().filter(|v| v.1.known.is_some()) {
        let t = format!("KNOWN-FINDING: property={} {}", spec.prop, v.known.as_ref().unwrap());
        if seen_known.insert(t.clone()) {
            println!("{}", t);
        }
    }
    let real: Vec<&(usize, Violation)> = viol.iter().filter(|v| v.1.known.is_none()).collect();
    if samples.len() > 40 {
        samples.truncate(40);
    }
    let note_json: Vec<String> = notes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let exhaustive = !aborted && filter.is_none();
    let counts = if spec.level == "model_checking" {
        format!("\"states\":{states},\"transitions\":{transitions},\"traces_validated_against_impl\":{traces}")
    } else {
        format!("\"evaluations\":{traces},\"distinct_nontrivial\":{states},\"environment_events\":{transitions}")
    };
    let cov = format!(
        "{counts},\"rule\":{},\"exhaustive\":{},\"counters\":{{{}}},\"groups\":[{}],\"samples\":[{}]",
        js(spec.rule),
        exhaustive,
        note_json.join(","),
        per_group.join(","),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
    );
    write_evidence(spec, tier, seed, &cov, start.elapsed().as_secs_f64(), real.len());
    if real.is_empty() {
        println!("{}: held on {} executions, {} states, {} transitions ({:.1}s)", spec.prop, traces, states, transitions, start.elapsed().as_secs_f64());
        std::process::exit(0);
    }
    for (i, v) in real.iter().take(10) {
        let p = write_replay(spec, tier, *i, v);
        println!("VIOLATION property={} replay={}", spec.prop, p.display());
        println!("  group={} case={} input={}\n  {}", v.group, v.case, short(&v.key), short(&v.msg));
    }
    std::process::exit(1);
}

/// long inputs are cut on the console, the replay file has all of them
fn short(s: &str) -> String {
    if s.chars().count() > 1200 {
        format!("{} ...", s.chars().take(1200).collect::<String>())
    } else {
        s.to_string()
    }
}

fn write_replay(spec: &Spec, tier: &str, gi: usize, v: &Violation) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{}.txt", spec.prop, gi, v.case));
    let _ = std::fs::write(
        &p,
        format!(
            "property={}\ngroup={}\ncase={}\ninput={}\nresult={}\nreplay: cd /verif && MC_ONLY={}:{} ./check {} {}\n",
            spec.prop, v.group, v.case, v.key, v.msg, gi, v.case, spec.prop, tier
        ),
    );
    p
}
fn write_evidence(spec: &Spec, tier: &str, seed: u64, cov: &str, wall: f64, violations: usize) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let a: Vec<String> = spec.assumptions.iter().map(|s| js(s)).collect();
    let s = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        js(spec.prop), js(tier), seed, js(spec.level), cov, a.join(","), wall, violations
    );
    std::fs::write(dir.join(format!("{}.json", spec.prop)), s).expect("evidence");
}

fn supervise(spec: &Spec, groups: &[Group], tier: &str, seed: u64) -> ! {
    let start = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let slots = root().join(".build").join(format!("slots-{}-{}", spec.prop, std::process::id()));
    let _ = std::fs::create_dir_all(slots.parent().unwrap());
    std::fs::write(&slots, vec![0u8; (groups.len() as u64 * SLOT) as usize]).expect("slots");
    let stall = Duration::from_secs(if tier == "thorough" { 150 } else { 60 });
    let run = |only: Option<(usize, u64)>, limit: Option<Duration>| -> (Option<i32>, Option<i32>, bool) {
        let mut c = std::process::Command::new(&exe);
        c.arg(tier).env("MC_CHILD", "1");
        if let Some((g, n)) = only {
            c.env("MC_ONLY", format!("{}:{}", g, n));
        } else {
            c.env("MC_SLOTS", &slots);
        }
        let mut ch = c.spawn().expect("child");
        let t0 = Instant::now();
        let mut last: Vec<u8> = vec![];
        let mut changed: Vec<Instant> = vec![Instant::now(); groups.len()];
        loop {
            if let Some(st) = ch.try_wait().unwrap() {
                return (st.code(), st.signal(), false);
            }
            std::thread::sleep(Duration::from_millis(20));
            if let Some(l) = limit {
                if t0.elapsed() > l {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return (None, None, true);
                }
            } else {
                let now = std::fs::read(&slots).unwrap_or_default();
                let mut hang = false;
                for i in 0..groups.len() {
                    let r = i * SLOT as usize..(i + 1) * SLOT as usize;
                    if last.is_empty() || now.get(r.clone()) != last.get(r.clone()) {
                        changed[i] = Instant::now();
                    }
                    let st = now.get(i * SLOT as usize + 8).copied().unwrap_or(0);
                    if st == 1 && changed[i].elapsed() > stall {
                        hang = true;
                    }
                }
                last = now;
                if hang {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return (None, None, true);
                }
            }
        }
    };
    if let Ok(o) = std::env::var("MC_ONLY") {
        let (a, b) = o.split_once(':').expect("MC_ONLY=group:case");
        let (code, sig, hang) = run(Some((a.parse().unwrap(), b.parse().unwrap())), Some(stall));
        let _ = std::fs::remove_file(&slots);
        if sig.is_some() || hang {
            println!("FAILED: signal {:?} hang {}", sig, hang);
        }
        std::process::exit(code.unwrap_or(1));
    }
    let (code, sig, hang) = run(None, None);
    let data = std::fs::read(&slots).unwrap_or_default();
    let _ = std::fs::remove_file(&slots);
    if let Some(c) = code {
        std::process::exit(c);
    }
    // the explored code killed or blocked the process: find the execution that does it
    for i in 0..groups.len() {
        let o = i * SLOT as usize;
        if data.get(o + 8).copied().unwrap_or(0) != 1 {
            continue;
        }
        let case = u64::from_le_bytes(data[o..o + 8].try_into().unwrap());
        let (c2, s2, h2) = run(Some((i, case)), Some(stall));
        if (sig.is_some() && s2.is_some()) || (hang && h2) || c2 == Some(1) {
            let msg = if h2 {
                format!("no termination within {:?}", stall)
            } else if let Some(s) = s2 {
                format!("process killed by signal {} (abort: runaway allocation or stack overflow)", s)
            } else {
                "failed".into()
            };
            let v = Violation { group: groups[i].name.clone(), case, key: "see CASE line above".into(), msg, known: None };
            let p = write_replay(spec, tier, i, &v);
            write_evidence(
                spec, tier, seed,
                &format!("\"states\":1,\"transitions\":1,\"traces_validated_against_impl\":1,\"evaluations\":{},\"distinct_nontrivial\":1,\"rule\":{},\"exhaustive\":false,\"samples\":[{}]",
                    case, js(spec.rule), js(&format!("{} case {}", v.group, case))),
                start.elapsed().as_secs_f64(), 1,
            );
            println!("VIOLATION property={} replay={}", spec.prop, p.display());
            println!("  group={} case={} {}", v.group, case, v.msg);
            std::process::exit(1);
        }
    }
    eprintln!("engine error: child ended with signal {:?} (hang={}) and no single execution reproduces it", sig, hang);
    std::process::exit(2);
}

// ---------------------------------------------------------------- assertions
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
/// Evidence of f64 equality up to a relative/absolute tolerance
pub fn close(a: f64, b: f64, eps: f64) -> bool {
    if a == b {
        return true;
    }
    (a - b).abs() <= eps * (1.0 + a.abs().max(b.abs()))
}

/// more than 16 bits can count
/// Ids far outside of n elements: what multiplication, addition or conversion to a narrower type could make a known id of
pub fn far(n: usize) -> Vec<usize> {
    let mut v = vec![usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 3, usize::MAX / 3 + 1, usize::MAX / 3 + 2];
    for k in [8, 16, 24, 31, 32, 33, 48, 62, 63] {
        for i in 0..3 {
            v.push((1usize << k) + i);
        }
        v.push((1usize << k) + n.saturating_sub(1));
    }
    v.retain(|x| *x >= n);
    v.sort();
    v.dedup();
    v
}
pub const HUGE: usize = 65_539;
/// sizes around the usual limits of fixed buffers and small counters
pub fn sizes(thorough: bool) -> Vec<usize> {
    let mut v = vec![7, 12, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300];
    if thorough {
        v.extend([511, 512, 513, 1000, 1023, 1024, 2048])
    }
    v.extend([1025, 4097, HUGE]);
    v
}
/// groups of values that lie close to each other at every scale: a tolerance of any size separates some of a group and joins others
pub fn ladders() -> Vec<Vec<f64>> {
    let mut r = vec![];
    for b in [0.0f64, 1.0, -8.0, 1e6] {
        for j in -4..=70 {
            let h = 2f64.powi(-j);
            if b + 0.25 * h != b {
                r.push([0.0, 1.0, 1.25, 1.5, 1.75, 2.0].iter().map(|k| b + k * h).collect::<Vec<f64>>());
            }
        }
    }
    r
}
/// the ladders whose sums and differences are all exact, with the unit h their steps are multiples of a quarter of
pub fn exact_ladders() -> Vec<(f64, Vec<f64>)> {
    ladders().into_iter().map(|l| (l[1] - l[0], l)).filter(|(h, l)| l[0] + 0.03125 * h != l[0] && l[0] - 0.03125 * h != l[0] && (l[0] - 0.03125 * h) + 0.03125 * h == l[0]).collect()
}
/// families of point sets of any size with integer coordinates
pub fn patterns(n: usize) -> Vec<(&'static str, Vec<[i64; 3]>)> {
    let m = n as i64;
    let f = |g: &dyn Fn(i64) -> [i64; 3]| -> Vec<[i64; 3]> { (0..m).map(g).collect() };
    let side = (1..).find(|s| s * s * s >= m).unwrap_or(1);
    let mut all = vec![
        ("ascending", f(&|i| [i, i, i])),
        ("descending", f(&|i| [m - i, 2 * (m - i), -i])),
        ("along x", f(&|i| [i, i % 2, i % 3])),
        ("along y", f(&|i| [i % 2, (i * 7) % m, i % 3])),
        ("along z", f(&|i| [i % 3, i % 2, (i * 5) % m])),
        ("two places", f(&|i| [i % 2, (i % 2) * 2, (i % 2) * 3])),
        ("one place but the last", f(&|i| if i + 1 == m { [3, 2, 1] } else { [0, 0, 0] })),
        ("block", f(&|i| [i % side, (i / side) % side, i / (side * side)])),
        ("residues", f(&|i| [(i * 37) % (m + 1), (i * i) % (m + 2), (i * i * i) % (m + 3)])),
        ("spread", f(&|i| [i * i, (m - i) * (m - i), (i - m / 2) * (i - m / 2)])),
        ("alternating", f(&|i| if i % 2 == 0 { [i, -i, i / 2] } else { [-i, i, -i / 2] })),
    ];
    if n >= HUGE {
        all.retain(|p| ["descending", "block", "residues"].contains(&p.0));
    }
    all
}
