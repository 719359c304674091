//! Cases, statistics, loggers and other instruments which observe the code under test.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    collections::{BTreeMap, HashSet},
    io::{self, Read, Write},
};

use steit::{
    log::{LogEntry, Logger},
    rt::{LoggerHandle, Runtime},
    ser::Serialize,
};

use crate::{gen::*, model::*, real::*, rng::*};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// Signatures of known findings which showed up.
    pub known: BTreeMap<String, String>,
}

pub struct Case<'a> {
    pub id: u64,
    pub r: Rng,
    pub st: &'a mut Stats,
    pub types: &'a [TyInfo],
    pub thorough: bool,
    /// What the case did so far, for reports.
    pub trace: Vec<String>,
}

impl<'a> Case<'a> {
    pub fn count(&mut self, k: &str, n: u64) {
        match self.st.counters.get_mut(k) {
            Some(x) => *x += n,
            None => {
                self.st.counters.insert(k.to_string(), n);
            }
        }
    }
    /// One evaluation of the oracle, with its fingerprint if it is not trivial.
    pub fn eval(&mut self, fp: Option<u64>) {
        self.st.evaluations += 1;
        if let Some(fp) = fp {
            self.st.distinct.insert(fp);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.st.samples.len() < 4 && self.r.chance(1, 4) {
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push('…');
            }
            self.st.samples.push(s);
        }
    }
    pub fn say(&mut self, s: impl Into<String>) {
        self.trace.push(s.into());
    }
    pub fn any_type(&mut self) -> TyInfo {
        *self.r.pick(self.types)
    }
    pub fn state_type(&mut self) -> TyInfo {
        if self.r.chance(1, 40) {
            let name = if self.r.chance(2, 3) { "SRec" } else { "SRecE" };
            return self.named(name);
        }
        loop {
            let t = *self.r.pick(self.types);
            if t.root_ok() {
                return t;
            }
        }
    }
    pub fn plain_type(&mut self) -> TyInfo {
        loop {
            let t = *self.r.pick(self.types);
            if !t.state {
                return t;
            }
        }
    }
    pub fn named(&self, name: &str) -> TyInfo {
        *self.types.iter().find(|t| t.name == name).unwrap_or_else(|| panic!("HARNESS: no type {}", name))
    }
    pub fn budget(&mut self) -> i32 {
        *self.r.pick(&[3, 10, 25, 60])
    }
    pub fn val(&mut self, n: &Node) -> V {
        let b = self.budget();
        if self.r.chance(1, 6) {
            if let Some(v) = self.deep(n) {
                return v;
            }
        }
        G::new(&mut self.r, b).val(n)
    }
    /// A tree of a recursive type, tens of levels deep; small at every level.
    fn deep(&mut self, n: &Node) -> Option<V> {
        let rec = match n.strip() {
            Node::St(d) if d.name == "SRec" => true,
            Node::En(d) if d.name == "SRecE" => false,
            _ => return None,
        };
        let levels = self.r.range(4, 40);
        let mut v = G::new(&mut self.r, 3).val(n);
        for _ in 0..levels {
            let mut up = default_v(n);
            match &mut up {
                V::St(xs) if rec => match self.r.below(3) {
                    0 => xs[1] = V::Seq((0..self.r.below(2)).map(|_| default_v(n)).chain(Some(v)).collect()),
                    1 => xs[2] = V::Map(vec![(*self.r.pick(&[0, 1, 127, 128, 255]), v)]),
                    _ => {
                        let Node::St(d) = n.strip() else { unreachable!() };
                        let mut opt = default_v(&d.fields[3].ty);
                        match &mut opt {
                            V::En(i, ys) => {
                                *i = 1;
                                *ys = vec![v];
                            }
                            _ => unreachable!(),
                        }
                        xs[3] = opt;
                    }
                },
                up => {
                    *up = match self.r.below(3) {
                        0 => V::En(1, vec![v, default_v(n)]),
                        1 => V::En(1, vec![default_v(n), v]),
                        _ => V::En(2, vec![V::Seq(vec![v])]),
                    }
                }
            }
            v = up;
        }
        self.r.dive = true;
        self.count("trees tens of levels deep", 1);
        Some(v)
    }
}

pub fn fp<T: std::hash::Hash>(x: T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn fp_v(name: &str, v: &V) -> u64 {
    fp((name, format!("{:?}", v)))
}

pub fn short(v: &V) -> String {
    let s = format!("{:?}", v);
    clip(&s, 700)
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}… ({} bytes)", &s[..k], s.len())
}

/// Points at the first difference of two values.
pub fn diff(a: &V, b: &V) -> String {
    fn go(a: &V, b: &V, at: &mut String) -> Option<String> {
        let seqs = |x: &Vec<V>, y: &Vec<V>, at: &mut String| {
            if x.len() != y.len() {
                return Some(format!("at {}: {} items instead of {}", at, x.len(), y.len()));
            }
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                let l = at.len();
                at.push_str(&format!("/{}", i));
                if let Some(d) = go(p, q, at) {
                    return Some(d);
                }
                at.truncate(l);
            }
            None
        };
        match (a, b) {
            (V::Seq(x), V::Seq(y)) | (V::St(x), V::St(y)) => seqs(x, y, at),
            (V::En(i, x), V::En(j, y)) if i == j => seqs(x, y, at),
            (V::Map(x), V::Map(y)) => {
                if x.iter().map(|e| e.0).ne(y.iter().map(|e| e.0)) {
                    return Some(format!(
                        "at {}: keys {:?} instead of {:?}",
                        at,
                        x.iter().map(|e| e.0).collect::<Vec<_>>(),
                        y.iter().map(|e| e.0).collect::<Vec<_>>()
                    ));
                }
                for ((k, p), (_, q)) in x.iter().zip(y) {
                    let l = at.len();
                    at.push_str(&format!("/k{}", k));
                    if let Some(d) = go(p, q, at) {
                        return Some(d);
                    }
                    at.truncate(l);
                }
                None
            }
            (a, b) if a == b => None,
            (a, b) => Some(format!("at {}: {} instead of {}", at, short(a), short(b))),
        }
    }
    go(a, b, &mut String::new()).unwrap_or_else(|| "no difference".into())
}

// ---------------------------------------------------------------- loggers

pub fn to_entry(e: &LogEntry) -> Entry {
    match e {
        LogEntry::Update { path, value, .. } => {
            Entry { kind: Kind::Update, path: path.clone(), val: value.clone().into_raw(), key: 0 }
        }
        LogEntry::ListPush { path, item, .. } => {
            Entry { kind: Kind::Push, path: path.clone(), val: item.clone().into_raw(), key: 0 }
        }
        LogEntry::ListPop { path, .. } => Entry { kind: Kind::Pop, path: path.clone(), val: vec![], key: 0 },
        LogEntry::MapRemove { path, key, .. } => {
            Entry { kind: Kind::Remove, path: path.clone(), val: vec![], key: *key }
        }
    }
}

/// The bytes steit writes for an entry of a log.
pub fn framed(e: &LogEntry) -> Vec<u8> {
    let mut out = vec![];
    e.cache_size();
    e.serialize_nested(None, false, &mut out).unwrap();
    out
}

/// Records every entry; refuses the `fail_at`-th call if asked to.
#[derive(Default)]
pub struct Rec {
    pub got: Vec<LogEntry>,
    pub calls: u64,
    pub fail_at: Option<u64>,
    pub refused: u64,
}

impl Logger for Rec {
    fn log(&mut self, entry: LogEntry) -> io::Result<()> {
        self.calls += 1;
        if self.fail_at == Some(self.calls) {
            self.refused += 1;
            return Err(io::Error::new(io::ErrorKind::Other, "refused"));
        }
        self.got.push(entry);
        Ok(())
    }
}

// ---------------------------------------------------------------- episodes

/// A state under observation.
pub struct Ep {
    pub info: TyInfo,
    pub n: NodeRef,
    pub rt: Runtime,
    pub log: LoggerHandle<Rec>,
    pub real: Box<dyn DynVal>,
    pub cx: Cx,
    /// Entries taken from the logger so far.
    pub taken: Vec<LogEntry>,
}

pub const SIDE: u32 = FIELD_MAX - 7;

impl Ep {
    pub fn new(info: TyInfo, v: Option<&V>) -> Self {
        let (rt, log) = Runtime::with_logger_returned(Rec::default());
        let real = match v {
            Some(v) => (info.build)(v, &rt),
            None => (info.with_rt.expect("HARNESS: not a state"))(rt.clone()),
        };
        Ep { info, n: (info.node)(), rt, log, real, cx: Cx::new(), taken: vec![] }
    }

    /// A root which came into being in one of several ways, holding `v`.
    pub fn start(c: &mut Case, info: TyInfo) -> Result<Self, String> {
        let n = (info.node)();
        let v = match c.r.below(4) {
            0 => default_v(n),
            _ => c.val(n),
        };
        let (rt, log) = Runtime::with_logger_returned(Rec::default());
        let how = c.r.below(6);
        let mut real = match how {
            0 | 1 => (info.build)(&v, &rt),
            2 => {
                let mut x = (info.with_rt.unwrap())(rt.clone());
                if let Err(e) = x.merge(&mut &enc(n, &v)[..]) {
                    viol!("{}: cannot decode the encoding of {}: {}", info.name, short(&v), e);
                }
                x
            }
            3 => {
                // Decoded elsewhere, attached later.
                let mut x = match (info.dflt)().de(&mut &enc(n, &v)[..]) {
                    Ok(x) => x,
                    Err(e) => viol!("{}: cannot decode the encoding of {}: {}", info.name, short(&v), e),
                };
                x.set_runtime(rt.clone());
                x
            }
            4 => {
                let mut x = (info.build)(&v, &Runtime::new().nested(3).nested(1));
                x.set_runtime(rt.clone());
                x
            }
            _ => {
                // By replaying one update of the root.
                let mut x = (info.with_rt.unwrap())(rt.clone());
                let e = Entry { kind: Kind::Update, path: vec![], val: enc(n, &v), key: 0 };
                if let Err(e) = x.replay(&mut &e.framed()[..]) {
                    viol!("{}: cannot replay an update of the root by {}: {}", info.name, short(&v), e);
                }
                x
            }
        };
        // What steit holds is authoritative, so that later oracles judge only what they are about.
        let v2 = real.to_v();
        c.say(format!("{} started by way {} as {}", info.name, how, short(&v2)));
        if v2 != v && c.id % 2 == 0 {
            // Not this check's business unless it shows up in its own oracle; start clean instead.
            real = (info.build)(&v, &rt);
        }
        Ok(Ep { info, n, rt, log, real, cx: Cx::new(), taken: vec![] })
    }

    pub fn fresh_entries(&mut self) -> Vec<LogEntry> {
        let mut l = match self.log.lock() {
            Ok(l) => l,
            Err(p) => p.into_inner(),
        };
        let got = std::mem::take(&mut l.got);
        drop(l);
        self.taken.extend(got.iter().cloned());
        got
    }

    pub fn gen_op(&self, c: &mut Case, hows: &[How]) -> (Vec<Step>, Op) {
        let v = self.real.to_v();
        let w = weight(&v);
        let b = if w > 600 { 2 } else { *c.r.pick(&[2, 6, 14, 30]) };
        let (at, op) = G::new(&mut c.r, b).op(self.n, &v, hows);
        if w > 900 {
            // Too big: shrink.
            if let Some(op) = shrink_op(self.n, &v, &at) {
                return (at, op);
            }
        }
        (at, op)
    }
}

fn shrink_op(n: &Node, v: &V, at: &[Step]) -> Option<Op> {
    let (n, v) = locate(n, v, at);
    match (n, v) {
        (Node::St(d), V::St(xs)) => {
            let i = (0..xs.len()).max_by_key(|&i| weight(&xs[i]))?;
            Some(Op::Set(i, default_v(&d.fields[i].ty), How::Plain))
        }
        (Node::List(_), V::Seq(xs)) if !xs.is_empty() => Some(Op::Pop),
        (Node::Map(..), V::Map(xs)) if !xs.is_empty() => Some(Op::Remove(xs[0].0)),
        _ => None,
    }
}

pub fn nontrivial(v: &V) -> bool {
    weight(v) > 2
}

// ---------------------------------------------------------------- hostile I/O

/// Delivers bytes in odd portions, with interruptions, and fails at a given position.
pub struct Flaky<'a> {
    pub d: &'a [u8],
    pub pos: usize,
    pub r: Rng,
    /// 0: one byte at a time, 1: random portions, 2: everything.
    pub mode: usize,
    pub interrupts: bool,
    pub fail_at: Option<usize>,
    pub failed: bool,
    pub reads: u64,
}

impl<'a> Flaky<'a> {
    pub fn new(d: &'a [u8], r: Rng, mode: usize, interrupts: bool, fail_at: Option<usize>) -> Self {
        Flaky { d, pos: 0, r, mode, interrupts, fail_at, failed: false, reads: 0 }
    }
}

impl<'a> Read for Flaky<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts && self.r.chance(1, 3) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut end = self.d.len();
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                self.failed = true;
                return Err(io::Error::new(io::ErrorKind::ConnectionReset, "injected"));
            }
            end = end.min(f);
        }
        let n = (end - self.pos).min(buf.len());
        let n = match self.mode {
            0 => n.min(1),
            1 => n.min(1 + self.r.below(7)),
            _ => n,
        };
        buf[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct FlakyW {
    pub out: Vec<u8>,
    pub r: Rng,
    pub mode: usize,
    pub interrupts: bool,
    pub fail_at: Option<usize>,
    /// Fail by accepting nothing instead of by an error.
    pub zero: bool,
    pub failed: bool,
}

impl Write for FlakyW {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts && self.r.chance(1, 3) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = match self.mode {
            0 => 1,
            1 => (1 + self.r.below(5)).min(buf.len()),
            _ => buf.len(),
        };
        if let Some(f) = self.fail_at {
            if self.out.len() >= f {
                self.failed = true;
                if self.zero {
                    return Ok(0);
                }
                return Err(io::Error::new(io::ErrorKind::BrokenPipe, "injected"));
            }
            n = n.min(f - self.out.len());
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- allocation

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// Counts what the current thread has allocated.
pub struct Counting;

fn grow(n: i64) {
    let _ = LIVE.try_with(|l| {
        let x = l.get() + n;
        l.set(x);
        let _ = PEAK.try_with(|p| {
            if x > p.get() {
                p.set(x)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        grow(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        grow(n as i64);
        grow(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}

/// Runs `f` and tells by how many bytes the thread's memory rose at most.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let x = f();
    (x, PEAK.with(|p| p.get()) - base)
}

extern "C" {
    fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
}

/// CPU time of the thread in seconds.
pub fn thread_cpu() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(3, &mut ts) };
    ts[0] as f64 + ts[1] as f64 / 1e9
}
