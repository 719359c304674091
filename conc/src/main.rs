//! C11: threads that share a logger or a value.
//!
//! Every iteration plays the same operations twice: by one thread after the other, and by all threads at once. What the
//! threads logged, the final states and what readers saw must not differ. Runs natively, under Miri and under
//! ThreadSanitizer.
use std::{
    cell::Cell,
    collections::{hash_map::DefaultHasher, HashMap, HashSet},
    hash::{Hash, Hasher},
    io,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        mpsc, Arc, Barrier, Mutex,
    },
    thread,
    time::{Duration, Instant},
};

use steit::{
    de::{Deserialize, Reader},
    log::{
        loggers::{BufferLogger, WriterLogger},
        LogEntry, Logger,
    },
    rt::Runtime,
    ser::Serialize,
    state::State,
    steit_derive,
    types::{List, Map, Maybe},
};

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub struct Leaf {
    #[steit(tag = 0)]
    a: u32,
    #[steit(tag = 1)]
    b: i16,
    #[steit(tag = 2)]
    s: List<u16>,
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub enum En {
    #[steit(tag = 0)]
    Nil,
    #[steit(tag = 1)]
    Pt {
        #[steit(tag = 0)]
        x: i32,
        #[steit(tag = 1)]
        l: List<u8>,
    },
    #[steit(tag = 5)]
    Wrap(#[steit(tag = 0)] Leaf),
}

#[steit_derive(Clone, PartialEq, Eq, Debug, State)]
pub struct Part {
    #[steit(tag = 0)]
    n: u32,
    #[steit(tag = 1)]
    small: List<u8>,
    #[steit(tag = 2)]
    leaves: List<Leaf>,
    #[steit(tag = 3)]
    map: Map<u16, Leaf>,
    #[steit(tag = 4)]
    prims: Map<u8, i32>,
    #[steit(tag = 5)]
    e: En,
    #[steit(tag = 6)]
    m: Maybe<Leaf>,
    #[steit(tag = 9)]
    boxed: Box<Leaf>,
    #[steit(tag = 300)]
    flag: bool,
}

#[steit_derive(Clone, PartialEq, Eq, Debug, State)]
pub struct Root {
    #[steit(tag = 0)]
    p0: Part,
    #[steit(tag = 1)]
    p1: Part,
    #[steit(tag = 8)]
    parts: List<Part>,
    #[steit(tag = 9)]
    by: Map<u32, Part>,
    #[steit(tag = 10)]
    deep: List<List<Part>>,
}

/// A value to read that can be hashed.
#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub struct Shared {
    #[steit(tag = 0)]
    l: List<Leaf>,
    #[steit(tag = 1)]
    e: List<En>,
    #[steit(tag = 2)]
    m: Maybe<Leaf>,
    #[steit(tag = 3)]
    b: Box<Leaf>,
    #[steit(tag = 4)]
    #[steit(no_state)]
    v: Vec<Option<Vec<u32>>>,
}

fn assert_threads<T: Send + Sync>() {}

/// Does not compile if a value or runtime cannot be shared or sent.
fn can_be_shared() {
    assert_threads::<Root>();
    assert_threads::<Shared>();
    assert_threads::<Runtime>();
    assert_threads::<Map<u8, List<Maybe<Box<u8>>>>>();
    assert_threads::<steit::types::Bytes>();
    assert_threads::<steit::rt::SizeCache>();
    assert_threads::<LogEntry>();
    assert_threads::<steit::rt::LoggerHandle<BufferLogger>>();
}

// ---------------------------------------------------------------- randomness

pub struct Rng(u64);

impl Rng {
    fn new(parts: &[u64]) -> Self {
        let mut h = 0x1234_5678_9abc_def0u64;
        for &p in parts {
            h = Rng(h ^ p.wrapping_mul(0x9e37_79b9_7f4a_7c15)).next();
        }
        Rng(h)
    }
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    fn chance(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }
    fn small(&mut self) -> u64 {
        let bits = self.below(17);
        self.next() & ((1 << bits) - 1)
    }
}

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    /// The number of the call that must log its entries in one piece, or 0.
    static CALL: Cell<u32> = const { Cell::new(0) };
}

const MIRI: bool = cfg!(miri);

fn delay(r: &mut Rng, heavy: bool) {
    match r.below(if heavy { 3 } else { 12 }) {
        0 => thread::yield_now(),
        1 if !MIRI => (0..r.below(300)).for_each(|_| std::hint::spin_loop()),
        2 if !MIRI && heavy && r.chance(1, 40) => thread::sleep(Duration::from_micros(r.below(200) as u64)),
        _ => (),
    }
}

// ---------------------------------------------------------------- the recording logger

#[derive(Clone, PartialEq, Debug)]
struct Seen {
    tid: usize,
    call: u32,
    bytes: Vec<u8>,
}

struct Rec {
    seen: Vec<Seen>,
    rng: Rng,
    /// Refuses every so many entries of a thread, counted by thread.
    refuse: usize,
    counts: HashMap<usize, usize>,
    inside: AtomicBool,
}

impl Logger for Rec {
    fn log(&mut self, entry: LogEntry) -> io::Result<()> {
        if self.inside.swap(true, Ordering::Relaxed) {
            panic!("two entries are logged at once");
        }
        let (tid, call) = (TID.with(|x| x.get()), CALL.with(|x| x.get()));
        let mut bytes = Vec::new();
        entry.cache_size();
        delay(&mut self.rng, true);
        entry.serialize_nested(None, false, &mut bytes).unwrap();
        let second = call != 0 && self.seen.last().map_or(false, |s| s.call == call && s.tid == tid);
        let n = self.counts.entry(tid).or_insert(0);
        *n += 1;
        self.inside.store(false, Ordering::Relaxed);
        if self.refuse > 0 && *n % self.refuse == 0 && !second {
            return Err(io::Error::new(io::ErrorKind::Other, "refused"));
        }
        self.seen.push(Seen { tid, call, bytes });
        Ok(())
    }
}

// ---------------------------------------------------------------- operations

/// How far each thread is, so that one may wait for the others.
struct Progress(Vec<AtomicU64>);

impl Progress {
    /// Waits until another thread does something, or for a while.
    fn wait(&self, tid: usize) {
        let sum = || {
            self.0
                .iter()
                .enumerate()
                .filter(|(i, _)| *i != tid)
                .map(|(_, a)| a.load(Ordering::Relaxed))
                .sum::<u64>()
        };
        let begin = sum();
        for _ in 0..if MIRI { 8 } else { 400 } {
            if sum() != begin {
                return;
            }
            thread::yield_now();
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Features {
    threads: usize,
    ops: usize,
    refuse: usize,
    panics: bool,
    pauses: bool,
    side: bool,
    moves: bool,
}

struct Ctx<'a> {
    tid: usize,
    rng: Rng,
    /// Is not drawn from by operations, so that delays do not change them.
    noise: Rng,
    f: Features,
    side: Part,
    tx: Option<mpsc::Sender<Leaf>>,
    rx: Option<mpsc::Receiver<Leaf>>,
    progress: &'a Progress,
    alone: bool,
    calls: u32,
    /// Operations while this thread has paused the logger: they leave nothing.
    runtime: Runtime,
    problem: Option<String>,
}

impl<'a> Ctx<'a> {
    fn one_piece<R>(&mut self, f: impl FnOnce() -> R) -> R {
        self.calls += 1;
        CALL.with(|x| x.set(self.calls));
        let r = catch_unwind(AssertUnwindSafe(f));
        CALL.with(|x| x.set(0));
        r.unwrap_or_else(|e| std::panic::resume_unwind(e))
    }
    fn check(&mut self, ok: bool, what: &str) {
        if !ok && self.problem.is_none() {
            self.problem = Some(what.to_string());
        }
    }
}

fn leaf(r: &mut Rng) -> Leaf {
    let mut x = Leaf::new(Runtime::new());
    fill_leaf(&mut x, r);
    x
}

fn fill_leaf(x: &mut Leaf, r: &mut Rng) {
    if r.chance(2, 3) {
        x.set_a(r.small() as u32);
    }
    if r.chance(1, 2) {
        x.set_b(r.small() as i16);
    }
    let n = if !MIRI && r.chance(1, 12) { r.below(200) } else { r.below(4) };
    for _ in 0..n {
        x.s.push(r.small() as u16);
    }
}

fn en(r: &mut Rng, rt: Runtime) -> En {
    match r.below(3) {
        0 => En::new_nil(rt),
        1 => {
            let mut e = En::new_pt(rt);
            e.set_pt_x(r.small() as i32);
            if let En::Pt { l, .. } = &mut e {
                l.push(r.small() as u8);
            }
            e
        }
        _ => {
            let mut e = En::new_wrap(rt);
            e.set_wrap_f0(leaf(r));
            e
        }
    }
}

fn build_part(p: &mut Part, r: &mut Rng, n: usize) {
    if MIRI && n > 0 && r.chance(2, 3) {
        p.small.push(r.small() as u8);
        p.leaves.push(leaf(r));
        return;
    }
    p.set_n(r.small() as u32);
    for _ in 0..r.below(n + 1) {
        p.small.push(r.small() as u8);
        p.leaves.push(leaf(r));
        p.map.insert(r.below(12) as u16, leaf(r));
        p.prims.insert(r.below(9) as u8, r.small() as i32 - 99);
    }
    let e = en(r, Runtime::new());
    p.set_e(e);
    if r.chance(1, 2) {
        p.set_m(Maybe::some(Runtime::new(), leaf(r)));
    }
    fill_leaf(&mut p.boxed, r);
}

/// What happens while a value is made: other threads go on, and this one works elsewhere.
fn meanwhile(side: &mut Part, r: &mut Rng, progress: &Progress, tid: usize, f: &Features, alone: bool) {
    if f.side && r.chance(1, 2) {
        side.small.push(r.small() as u8);
        if r.chance(1, 3) {
            side.leaves.push(leaf(r));
        }
    }
    let wait = r.chance(1, 3);
    if wait && !alone {
        progress.wait(tid);
    }
    if f.panics && r.chance(1, 6) {
        panic!("the callback panics");
    }
}

fn mutate_leaf(x: &mut Leaf, r: &mut Rng, c: &mut Ctx) {
    match r.below(6) {
        0 => {
            x.set_a(r.small() as u32);
        }
        1 => {
            x.set_b(r.small() as i16);
        }
        2 => {
            x.s.push(r.small() as u16);
        }
        3 => {
            x.s.pop();
        }
        4 => {
            let i = r.below(x.s.len() + 1);
            c.one_piece(|| x.s.swap_remove(i));
        }
        _ => {
            let (side, progress, tid, f, alone) = (&mut c.side, c.progress, c.tid, c.f, c.alone);
            x.set_s_with(|rt| {
                let mut l = List::new(rt);
                l.push(r.small() as u16);
                meanwhile(side, r, progress, tid, &f, alone);
                l.push(r.small() as u16);
                l
            });
        }
    }
}

fn op(p: &mut Part, c: &mut Ctx) {
    let mut r = Rng::new(&[c.rng.next()]);
    let r = &mut r;
    let (progress, tid, f, alone) = (c.progress, c.tid, c.f, c.alone);
    match r.below(26) {
        0 => {
            p.set_n(r.small() as u32);
        }
        1 => {
            p.small.push(r.small() as u8);
        }
        2 => {
            p.small.pop();
        }
        3 => {
            let i = r.below(p.small.len() + 1);
            c.one_piece(|| p.small.swap_remove(i));
        }
        4 => {
            p.leaves.push(leaf(r));
        }
        5 => {
            let side = &mut c.side;
            p.leaves.push_with(|rt| {
                let mut x = Leaf::new(rt);
                fill_leaf(&mut x, r);
                meanwhile(side, r, progress, tid, &f, alone);
                fill_leaf(&mut x, r);
                x
            });
        }
        6 | 7 => {
            let i = r.below(p.leaves.len() + 1);
            if let Some(mut x) = c.one_piece(|| p.leaves.swap_remove(i)) {
                // Mine, and of no concern to the log any more.
                fill_leaf(&mut x, r);
                if f.moves && r.chance(1, 2) {
                    p.map.insert(r.below(12) as u16, x);
                }
            }
        }
        8 | 9 => {
            let i = r.below(p.leaves.len() + 1);
            if let Some(x) = p.leaves.get_mut(i) {
                mutate_leaf(x, r, c);
            }
        }
        10 => {
            p.map.insert(r.below(12) as u16, leaf(r));
        }
        11 => {
            let side = &mut c.side;
            p.map.insert_with(r.below(12) as u16, |rt| {
                let mut x = Leaf::new(rt);
                meanwhile(side, r, progress, tid, &f, alone);
                fill_leaf(&mut x, r);
                x
            });
        }
        12 => {
            p.map.remove(&(r.below(12) as u16));
        }
        13 => {
            if let Some(x) = p.map.get_mut(&(r.below(12) as u16)) {
                mutate_leaf(x, r, c);
            }
        }
        14 => {
            p.prims.insert(r.below(9) as u8, r.small() as i32 - 99);
        }
        15 => {
            p.prims.remove(&(r.below(9) as u8));
        }
        16 => {
            let e = en(r, Runtime::new());
            p.set_e(e);
        }
        17 => match r.below(3) {
            0 => {
                p.e.set_pt_x(r.small() as i32);
            }
            1 => {
                p.e.set_wrap_f0(leaf(r));
            }
            _ => {
                let side = &mut c.side;
                p.set_e_with(|rt| {
                    let e = en(r, rt);
                    meanwhile(side, r, progress, tid, &f, alone);
                    e
                });
            }
        },
        18 => match &mut p.e {
            En::Pt { l, .. } => {
                l.push(r.small() as u8);
            }
            En::Wrap(x, ..) => mutate_leaf(x, r, c),
            En::Nil { .. } => (),
        },
        19 => {
            p.set_m(if r.chance(1, 3) {
                Maybe::none(Runtime::new())
            } else {
                Maybe::some(Runtime::new(), leaf(r))
            });
        }
        20 => match &mut p.m {
            Maybe::Some { value, .. } => mutate_leaf(value, r, c),
            _ => {
                let side = &mut c.side;
                p.set_m_with(|rt| {
                    meanwhile(side, r, progress, tid, &f, alone);
                    Maybe::some(rt, leaf(r))
                });
            }
        },
        21 => mutate_leaf(&mut p.boxed, r, c),
        22 => {
            if let Some(tx) = &c.tx {
                if let Some(x) = p.leaves.pop() {
                    tx.send(x).unwrap_or(());
                }
            } else {
                p.set_flag(r.chance(1, 2));
            }
        }
        23 => {
            if let Some(rx) = &c.rx {
                if let Ok(mut x) = rx.recv() {
                    // It logs nothing on behalf of where it was.
                    fill_leaf(&mut x, r);
                    p.leaves.push(x);
                }
            }
        }
        24 => {
            let before = p.to_bytes();
            let size = p.compute_size();
            c.check(size as usize == before.len(), "a part's size is not that of its bytes");
            let mut copy = p.clone();
            copy.set_runtime(Runtime::new());
            c.check(copy == *p, "a copy is not equal");
            copy.small.push(9);
            c.check(copy != *p, "a copy is part of its original");
            c.check(p.to_bytes() == before, "bytes change by reading");
        }
        _ => {
            if f.side {
                let mut side = std::mem::replace(&mut c.side, Part::new(Runtime::new()));
                for _ in 0..2 {
                    match r.below(4) {
                        0 => {
                            side.set_n(r.small() as u32);
                        }
                        1 => {
                            side.leaves.push(leaf(r));
                        }
                        2 => {
                            let i = r.below(side.leaves.len() + 1);
                            // A refusal must not lose the tree.
                            let got = catch_unwind(AssertUnwindSafe(|| c.one_piece(|| side.leaves.swap_remove(i))));
                            if let Err(e) = got {
                                c.side = side;
                                std::panic::resume_unwind(e);
                            }
                        }
                        _ => {
                            side.small.pop();
                        }
                    }
                }
                c.side = side;
            }
        }
    }
}

fn message(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default()
}

/// One thread's work.
fn work(parts: &mut [&mut Part], c: &mut Ctx) {
    TID.with(|x| x.set(c.tid));
    for _ in 0..c.f.ops {
        let i = c.rng.below(parts.len());
        let pause = c.f.pauses && c.rng.chance(1, 10);
        if pause {
            // Of what this thread does now nothing arrives. The other order of operations is not affected.
            let n = c.runtime.pause_logger();
            c.check(n >= 1, "pausing leaves nothing paused");
        }
        let got = catch_unwind(AssertUnwindSafe(|| op(parts[i], c)));
        if let Err(e) = got {
            let m = message(&*e);
            let fine = c.f.panics && m == "the callback panics" || c.f.refuse > 0 && m.contains("refused");
            c.check(fine, &format!("an operation panics: {}", m));
        }
        if pause {
            c.runtime.unpause_logger();
        }
        c.progress.0[c.tid].fetch_add(1, Ordering::Relaxed);
        if !c.alone {
            delay(&mut c.noise, false);
        }
    }
    c.tx = None;
}

// ---------------------------------------------------------------- arrangements of parts

#[derive(Clone, Copy, PartialEq, Debug)]
enum Shape {
    Fields,
    List,
    Map,
    Deep,
    Mixed,
}

fn build_root(rt: Runtime, shape: Shape, n: usize, r: &mut Rng) -> Root {
    let mut root = Root::new(rt);
    let size = if MIRI { 1 } else { 4 };
    if !MIRI || shape == Shape::Fields {
        for p in [&mut root.p0, &mut root.p1] {
            build_part(p, r, size);
        }
    }
    for i in 0..n {
        if matches!(shape, Shape::List | Shape::Mixed) {
            root.parts.push_with(|rt| {
                let mut p = Part::new(rt);
                build_part(&mut p, r, size);
                p
            });
        }
        if matches!(shape, Shape::Map | Shape::Mixed) {
            root.by.insert_with((i * i * 50) as u32, |rt| {
                let mut p = Part::new(rt);
                build_part(&mut p, r, size);
                p
            });
        }
        if matches!(shape, Shape::Deep | Shape::Mixed) {
            root.deep.push_with(|rt| {
                let mut l = List::new(rt);
                l.push(Part::new(Runtime::new()));
                build_part(&mut l[0], r, size);
                l
            });
        }
    }
    root
}

/// The parts of a root with their paths.
fn parts_of<'a>(root: &'a mut Root, shape: Shape) -> Vec<(Vec<u32>, &'a mut Part)> {
    let mut out = Vec::new();
    if matches!(shape, Shape::Fields | Shape::Mixed) {
        for (i, p) in [&mut root.p0, &mut root.p1].into_iter().enumerate() {
            out.push((vec![i as u32], p));
        }
    }
    for (i, p) in root.parts.iter_mut().enumerate() {
        out.push((vec![8, i as u32], p));
    }
    for (k, p) in root.by.iter_mut() {
        out.push((vec![9, k], p));
    }
    for (i, l) in root.deep.iter_mut().enumerate() {
        for (j, p) in l.iter_mut().enumerate() {
            out.push((vec![10, i as u32, j as u32], p));
        }
    }
    out
}

/// The path of an entry.
fn path_of(entry: &[u8]) -> Result<Vec<u32>, String> {
    let mut i = 0;
    let bad = || format!("not an entry: {:?}", entry);
    let varint = |i: &mut usize| -> Result<u64, String> {
        let (mut v, mut s) = (0u64, 0);
        loop {
            let b = *entry.get(*i).ok_or_else(bad)?;
            *i += 1;
            v |= ((b & 127) as u64) << s;
            s += 7;
            if b < 128 {
                return Ok(v);
            }
        }
    };
    if varint(&mut i)? as usize + i != entry.len() {
        return Err(bad());
    }
    varint(&mut i)?;
    let mut path = Vec::new();
    while i < entry.len() {
        let key = varint(&mut i)?;
        let v = varint(&mut i)? as usize;
        if key & 7 == 2 {
            if key == 2 {
                let end = i + v;
                while i < end {
                    path.push(varint(&mut i)? as u32);
                }
            } else {
                i += v;
            }
        }
    }
    if i != entry.len() {
        return Err(bad());
    }
    Ok(path)
}

fn split(log: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < log.len() {
        let begin = i;
        let (mut v, mut s) = (0usize, 0);
        loop {
            let b = *log.get(i).ok_or("the log ends within an entry")?;
            i += 1;
            v |= ((b & 127) as usize) << s;
            s += 7;
            if b < 128 {
                break;
            }
        }
        i += v;
        if i > log.len() {
            return Err("the log ends within an entry".to_string());
        }
        out.push(log[begin..i].to_vec());
    }
    Ok(out)
}

// ---------------------------------------------------------------- statistics

#[derive(Default)]
struct Stats {
    iterations: u64,
    entries: u64,
    switches: u64,
    compound: u64,
    reads: u64,
    drains: u64,
    moved: u64,
    panics: u64,
    lost_to_pauses: u64,
    orders: HashSet<u64>,
    kinds: HashMap<String, u64>,
}

impl Stats {
    fn order(&mut self, tids: &[usize]) {
        self.entries += tids.len() as u64;
        self.switches += tids.windows(2).filter(|w| w[0] != w[1]).count() as u64;
        let mut h = DefaultHasher::new();
        tids.hash(&mut h);
        self.orders.insert(h.finish());
    }
    fn print(&self) {
        let mut k: Vec<_> = self.kinds.iter().map(|(k, n)| format!("\"kind {}\": {}", k, n)).collect();
        k.sort();
        println!(
            "STATS {{\"iterations\": {}, \"entries\": {}, \"switches between threads in the logs\": {}, \"entries of compound removals\": {}, \"concurrent reads\": {}, \"drains\": {}, \"refusals and panics\": {}, \"entries lost to pauses\": {}, \"values moved between threads\": {}, \"orders\": [{}], {}}}",
            self.iterations, self.entries, self.switches, self.compound, self.reads, self.drains, self.panics, self.lost_to_pauses, self.moved,
            self.orders.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "), k.join(", ")
        );
    }
}

type Res = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

// ---------------------------------------------------------------- writers

struct World<'a> {
    seed: u64,
    f: Features,
    shape: Shape,
    forest: bool,
    progress: &'a Progress,
    protos: Vec<Root>,
    sides: Vec<Part>,
}

struct Outcome {
    finals: Vec<Vec<u8>>,
    sides: Vec<Vec<u8>>,
    problem: Option<String>,
}

impl<'a> World<'a> {
    /// Everything that is there before the work begins. Does not log to `rt`'s logger.
    fn roots(&self, rt: &Runtime) -> Vec<Root> {
        let mut roots = self.protos.clone();
        for root in &mut roots {
            root.set_runtime(rt.clone());
        }
        roots
    }

    fn fill(&mut self) {
        let n = if self.forest { self.f.threads } else { 1 };
        self.protos = (0..n).map(|i| build_root(Runtime::new(), self.shape, self.f.threads, &mut Rng::new(&[self.seed, 77, i as u64]))).collect();
        self.sides = vec![Part::new(Runtime::new()); self.f.threads];
        if self.f.side {
            for (i, side) in self.sides.iter_mut().enumerate() {
                build_part(side, &mut Rng::new(&[self.seed, 78, i as u64]), 2);
            }
        }
    }

    /// The owner of a path, where each thread has its own.
    fn owner(&self, paths: &[Vec<u32>], path: &[u32]) -> Option<usize> {
        paths.iter().position(|p| path.starts_with(p)).map(|i| i % self.f.threads)
    }

    fn run(&self, rt: &Runtime, alone: bool) -> (Outcome, Vec<Vec<u32>>) {
        let mut roots = self.roots(rt);
        let mut paths = Vec::new();
        let mut problem = None;
        let mut sides = vec![Vec::new(); self.f.threads];
        {
            let mut owned: Vec<Vec<&mut Part>> = (0..self.f.threads).map(|_| Vec::new()).collect();
            for (i, root) in roots.iter_mut().enumerate() {
                for (j, (path, p)) in parts_of(root, self.shape).into_iter().enumerate() {
                    owned[if self.forest { i } else { j % self.f.threads }].push(p);
                    paths.push(path);
                }
            }
            let mut ctxs = Vec::new();
            let mut rx = None;
            for tid in 0..self.f.threads {
                let (tx, next) = mpsc::channel();
                let mut side = self.sides[tid].clone();
                side.set_runtime(rt.clone());
                ctxs.push(Ctx {
                    tid,
                    rng: Rng::new(&[self.seed, 79, tid as u64]),
                    noise: Rng::new(&[self.seed, 80, tid as u64]),
                    f: self.f,
                    side,
                    tx: if self.f.moves && tid + 1 < self.f.threads { Some(tx) } else { None },
                    rx: if self.f.moves { rx.take() } else { None },
                    progress: self.progress,
                    alone,
                    calls: 0,
                    runtime: rt.clone(),
                    problem: None,
                });
                rx = Some(next);
            }
            if alone {
                for (parts, c) in owned.iter_mut().zip(&mut ctxs) {
                    work(parts, c);
                }
                TID.with(|x| x.set(usize::MAX));
            } else {
                let barrier = Barrier::new(self.f.threads);
                thread::scope(|s| {
                    for (parts, c) in owned.iter_mut().zip(&mut ctxs) {
                        let barrier = &barrier;
                        s.spawn(move || {
                            barrier.wait();
                            work(parts, c);
                        });
                    }
                });
            }
            for (i, c) in ctxs.into_iter().enumerate() {
                sides[i] = c.side.to_bytes();
                problem = problem.or(c.problem.map(|p| format!("thread {}: {}", i, p)));
            }
        }
        (
            Outcome {
                finals: roots.iter().map(|r| r.to_bytes()).collect(),
                sides,
                problem,
            },
            paths,
        )
    }

    /// Replays a log on what there was before.
    fn replayed(&self, i: usize, log: &[u8]) -> Result<Vec<u8>, String> {
        let mut root = self.protos[i].clone();
        root.set_runtime(Runtime::new());
        root.replay(&mut Reader::new(log)).map_err(|e| format!("the log is refused: {}", e))?;
        Ok(root.to_bytes())
    }
}

fn short(x: &[Vec<u8>]) -> String {
    let s = format!("{:?}", x);
    s.chars().take(1500).collect()
}

fn recorded(w: &World, stats: &mut Stats) -> Res {
    let rec = |seed| Rec {
        seen: Vec::new(),
        rng: Rng::new(&[w.seed, seed]),
        refuse: w.f.refuse,
        counts: HashMap::new(),
        inside: AtomicBool::new(false),
    };
    let (rt, handle) = Runtime::with_logger_returned(rec(1));
    let (want, _) = w.run(&rt, true);
    let expected = std::mem::take(&mut handle.lock().map_err(|_| "the logger is poisoned, alone")?.seen);
    if let Some(p) = want.problem {
        return Err(format!("alone: {}", p));
    }
    let (rt, handle) = Runtime::with_logger_returned(rec(2));
    let (got, paths) = w.run(&rt, false);
    let seen = std::mem::take(&mut handle.lock().map_err(|_| "the logger is poisoned")?.seen);
    if let Some(p) = got.problem {
        return Err(p);
    }
    let tids: Vec<_> = seen.iter().map(|s| s.tid).collect();
    stats.order(&tids);
    // Each thread's entries, in its order.
    for tid in 0..w.f.threads {
        let a: Vec<_> = expected.iter().filter(|s| s.tid == tid).map(|s| (s.call, s.bytes.clone())).collect();
        let b: Vec<_> = seen.iter().filter(|s| s.tid == tid).map(|s| (s.call, s.bytes.clone())).collect();
        if w.f.pauses {
            // A part of them, in order; a compound removal wholly or not at all.
            let mut i = 0;
            for x in &b {
                while i < a.len() && a[i] != *x {
                    i += 1;
                }
                ensure!(i < a.len(), "thread {} logged what it does not log alone, or in another order: {:?}", tid, x);
                i += 1;
            }
            stats.lost_to_pauses += (a.len() - b.len()) as u64;
            for x in b.iter().filter(|x| x.0 != 0) {
                let n = |l: &[(u32, Vec<u8>)]| l.iter().filter(|y| y.0 == x.0).count();
                ensure!(n(&a) == n(&b), "of a compound removal of thread {} only a part arrived: {:?}", tid, x);
            }
        } else if a != b {
            let i = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
            return Err(format!(
                "thread {}: {} entries arrived instead of {}; the {}th is {:?} instead of {:?}",
                tid,
                b.len(),
                a.len(),
                i,
                b.get(i),
                a.get(i)
            ));
        }
    }
    ensure!(seen.iter().all(|s| s.tid < w.f.threads), "an entry comes from a thread that does not work");
    // Compound removals stay together.
    for (i, s) in seen.iter().enumerate().filter(|(_, s)| s.call != 0) {
        stats.compound += 1;
        let same = |x: &Seen| x.tid == s.tid && x.call == s.call;
        let first = seen.iter().position(same).unwrap();
        let n = seen.iter().filter(|x| same(x)).count();
        ensure!(
            i < first + n,
            "the entries of a compound removal of thread {} are apart: {} and {}",
            s.tid,
            first,
            i
        );
    }
    // The states.
    ensure!(
        got.finals == want.finals,
        "the final state is another one: {} instead of {}",
        short(&got.finals),
        short(&want.finals)
    );
    ensure!(got.sides == want.sides, "the final state of a separate tree is another one");
    if !w.f.pauses {
        if w.forest || w.f.side {
            // Entries of several roots are in one log; a thread's own are in order, but two trees of it are not told apart.
            if w.forest && !w.f.side {
                for i in 0..w.f.threads {
                    let log: Vec<u8> = seen.iter().filter(|s| s.tid == i).flat_map(|s| s.bytes.clone()).collect();
                    ensure!(
                        w.replayed(i, &log)? == got.finals[i],
                        "replaying the entries of thread {} does not give its tree",
                        i
                    );
                }
            }
        } else {
            let log: Vec<u8> = seen.iter().flat_map(|s| s.bytes.clone()).collect();
            ensure!(w.replayed(0, &log)? == got.finals[0], "replaying the log does not give the final state");
            for s in &seen {
                let path = path_of(&s.bytes)?;
                ensure!(w.owner(&paths, &path) == Some(s.tid), "thread {} logged at {:?}", s.tid, path);
            }
        }
    } else {
        ensure!(rt.pause_logger() == 1, "after all is over the logger is paused");
        ensure!(rt.unpause_logger() == 0, "unpausing the logger leaves it paused");
    }
    stats.panics += if w.f.refuse > 0 || w.f.panics { 1 } else { 0 };
    // The logger goes on.
    TID.with(|x| x.set(99));
    Leaf::new(rt).set_a(5);
    TID.with(|x| x.set(usize::MAX));
    let last = std::mem::take(&mut handle.lock().map_err(|_| "the logger is poisoned")?.seen);
    ensure!(
        last.len() == 1 || w.f.refuse == 1,
        "after all is over {} entries are logged instead of one",
        last.len()
    );
    Ok(())
}

/// Collects what is written.
#[derive(Clone)]
struct Sink(Arc<Mutex<Vec<u8>>>);

impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        // Rarely all at once.
        let n = if b.len() > 3 && b[0] % 3 == 0 { b.len() / 2 } else { b.len() };
        self.0.lock().unwrap().extend_from_slice(&b[..n]);
        thread::yield_now();
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// The repository's own loggers; entries belong to threads by their paths.
fn own_loggers(w: &World, writer: bool, stats: &mut Stats) -> Res {
    let (rt, handle) = Runtime::with_logger_returned(BufferLogger::new());
    let (want, paths) = w.run(&rt, true);
    let expected = split(&handle.lock().map_err(|_| "the logger is poisoned, alone")?.pluck_bytes())?;
    if let Some(p) = want.problem {
        return Err(format!("alone: {}", p));
    }
    let (got, entries);
    if writer {
        let sink = Sink(Arc::new(Mutex::new(Vec::new())));
        let rt = Runtime::with_logger(WriterLogger::new(sink.clone()));
        got = w.run(&rt, false).0;
        let text = String::from_utf8(std::mem::take(&mut sink.0.lock().unwrap())).map_err(|_| "what is written is not text")?;
        let mut out = Vec::new();
        // Each record ends with " => [1, 2, ...]".
        let mut rest = &text[..];
        while !rest.is_empty() {
            let a = rest
                .find(" => [")
                .ok_or_else(|| format!("what is written is broken: {:?}", rest.chars().take(200).collect::<String>()))?;
            let b = rest[a..].find("]\n").ok_or("what is written is broken off")? + a;
            let list: Result<Vec<u8>, _> = rest[a + 5..b].split(", ").map(|x| x.parse()).collect();
            out.push(list.map_err(|_| format!("what is written is broken: {:?}", &rest[a..b]))?);
            ensure!(
                rest.starts_with("Update") || rest.starts_with("List") || rest.starts_with("Map"),
                "a record begins {:?}",
                rest.chars().take(30).collect::<String>()
            );
            rest = &rest[b + 2..];
        }
        entries = out;
    } else {
        let (rt, handle) = Runtime::with_logger_returned(BufferLogger::new());
        let done = AtomicBool::new(false);
        let drained = Mutex::new(Vec::new());
        let mut got_ = None;
        let drains = AtomicUsize::new(0);
        thread::scope(|s| {
            s.spawn(|| {
                let mut r = Rng::new(&[w.seed, 5]);
                while !done.load(Ordering::Acquire) {
                    // One way of taking entries or the other.
                    let bytes = if r.chance(1, 2) {
                        handle.lock().map(|mut h| h.pluck_bytes()).unwrap_or_default()
                    } else {
                        let mut out = Vec::new();
                        for e in handle.lock().map(|mut h| h.pluck()).unwrap_or_default() {
                            e.cache_size();
                            e.serialize_nested(None, false, &mut out).unwrap();
                        }
                        out
                    };
                    if !bytes.is_empty() {
                        drains.fetch_add(1, Ordering::Relaxed);
                    }
                    drained.lock().unwrap().extend(bytes);
                    thread::yield_now();
                }
            });
            got_ = Some(w.run(&rt, false).0);
            done.store(true, Ordering::Release);
        });
        stats.drains += drains.load(Ordering::Relaxed) as u64;
        let mut all = drained.into_inner().unwrap();
        all.extend(handle.lock().map_err(|_| "the logger is poisoned")?.pluck_bytes());
        entries = split(&all)?;
        got = got_.unwrap();
    }
    if let Some(p) = got.problem {
        return Err(p);
    }
    let mut tids = Vec::new();
    let mut by: Vec<[Vec<Vec<u8>>; 2]> = vec![Default::default(); w.f.threads];
    for (which, list) in [&expected, &entries].into_iter().enumerate() {
        for e in list {
            let path = path_of(e)?;
            let tid = w.owner(&paths, &path).ok_or_else(|| format!("an entry at {:?}", path))?;
            by[tid][which].push(e.clone());
            if which == 1 {
                tids.push(tid);
            }
        }
    }
    stats.order(&tids);
    for (tid, [a, b]) in by.iter().enumerate() {
        ensure!(
            a == b,
            "thread {}: {} entries arrived instead of {}: {} instead of {}",
            tid,
            b.len(),
            a.len(),
            short(b),
            short(a)
        );
    }
    ensure!(got.finals == want.finals, "the final state is another one");
    let log: Vec<u8> = entries.concat();
    ensure!(w.replayed(0, &log)? == got.finals[0], "replaying the log does not give the final state");
    Ok(())
}

// ---------------------------------------------------------------- readers

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Whether sizes are cached, and with what, before the threads begin.
fn shared(r: &mut Rng) -> Shared {
    let mut s = Shared::new(Runtime::new());
    let stale = r.chance(1, 2);
    for k in 0..1 + r.below(if MIRI { 2 } else { 6 }) {
        s.l.push(leaf(r));
        let e = en(r, Runtime::new());
        s.e.push(e);
        if k == 0 && stale {
            s.to_bytes();
        }
    }
    s.set_m(Maybe::some(Runtime::new(), leaf(r)));
    fill_leaf(&mut s.b, r);
    s.v = vec![Some((0..r.below(5) as u32 * 40).collect()), None];
    s
}

/// What a reader sees, in the order that `r` chooses.
fn observe(s: &Shared, t: &Root, u: &Shared, r: &mut Rng, n: usize) -> Vec<(usize, u64)> {
    (0..n)
        .map(|_| {
            let k = r.below(12);
            let v = match k {
                0 => hash(&s.to_bytes()),
                1 => s.compute_size() as u64,
                2 => hash(&t.to_bytes()),
                3 => t.compute_size() as u64,
                4 => hash(s),
                5 => (s == u) as u64,
                6 => (t == t) as u64 + 2 * (*t == t.clone()) as u64,
                7 => hash(&s.clone().to_bytes()),
                8 => {
                    let mut b = Vec::new();
                    let size = s.compute_size_nested(7, true).unwrap();
                    s.serialize_nested(7, true, &mut b).unwrap();
                    assert_eq!(size as usize, b.len());
                    hash(&b)
                }
                9 => {
                    let mut b = Vec::new();
                    for p in [&t.p0, &t.p1] {
                        p.leaves.cache_size();
                        p.leaves.serialize_nested(None, false, &mut b).unwrap();
                    }
                    hash(&b)
                }
                10 => hash(&LogEntryBytes(&t.p0)),
                _ => {
                    let b = t.p1.to_bytes();
                    let x = Part::deserialize(&mut Reader::new(&b[..])).unwrap();
                    (x == t.p1) as u64
                }
            };
            (k, v)
        })
        .collect()
}

/// The bytes of an entry with the value, which is serialized once more there.
struct LogEntryBytes<'a>(&'a Part);

impl<'a> Hash for LogEntryBytes<'a> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        let e = Runtime::new().nested(4).entry_update(self.0);
        e.to_bytes().hash(h)
    }
}

fn readers(seed: u64, threads: usize, n: usize, stats: &mut Stats) -> Res {
    // Twice the same values, so that neither the caches nor the values are the same objects.
    let make = || {
        let mut r = Rng::new(&[seed, 1]);
        let s = shared(&mut r);
        let t = build_root(Runtime::new(), Shape::Mixed, 1, &mut r);
        (s, t)
    };
    let u = shared(&mut Rng::new(&[seed, 1]));
    let run = |s: &Shared, t: &Root, i: u64| observe(s, t, &u, &mut Rng::new(&[seed, 2, i]), n);
    let (s, t) = make();
    let want: Vec<_> = (0..threads as u64).map(|i| run(&s, &t, i)).collect();
    let (s, t) = make();
    // Meanwhile a thread works on a tree with the logger of the values that are read.
    let barrier = Barrier::new(threads + 1);
    let mut got: Vec<Result<_, _>> = Vec::new();
    thread::scope(|sc| {
        let hs: Vec<_> = (0..threads as u64)
            .map(|i| {
                let (run, s, t, barrier) = (&run, &s, &t, &barrier);
                sc.spawn(move || {
                    barrier.wait();
                    catch_unwind(AssertUnwindSafe(|| run(s, t, i))).map_err(|e| message(&*e))
                })
            })
            .collect();
        let rt = t.runtime().clone();
        sc.spawn({
            let barrier = &barrier;
            move || {
                barrier.wait();
                let mut x = Leaf::new(rt);
                fill_leaf(&mut x, &mut Rng::new(&[seed, 3]));
            }
        });
        for h in hs {
            got.push(h.join().unwrap_or_else(|e| Err(message(&*e))));
        }
    });
    for (i, (g, w)) in got.into_iter().zip(&want).enumerate() {
        let g = g.map_err(|m| format!("reader {} panics: {}", i, m))?;
        stats.reads += g.len() as u64;
        for (x, y) in g.iter().zip(w) {
            ensure!(x == y, "reader {} sees {:?} instead of {:?}", i, x, y);
        }
    }
    Ok(())
}

/// Loggers and trees that threads make and drop by themselves, and trees handed over whole.
fn handed_over(seed: u64, threads: usize, stats: &mut Stats) -> Res {
    let make = |i: usize| build_root(Runtime::new(), Shape::List, 1, &mut Rng::new(&[seed, 5, i as u64]));
    let (rt, handle) = Runtime::with_logger_returned(BufferLogger::new());
    let mut r = Rng::new(&[seed, 6]);
    let mut tree = make(0);
    tree.set_runtime(rt.clone());
    let mut want = tree.clone();
    want.set_runtime(Runtime::new());
    let mut log = Vec::new();
    for i in 0..threads {
        // The next thread gets the tree, works on it and returns it; another drops a tree with the same logger.
        let s = r.next();
        let part = |t: &mut Root| {
            let mut r = Rng::new(&[s]);
            for _ in 0..4 {
                t.p0.leaves.push(leaf(&mut r));
                let k = r.below(3);
                t.parts[0].leaves.swap_remove(k);
                t.p1.small.push(r.small() as u8);
            }
        };
        let other = Part::new(rt.clone());
        let part2 = &part;
        tree = thread::scope(|sc| {
            let h = sc.spawn(move || {
                let mut t = tree;
                part2(&mut t);
                t
            });
            sc.spawn(move || drop(other));
            h.join().map_err(|e| message(&*e))
        })?;
        part(&mut want);
        stats.moved += 1;
        log.extend(handle.lock().map_err(|_| "the logger is poisoned")?.pluck_bytes());
        ensure!(tree == want, "a tree handed to thread {} has another state", i);
    }
    let mut copy = make(0);
    copy.replay(&mut Reader::new(&log[..])).map_err(|e| format!("the log is refused: {}", e))?;
    ensure!(copy == want, "the log of a tree that was handed over does not give its state");
    Ok(())
}

// ---------------------------------------------------------------- main

fn iteration(seed: u64, k: u64, stats: &mut Stats) -> Result<String, String> {
    let mut r = Rng::new(&[seed, k]);
    let threads = if MIRI { 2 + r.below(2) } else { 2 + r.below(7) };
    let ops = if MIRI { 3 + r.below(3) } else { 5 + r.below(60) };
    let progress = Progress((0..threads).map(|_| AtomicU64::new(0)).collect());
    let shape = [Shape::Fields, Shape::List, Shape::Map, Shape::Deep, Shape::Mixed][r.below(5)];
    let shape = if MIRI && shape == Shape::Mixed { Shape::List } else { shape };
    let shape = if shape == Shape::Fields && threads > 2 { Shape::Mixed } else { shape };
    let mut f = Features {
        threads,
        ops,
        refuse: 0,
        panics: false,
        pauses: false,
        side: false,
        moves: false,
    };
    let kind = k % 9;
    let (name, forest) = match kind {
        0 => ("plain", false),
        1 => {
            f.side = true;
            ("separate trees in callbacks", false)
        }
        2 => ("a tree for each thread", true),
        3 => {
            f.moves = true;
            ("values moved between threads", false)
        }
        4 => {
            f.refuse = 2 + r.below(6);
            ("refusals", false)
        }
        5 => {
            f.panics = true;
            f.side = r.chance(1, 2);
            ("panics in callbacks", false)
        }
        6 => {
            f.pauses = true;
            ("pauses", false)
        }
        7 => (["BufferLogger", "WriterLogger"][(k / 9 % 2) as usize], false),
        _ => ("readers", false),
    };
    *stats.kinds.entry(name.to_string()).or_default() += 1;
    let mut w = World { seed: r.next(), f, shape, forest, progress: &progress, protos: Vec::new(), sides: Vec::new() };
    if kind != 8 {
        w.fill();
    }
    let at = |e: String| format!("{} ({:?}, {:?}): {}", name, shape, f, e);
    match kind {
        7 => own_loggers(&w, k / 9 % 2 == 1, stats).map_err(at)?,
        8 => {
            readers(w.seed, threads, if MIRI { 4 } else { 30 }, stats).map_err(at)?;
            handed_over(w.seed, if MIRI { 1 } else { 3 }, stats).map_err(at)?;
        }
        _ => recorded(&w, stats).map_err(at)?,
    }
    if f.moves {
        stats.moved += 1;
    }
    stats.iterations += 1;
    Ok(name.to_string())
}

fn main() {
    can_be_shared();
    let args: Vec<String> = std::env::args().collect();
    let n = |name: &str, d: u64| args.iter().position(|a| a == name).map_or(d, |i| args[i + 1].parse().unwrap());
    let (seed, from, to, cap) = (n("--seed", 1), n("--from", 0), n("--to", 9), n("--cap", 0));
    std::panic::set_hook(Box::new(|_| ()));
    let at = Arc::new(AtomicU64::new(0));
    if !MIRI {
        let at = at.clone();
        let limit = n("--hang", 60);
        thread::spawn(move || {
            let (mut last, mut since) = (u64::MAX, Instant::now());
            loop {
                thread::sleep(Duration::from_millis(200));
                let now = at.load(Ordering::Relaxed);
                if now != last {
                    last = now;
                    since = Instant::now();
                } else if since.elapsed().as_secs() > limit {
                    println!("FAIL {} threads wait for each other for ever, or one does not end", now);
                    std::process::exit(97);
                }
            }
        });
    }
    let mut stats = Stats::default();
    let begin = Instant::now();
    for k in from..to {
        at.store(k, Ordering::Relaxed);
        match catch_unwind(AssertUnwindSafe(|| iteration(seed, k, &mut stats))) {
            Ok(Ok(_)) => (),
            Ok(Err(m)) => {
                println!("FAIL {} {}", k, m);
                std::process::exit(1);
            }
            Err(e) => {
                println!("FAIL {} a panic: {}", k, message(&*e));
                std::process::exit(1);
            }
        }
        if cap > 0 && begin.elapsed().as_secs() > cap {
            break;
        }
    }
    stats.print();
}
