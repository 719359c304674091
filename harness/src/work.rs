//! C24: how often parts are measured, written, read and moved, seen by leaves that count.
use std::{cell::RefCell, collections::HashMap, io};

use steit::{
    de::{Deserialize, Reader},
    log::{loggers::BufferLogger, LogEntryKind},
    rt::{Runtime, SizeCache},
    ser::Serialize,
    state::State,
    steit_derive,
    types::{List, Map},
    wire_fmt::{HasWireType, WireType},
};

use crate::{ensure, mon::*, rng::*};

/// What happened to a leaf.
#[derive(Clone, Copy, Default, PartialEq, Debug)]
struct Seen {
    measured: u32,
    written: u32,
    read: u32,
    moved: u32,
}

thread_local! {
    static SEEN: RefCell<HashMap<u32, Seen>> = RefCell::new(HashMap::new());
}

fn see(id: u32, f: impl FnOnce(&mut Seen)) {
    if id > 0 {
        SEEN.with(|s| f(s.borrow_mut().entry(id).or_default()));
    }
}

fn take() -> HashMap<u32, Seen> {
    SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()))
}

/// A leaf, written as a varint; the number tells it from all others.
#[derive(Clone, Copy, PartialEq, Eq, Default, Debug)]
pub struct P(u32);

impl HasWireType for P {
    const WIRE_TYPE: WireType = WireType::Varint;
}

impl Serialize for P {
    fn compute_size(&self) -> u32 {
        see(self.0, |s| s.measured += 1);
        self.0.compute_size()
    }
    fn serialize_cached(&self, writer: &mut impl io::Write) -> io::Result<()> {
        see(self.0, |s| s.written += 1);
        self.0.serialize_cached(writer)
    }
    fn size_cache(&self) -> Option<&SizeCache> {
        None
    }
    fn is_omissible(&self, _: Option<u32>) -> bool {
        self.0 == 0
    }
}

impl Deserialize for P {
    fn merge(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
        self.0.merge(reader)?;
        see(self.0, |s| s.read += 1);
        Ok(())
    }
}

impl State for P {
    fn with_runtime(_: Runtime) -> Self {
        Self::default()
    }
    fn runtime(&self) -> &Runtime {
        panic!("a leaf has no runtime")
    }
    fn set_runtime(&mut self, _: Runtime) {
        see(self.0, |s| s.moved += 1);
    }
    fn handle_update(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
        *self = Self::deserialize(reader)?;
        Ok(())
    }
    fn handle(&mut self, path: impl Iterator<Item = u32>, kind: LogEntryKind, _: Option<u32>, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
        if path.count() > 0 || kind != LogEntryKind::Update {
            return Err(io::ErrorKind::InvalidData.into());
        }
        self.handle_update(reader)
    }
}

/// A leaf of a length that is only known by measuring.
#[derive(Clone, Copy, PartialEq, Eq, Default, Debug)]
pub struct PS(u32);

impl PS {
    fn text(&self) -> String {
        if self.0 == 0 { String::new() } else { format!("{:0>1$}", self.0, self.0 as usize % 9) }
    }
}

impl HasWireType for PS {
    const WIRE_TYPE: WireType = WireType::Sized;
}

impl Serialize for PS {
    fn compute_size(&self) -> u32 {
        see(self.0, |s| s.measured += 1);
        self.text().len() as u32
    }
    fn serialize_cached(&self, writer: &mut impl io::Write) -> io::Result<()> {
        see(self.0, |s| s.written += 1);
        writer.write_all(self.text().as_bytes())
    }
    fn size_cache(&self) -> Option<&SizeCache> {
        None
    }
}

impl Deserialize for PS {
    fn merge(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
        let mut s = String::new();
        io::Read::read_to_string(reader, &mut s)?;
        self.0 = s.parse().unwrap_or(0);
        see(self.0, |s| s.read += 1);
        Ok(())
    }
}

#[steit_derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
#[steit(no_meta)]
pub enum W {
    #[steit(tag = 0)]
    End,
    #[steit(tag = 1)]
    Leaf(#[steit(tag = 0)] P, #[steit(tag = 1)] PS),
    #[steit(tag = 2)]
    Boxed { #[steit(tag = 0)] a: P, #[steit(tag = 1)] next: Box<W> },
    #[steit(tag = 3)]
    Opt { #[steit(tag = 0)] next: Option<Box<W>>, #[steit(tag = 1)] a: PS },
    #[steit(tag = 4)]
    Many { #[steit(tag = 0)] next: Vec<W> },
    #[steit(tag = 5)]
    Struct { #[steit(tag = 0)] next: Box<WS> },
    #[steit(tag = 6)]
    Un { #[steit(tag = 0)] next: Box<WN> },
    #[steit(tag = 7)]
    Tup { #[steit(tag = 0)] next: (P, Box<W>) },
    #[steit(tag = 8)]
    Hash { #[steit(tag = 0)] next: HashMap<u32, W> },
    #[steit(tag = 9)]
    Arr { #[steit(tag = 0)] last: Box<W>, #[steit(tag = 1)] next: [P; 3] },
}

#[steit_derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
#[steit(no_meta)]
pub struct WS {
    #[steit(tag = 0)]
    a: PS,
    #[steit(tag = 1)]
    next: W,
    #[steit(tag = 2)]
    b: P,
}

#[steit_derive(Serialize, Deserialize, PartialEq, Clone, Debug)]
#[steit(no_meta, no_size_cache)]
pub struct WN {
    #[steit(tag = 0)]
    a: P,
    #[steit(tag = 1)]
    next: W,
}

#[steit_derive(State, PartialEq, Clone, Debug)]
#[steit(no_meta)]
pub struct T {
    #[steit(tag = 0)]
    a: P,
    #[steit(tag = 1)]
    list: List<T>,
    #[steit(tag = 2)]
    map: Map<u16, T>,
    #[steit(tag = 3)]
    leaves: List<P>,
    #[steit(tag = 4)]
    table: Map<u32, P>,
    #[steit(tag = 5)]
    var: V,
}

#[steit_derive(State, PartialEq, Clone, Debug)]
#[steit(no_meta)]
pub enum V {
    #[steit(tag = 0)]
    Nothing,
    #[steit(tag = 1)]
    One { #[steit(tag = 0)] a: P, #[steit(tag = 1)] sub: List<T> },
    #[steit(tag = 2)]
    Two { #[steit(tag = 0)] leaves: Map<u8, P>, #[steit(tag = 1)] b: P },
}

/// How many of the things around a leaf do not remember their size.
type Levels = HashMap<u32, u32>;

struct Make<'a> {
    r: &'a mut Rng,
    next: u32,
    levels: Levels,
    left: usize,
    tight: bool,
}

impl Make<'_> {
    fn id(&mut self, u: u32) -> u32 {
        self.next += 1;
        self.levels.insert(self.next, u);
        self.next
    }
    fn p(&mut self, u: u32) -> P {
        P(self.id(u))
    }
    fn ps(&mut self, u: u32) -> PS {
        PS(self.id(u))
    }
    fn w(&mut self, depth: usize, u: u32) -> W {
        let size_cache = SizeCache::new();
        if depth == 0 || self.left == 0 {
            return match self.r.below(3) {
                0 => W::End { size_cache },
                _ => W::Leaf(self.p(u), self.ps(u), size_cache),
            };
        }
        self.left -= 1;
        let d = depth - 1;
        match if self.tight { *self.r.pick(&[0, 0, 3, 3, 7]) } else { self.r.below(8) } {
            0 => W::Boxed { a: self.p(u), next: Box::new(self.w(d, u)), size_cache },
            1 => {
                let next = if self.r.chance(1, 12) { None } else { Some(Box::new(self.w(d, u + 1))) };
                W::Opt { next, a: self.ps(u), size_cache }
            }
            2 => {
                let n = *self.r.pick(&[0, 1, 1, 1, 2, 3, 8]);
                W::Many { next: (0..n).map(|i| self.w(if i == 0 { d } else { d.min(2) }, u + 1)).collect(), size_cache }
            }
            3 => W::Struct { next: Box::new(WS { a: self.ps(u), next: self.w(d, u), b: self.p(u), size_cache: SizeCache::new() }), size_cache },
            4 => W::Un { next: Box::new(WN { a: self.p(u + 1), next: self.w(d, u + 1) }), size_cache },
            5 => W::Tup { next: (self.p(u + 1), Box::new(self.w(d, u + 1))), size_cache },
            6 => {
                let n = *self.r.pick(&[0, 1, 1, 1, 2, 4]);
                W::Hash { next: (0..n).map(|i| (i, self.w(if i == 0 { d } else { d.min(2) }, u + 1))).collect(), size_cache }
            }
            _ => {
                let next = [self.p(u + 1), self.p(u + 1), self.p(u + 1)];
                W::Arr { last: Box::new(self.w(d, u)), next, size_cache }
            }
        }
    }
    /// A state of its own.
    fn t(&mut self, depth: usize) -> T {
        let mut t = T::default();
        t.set_a(self.p(0));
        if depth == 0 || self.left == 0 {
            return t;
        }
        self.left -= 1;
        let d = depth - 1;
        for _ in 0..*self.r.pick(&[1, 1, 1, 2, 3]) {
            match self.r.below(6) {
                0 | 1 => {
                    let x = self.t(d);
                    t.list.push(x);
                }
                2 => {
                    let (k, x) = (self.key(), self.t(d));
                    t.map.insert(k as u16, x);
                }
                3 => {
                    let x = self.p(0);
                    t.leaves.push(x);
                }
                4 => {
                    let (k, x) = (self.key(), self.p(0));
                    t.table.insert(k, x);
                }
                _ => {
                    let mut l = List::default();
                    l.push(self.t(d));
                    t.var.set_one_sub(l);
                    let x = self.p(0);
                    t.var.set_one_a(x);
                }
            }
        }
        t
    }
    fn key(&mut self) -> u32 {
        *self.r.pick(&[0u32, 1, 2, 3, 4, 200, 60000])
    }
}

fn ids_v(v: &V, o: &mut Vec<u32>) {
    match v {
        V::Nothing { .. } => (),
        V::One { a, sub, .. } => {
            o.push(a.0);
            sub.iter().for_each(|t| ids_t(t, o));
        }
        V::Two { leaves, b, .. } => {
            o.push(b.0);
            leaves.iter().for_each(|(_, p)| o.push(p.0));
        }
    }
}

fn ids_t(t: &T, o: &mut Vec<u32>) {
    o.push(t.a.0);
    t.list.iter().for_each(|t| ids_t(t, o));
    t.map.iter().for_each(|(_, t)| ids_t(t, o));
    o.extend(t.leaves.iter().map(|p| p.0));
    t.table.iter().for_each(|(_, p)| o.push(p.0));
    ids_v(&t.var, o);
}

fn ids(t: &T) -> Vec<u32> {
    let mut o = vec![];
    ids_t(t, &mut o);
    o.retain(|&x| x > 0);
    o
}

const SLACK: u32 = 6;

/// What may happen to a leaf: `u` is as in `Levels`.
#[derive(Clone, Copy, Debug)]
enum May {
    Encode(u32),
    Measure(u32),
    Read,
    Add,
    Move,
    Nothing,
}

fn judge(what: &str, id: u32, s: Seen, may: May) -> Res {
    let bound = |u: u32| SLACK + 4 * u;
    let (m, w, r, v) = match may {
        May::Encode(u) => (bound(u), (1, 1), (0, 0), 0),
        May::Measure(u) => (bound(u), (0, 0), (0, 0), 0),
        May::Read => (0, (0, 0), (1, 1), 3),
        May::Add => (bound(0), (1, 1), (0, 0), 4),
        May::Move => (0, (0, 0), (0, 0), 3),
        May::Nothing => (0, (0, 0), (0, 0), 0),
    };
    ensure!(s.measured <= m, "{}: leaf {} is measured {} times, {:?} allows {}", what, id, s.measured, may, m);
    ensure!(s.written >= w.0 && s.written <= w.1, "{}: leaf {} is written {} times, {:?}", what, id, s.written, may);
    ensure!(s.read >= r.0 && s.read <= r.1, "{}: leaf {} is read {} times, {:?}", what, id, s.read, may);
    ensure!(s.moved <= v, "{}: leaf {} is moved {} times, {:?} allows {}", what, id, s.moved, may, v);
    Ok(())
}

/// Judges all leaves given, and that no other leaf was touched.
fn judge_all(what: &str, may: impl IntoIterator<Item = (u32, May)>) -> Result<u64, String> {
    let (mut seen, mut n) = (take(), 0);
    for (id, may) in may {
        judge(what, id, seen.remove(&id).unwrap_or_default(), may)?;
        n += 1;
    }
    for (id, s) in seen {
        judge(what, id, s, May::Nothing)?;
    }
    Ok(n)
}

pub fn c24(c: &mut Case) -> Res {
    take();
    if c.r.chance(1, 2) {
        codec(c)
    } else {
        history(c)
    }
}

fn codec(c: &mut Case) -> Res {
    let mut r = c.r.clone();
    let depth = *r.pick(&[1, 3, 6, 10, 16, 24]);
    let tight = r.chance(1, 3);
    let mut mk = Make { r: &mut r, next: 0, levels: HashMap::new(), left: 60, tight };
    let (w, levels) = (mk.w(depth, 0), mk.levels);
    let all = |f: fn(u32) -> May| levels.iter().map(|(&id, &u)| (id, f(u))).collect::<Vec<_>>();
    let deepest = levels.values().max().copied().unwrap_or(0);
    take();
    let bytes = w.to_bytes();
    let mut n = judge_all("to_bytes", all(May::Encode))?;
    w.compute_size();
    n += judge_all("compute_size", all(May::Measure))?;
    let size = w.cache_size();
    n += judge_all("cache_size", all(May::Measure))?;
    ensure!(size as usize == bytes.len(), "cache_size is {} for {} bytes", size, bytes.len());
    ensure!(w.cached_size() == size, "cached_size is {}, not {}", w.cached_size(), size);
    n += judge_all("cached_size", vec![])?;
    w.compute_size_nested(5, true).unwrap();
    n += judge_all("compute_size_nested", all(May::Measure))?;
    let mut again = vec![];
    w.serialize_cached(&mut again).unwrap();
    n += judge_all("serialize_cached", all(May::Encode))?;
    ensure!(again == bytes, "serialize_cached gives {:?} instead of {:?}", again, bytes);
    again.clear();
    w.serialize_nested(7, false, &mut again).unwrap();
    n += judge_all("serialize_nested", all(May::Encode))?;
    let x = W::deserialize(&mut Reader::new(&bytes[..])).map_err(|e| format!("{:?}: {}", w, e))?;
    n += judge_all("deserialize", all(|_| May::Read))?;
    ensure!(x == w, "{:?} is read as {:?}", w, x);
    judge_all("==", vec![])?;
    let _ = (x.clone(), format!("{:?}", x));
    judge_all("clone", vec![])?;
    c.count("leaves of encoded values", levels.len() as u64);
    c.count("deepest nesting without caches", 0);
    let d = c.st.counters.get_mut("deepest nesting without caches").unwrap();
    *d = (*d).max(deepest as u64);
    c.count("leaf observations", n);
    c.eval(if levels.len() > 1 { Some(fp(&bytes)) } else { None });
    c.sample(|| format!("a value of {} leaves, {} levels without a size cache", levels.len(), deepest));
    Ok(())
}

/// A random state below (or) `t`.
fn node<'a>(t: &'a mut T, r: &mut Rng, depth: &mut u64) -> &'a mut T {
    if r.chance(1, 6) {
        return t;
    }
    let start = r.below(3);
    for k in 0..3 {
        match (start + k) % 3 {
            0 if !t.list.is_empty() => {
                let i = r.below(t.list.len());
                *depth += 1;
                return node(t.list.get_mut(i).unwrap(), r, depth);
            }
            1 if t.map.len() > 0 => {
                let ks: Vec<u16> = t.map.iter().map(|(k, _)| k).collect();
                *depth += 1;
                return node(t.map.get_mut(r.pick(&ks)).unwrap(), r, depth);
            }
            2 if matches!(&t.var, V::One { sub, .. } if !sub.is_empty()) => {
                // Borrowed anew for the sake of the borrow checker.
                if let V::One { sub, .. } = &mut t.var {
                    let i = r.below(sub.len());
                    *depth += 1;
                    return node(sub.get_mut(i).unwrap(), r, depth);
                }
                unreachable!()
            }
            _ => (),
        }
    }
    t
}

fn history(c: &mut Case) -> Res {
    let mut r = c.r.clone();
    let (rt, logger) = Runtime::with_logger_returned(BufferLogger::new());
    let mut root = T::new(rt);
    let mut mk = Make { r: &mut r, next: 0, levels: HashMap::new(), left: 40, tight: false };
    let d = *mk.r.pick(&[2usize, 8, 20]);
    let first = mk.t(d);
    root.list.push(first);
    let mut replica = T::default();
    logger.lock().unwrap().clear();
    let snap = root.to_bytes();
    replica.merge(&mut Reader::new(&snap[..])).map_err(|e| e.to_string())?;
    let steps = *mk.r.pick(&[4, 10, 25]);
    let mut n = 0;
    for step in 0..steps {
        mk.left = 12;
        let d = *mk.r.pick(&[0usize, 1, 3, 8]);
        // What might be put somewhere.
        let (new, p, k) = (mk.t(d), mk.p(0), mk.key());
        let put = ids(&new);
        let mut depth = 0;
        let which = mk.r.below(16);
        let t = node(&mut root, mk.r, &mut depth);
        let mut may: Vec<(u32, May)> = vec![];
        let mut new_ids = vec![];
        let gone = |ids: Vec<u32>| ids.into_iter().map(|i| (i, May::Move));
        take();
        let what = match which {
            0 | 1 => {
                t.set_a(p);
                new_ids = vec![p.0];
                "set_a"
            }
            2 | 3 => {
                t.list.push(new);
                new_ids = put;
                "push"
            }
            4 => {
                t.leaves.push_with(|_| p);
                new_ids = vec![p.0];
                "push_with of a leaf"
            }
            5 => {
                if let Some(x) = t.list.pop() {
                    may.extend(gone(ids(&x)));
                }
                "pop"
            }
            6 | 7 => {
                let (i, len) = (mk.r.below(t.list.len() + 1), t.list.len());
                let last = t.list.last().map(ids).unwrap_or_default();
                if let Some(x) = t.list.swap_remove(i) {
                    may.extend(gone(ids(&x)));
                    if i + 1 < len {
                        new_ids = last;
                    }
                }
                "swap_remove"
            }
            8 | 9 => {
                if let Some(x) = t.map.insert(k as u16, new) {
                    may.extend(gone(ids(&x)));
                }
                new_ids = put;
                "insert"
            }
            10 => {
                if let Some(x) = t.map.remove(&(k as u16)) {
                    may.extend(gone(ids(&x)));
                }
                "remove"
            }
            11 => {
                if let Some(x) = t.table.insert_with(k, |_| p) {
                    may.push((x.0, May::Move));
                }
                new_ids = vec![p.0];
                "insert_with of a leaf"
            }
            12 => {
                t.var.set_one_a(p);
                new_ids = vec![p.0];
                "a setter of a variant"
            }
            13 => {
                t.var.set_two_b(p);
                new_ids = vec![p.0];
                "a setter of another variant"
            }
            14 => {
                let i = mk.r.below(t.leaves.len() + 1);
                let last = t.leaves.last().copied();
                let len = t.leaves.len();
                if let Some(x) = t.leaves.swap_remove(i) {
                    may.push((x.0, May::Move));
                    if i + 1 < len {
                        new_ids = vec![last.unwrap().0];
                    }
                }
                "swap_remove of a leaf"
            }
            _ => {
                let _ = (t.list.get_mut(0).is_some(), t.map.get(&0).is_some(), t.leaves.iter().count(), t.table.contains(&1));
                let _ = t.list.iter_mut().count() + t.map.iter_mut().count();
                "looking at it"
            }
        };
        may.extend(new_ids.iter().map(|&i| (i, May::Add)));
        n += judge_all(what, may)?;
        let log = logger.lock().unwrap().pluck_bytes();
        judge_all("taking the log", vec![])?;
        replica.replay(&mut Reader::new(&log[..])).map_err(|e| format!("{}: {}", what, e))?;
        n += judge_all(&format!("replay of {}", what), new_ids.iter().map(|&i| (i, May::Read)))?;
        ensure!(replica == root, "{}: the replica differs", what);
        c.count(what, 1);
        c.eval(if log.is_empty() { None } else { Some(fp(&log)) });
        let all = ids(&root);
        if step % 5 == 4 {
            let bytes = root.to_bytes();
            n += judge_all("to_bytes of a state", all.iter().map(|&i| (i, May::Encode(0))))?;
            let x = T::deserialize(&mut Reader::new(&bytes[..])).map_err(|e| e.to_string())?;
            n += judge_all("deserialize of a state", all.iter().map(|&i| (i, May::Read)))?;
            ensure!(x == root, "{}: read differently", what);
        }
        if step % 7 == 6 {
            let rt = root.runtime().clone();
            take();
            root.set_runtime(rt);
            n += judge_all("set_runtime", all.iter().map(|&i| (i, May::Move)))?;
        }
        let most = c.st.counters.entry("deepest node changed".to_string()).or_insert(0);
        *most = (*most).max(depth);
        c.count("leaves in the tree of a change", all.len() as u64);
    }
    c.count("leaf observations", n);
    c.sample(|| format!("{} changes of a tree with {} leaves in the end", steps, ids(&root).len()));
    Ok(())
}
