//! Boundary-biased generators of values, operations, entries and bytes.
use crate::{model::*, rng::Rng};

pub struct G<'a> {
    pub r: &'a mut Rng,
    /// How many nodes may still be made.
    pub budget: i32,
}

pub const HOWS: [How; 7] =
    [How::Plain, How::Plain, How::PlainShared, How::With, How::WithOps, How::WithOps, How::WithForeign];

pub fn int_u(r: &mut Rng, bits: u32) -> u64 {
    let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let x = match r.below(8) {
        0 => 0,
        1 => r.below(4) as u64,
        2 => max - r.below(2) as u64,
        3 | 4 => {
            // Around the borders of the varint sizes.
            let k = 7 * (1 + r.below((bits as usize + 6) / 7)) as u32;
            let p = if k >= 64 { u64::MAX } else { 1u64 << k };
            p.wrapping_add(r.below(3) as u64).wrapping_sub(1)
        }
        5 => 1u64.checked_shl(r.below(bits as usize) as u32).unwrap_or(1),
        6 => r.below(300) as u64,
        _ => r.next() >> r.below(64),
    };
    x & max
}

pub fn int_i(r: &mut Rng, bits: u32) -> i64 {
    let min = if bits == 64 { i64::MIN } else { -(1i64 << (bits - 1)) };
    match r.below(10) {
        0 => min,
        1 => -(min + 1),
        2 => -1,
        3 => r.below(5) as i64 - 2,
        // Zigzag of an interesting unsigned value.
        _ => unzigzag(int_u(r, bits)),
    }
}

pub fn string(r: &mut Rng) -> String {
    if let Some(n) = r.take_big() {
        return "x".repeat(n);
    }
    let n = match r.below(40) {
        0..=7 => 0,
        8..=29 => 1 + r.below(8),
        30..=33 => 20 + r.below(60),
        34 => 63 + r.below(3),
        35 | 36 => 126 + r.below(4),
        37 => 250 + r.below(20),
        38 if r.chance(1, 6) => 16380 + r.below(8),
        _ => 3,
    };
    let alpha: &[char] = match r.below(4) {
        0 => &['a', 'b', 'z', ' ', '"', '\\', '\n'],
        1 => &['é', 'ß', 'a', '中', '🎲'],
        2 => &['\0', '\u{7f}', '\u{80}', '\u{10ffff}', '\u{d7ff}'],
        _ => &['x', 'y'],
    };
    (0..n).map(|_| *r.pick(alpha)).collect()
}

pub fn blob(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| if r.chance(1, 4) { *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff]) } else { r.next() as u8 }).collect()
}

pub fn map_key(r: &mut Rng, k: KeyK) -> u32 {
    match k {
        KeyK::Custom => *r.pick(&CUSTOM_KEYS),
        KeyK::U8 => match r.below(4) {
            0 => *r.pick(&[0, 15, 16, 31, 32, 127, 128, 255]),
            _ => r.below(6) as u32,
        },
        KeyK::U16 => match r.below(4) {
            0 => *r.pick(&[0, 15, 16, 255, 256, 2047, 2048, 65535]),
            1 => r.below(65536) as u32,
            _ => r.below(6) as u32,
        },
        KeyK::U32 => match r.below(4) {
            0 => *r.pick(&[0, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, FIELD_MAX - 1, FIELD_MAX]),
            1 => r.next() as u32 & FIELD_MAX,
            _ => r.below(6) as u32,
        },
    }
}

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, budget: i32) -> Self {
        G { r, budget }
    }

    fn len(&mut self, elem: &Node) -> usize {
        if self.budget <= 0 {
            return 0;
        }
        let cheap = matches!(elem.strip(), Node::Int { .. } | Node::Bool);
        if self.r.big != 0 {
            if let Some(n) = self.r.take_big() {
                return if cheap { n.min(70000) } else { n.min(300) };
            }
        }
        match self.r.below(24) {
            0..=4 => 0,
            5..=11 => 1,
            12..=17 => 2,
            18..=20 => 3,
            21 | 22 => 4 + self.r.below(4),
            _ if cheap => *self.r.pick(&[62, 64, 127, 128, 130, 200]),
            _ => 9,
        }
    }

    pub fn val(&mut self, n: &Node) -> V {
        self.budget -= 1;
        match n {
            Node::Int { signed: false, bits } => V::U(int_u(self.r, *bits)),
            Node::Int { signed: true, bits } => V::I(int_i(self.r, *bits)),
            Node::Bool => V::B(self.r.chance(1, 2)),
            Node::Str => V::S(string(self.r)),
            Node::Bytes => {
                if let Some(n) = self.r.take_big() {
                    return V::By(vec![7; n]);
                }
                let k = self.r.below(30);
                let n = match k {
                    0..=5 => 0,
                    6..=24 => 1 + self.r.below(10),
                    25..=27 => 126 + self.r.below(4),
                    28 => 300,
                    _ if self.r.chance(1, 8) => 16383 + self.r.below(3),
                    _ => 65,
                };
                V::By(blob(self.r, n))
            }
            Node::Vec(t) | Node::List(t) => {
                let k = self.len(t);
                V::Seq((0..k).map(|_| self.val(t)).collect())
            }
            Node::Arr(t, k) => V::Seq((0..*k).map(|_| self.val(t)).collect()),
            Node::Tup(ts) => V::Seq(ts.iter().map(|t| self.val(t)).collect()),
            Node::Hm(k, t) => {
                let m = self.len(t).min(300);
                let mut out: Vec<(V, V)> = vec![];
                for _ in 0..m {
                    let a = self.val(k);
                    let b = self.val(t);
                    if !out.iter().any(|x| x.0 == a) {
                        out.push((a, b));
                    }
                }
                V::Hm(out)
            }
            Node::Opt(t) => {
                if self.budget <= 0 || self.r.chance(1, 3) {
                    V::Opt(None)
                } else {
                    V::Opt(Some(Box::new(self.val(t))))
                }
            }
            Node::Boxed(t) => self.val(t),
            Node::Map(k, t) => {
                let m = self.len(t).min(300);
                let mut out: Vec<(u32, V)> = vec![];
                for _ in 0..m {
                    let a = map_key(self.r, *k);
                    if !out.iter().any(|x| x.0 == a) {
                        let b = self.val(t);
                        out.push((a, b));
                    }
                }
                V::Map(out)
            }
            Node::St(d) => V::St(self.fields(&d.fields)),
            Node::En(d) => {
                let i = if self.budget <= 0 { d.default_idx() } else { self.r.below(d.variants.len()) };
                V::En(i, self.fields(&d.variants[i].fields))
            }
        }
    }

    fn fields(&mut self, fs: &[FieldD]) -> Vec<V> {
        let sparse = self.r.chance(1, 4);
        fs.iter()
            .map(|f| {
                if self.budget <= 0 || (sparse && self.r.chance(2, 3)) {
                    default_v(&f.ty)
                } else {
                    self.val(&f.ty)
                }
            })
            .collect()
    }

    /// A state to operate on, by a random walk from the root.
    pub fn target(&mut self, n: &Node, v: &V) -> Vec<Step> {
        let mut at = vec![];
        let (mut n, mut v): (&Node, &V) = (n.strip(), v);
        loop {
            let mut kids: Vec<(Step, &Node, &V)> = vec![];
            match (n, v) {
                (Node::St(d), V::St(xs)) => {
                    for (i, f) in d.fields.iter().enumerate() {
                        if !f.no_state && f.ty.is_state_compound() {
                            kids.push((Step::F(i), (f.ty.0)(), &xs[i]));
                        }
                    }
                }
                (Node::En(d), V::En(j, xs)) => {
                    for (i, f) in d.variants[*j].fields.iter().enumerate() {
                        if !f.no_state && f.ty.is_state_compound() {
                            kids.push((Step::VF(*j, i), (f.ty.0)(), &xs[i]));
                        }
                    }
                }
                (Node::List(t), V::Seq(xs)) if t.is_state_compound() => {
                    for (i, x) in xs.iter().enumerate() {
                        kids.push((Step::I(i, self.r.below(4) as u8), (t.0)(), x));
                    }
                }
                (Node::Map(_, t), V::Map(xs)) if t.is_state_compound() => {
                    for (k, x) in xs {
                        kids.push((Step::K(*k, self.r.below(4) as u8), (t.0)(), x));
                    }
                }
                _ => (),
            }
            // Wide structs are left alone less often.
            let stop = match n {
                _ if self.r.dive => 3,
                Node::St(d) if d.fields.len() > 5 => 15,
                _ => 40,
            };
            let most = if self.r.dive { 80 } else { 12 };
            if kids.is_empty() || at.len() > most || self.r.chance(stop, 100) {
                return at;
            }
            let (s, n2, v2) = kids[self.r.below(kids.len())];
            at.push(s);
            n = n2.strip();
            v = v2;
        }
    }

    pub fn op(&mut self, n: &Node, v: &V, hows: &[How]) -> (Vec<Step>, Op) {
        for _ in 0..4 {
            let at = self.target(n, v);
            let (n2, v2) = locate(n, v, &at);
            let op = self.op_at(n2, v2, hows);
            if !matches!(op, Op::Read(_)) || self.r.chance(1, 4) {
                return (at, op);
            }
        }
        let at = self.target(n, v);
        let (n2, v2) = locate(n, v, &at);
        let op = self.op_at(n2, v2, hows);
        (at, op)
    }

    fn new_val(&mut self, t: &Node, old: Option<&V>) -> V {
        match (self.r.below(12), old) {
            (0, _) => default_v(t),
            // A change of a single leaf only.
            (1 | 2, Some(v)) => {
                let mut v = v.clone();
                self.tweak(t, &mut v);
                v
            }
            (3, Some(v)) => v.clone(),
            _ => self.val(t),
        }
    }

    pub fn op_at(&mut self, n: &Node, v: &V, hows: &[How]) -> Op {
        let how = *self.r.pick(hows);
        if self.r.chance(1, 14) {
            return Op::Read(self.r.below(5) as u8);
        }
        match (n.strip(), v) {
            (Node::St(d), V::St(xs)) if !xs.is_empty() => {
                let i = self.r.below(xs.len());
                let x = self.new_val(&d.fields[i].ty, Some(&xs[i]));
                Op::Set(i, x, how)
            }
            (Node::En(d), V::En(j, xs)) => {
                let j2 = if self.r.chance(1, 2) { *j } else { self.r.below(d.variants.len()) };
                let fs = &d.variants[j2].fields;
                if fs.is_empty() {
                    return Op::Read(0);
                }
                let i = self.r.below(fs.len());
                let x = self.new_val(&fs[i].ty, if j2 == *j { Some(&xs[i]) } else { None });
                Op::SetV(j2, i, x, how)
            }
            (Node::List(t), V::Seq(xs)) => {
                let full = xs.len() > 8;
                match self.r.below(10) {
                    0 | 1 => Op::Pop,
                    2 | 3 => {
                        let k = xs.len();
                        Op::SwapRemove(match self.r.below(8) {
                            0 => k,
                            1 => k + self.r.below(3),
                            2 => k.saturating_sub(1),
                            _ => self.r.below(k),
                        })
                    }
                    4 | 5 if full => Op::SwapRemove(self.r.below(xs.len())),
                    6 if full => Op::Pop,
                    _ => {
                        let x = self.val(t);
                        Op::Push(x, how)
                    }
                }
            }
            (Node::Map(k, t), V::Map(xs)) => {
                let key = if !xs.is_empty() && self.r.chance(1, 2) {
                    xs[self.r.below(xs.len())].0
                } else {
                    map_key(self.r, *k)
                };
                let limit = if xs.len() > 8 { 6 } else { 3 };
                if self.r.below(10) < limit {
                    Op::Remove(key)
                } else {
                    let old = xs.iter().find(|x| x.0 == key).map(|x| x.1.clone());
                    let x = self.new_val(t, old.as_ref());
                    Op::Insert(key, x, how)
                }
            }
            _ => Op::Read(self.r.below(5) as u8),
        }
    }

    /// Changes one place inside of `v`.
    pub fn tweak(&mut self, n: &Node, v: &mut V) {
        match (n, v) {
            (Node::Boxed(t), v) => self.tweak(t, v),
            (Node::Bool, V::B(b)) => *b = !*b,
            (Node::Vec(t), V::Seq(xs)) | (Node::List(t), V::Seq(xs)) => match self.r.below(5) {
                0 if !xs.is_empty() => drop(xs.pop()),
                1 => {
                    let x = self.val(t);
                    xs.push(x)
                }
                2 if xs.len() > 1 => {
                    let i = self.r.below(xs.len() - 1);
                    xs.swap(i, i + 1)
                }
                _ if !xs.is_empty() => {
                    let i = self.r.below(xs.len());
                    self.tweak(t, &mut xs[i])
                }
                _ => {
                    let x = default_v(t);
                    xs.push(x)
                }
            },
            (Node::Arr(t, _), V::Seq(xs)) => {
                let i = self.r.below(xs.len());
                self.tweak(t, &mut xs[i])
            }
            (Node::Tup(ts), V::Seq(xs)) => {
                let i = self.r.below(xs.len());
                self.tweak(&ts[i], &mut xs[i])
            }
            (Node::Opt(t), V::Opt(x)) => match x {
                None => *x = Some(Box::new(if self.r.chance(1, 2) { default_v(t) } else { self.val(t) })),
                Some(_) if self.r.chance(1, 3) => *x = None,
                Some(y) => self.tweak(t, y),
            },
            (Node::Hm(k, t), V::Hm(xs)) => match self.r.below(3) {
                0 if !xs.is_empty() => drop(xs.pop()),
                1 if !xs.is_empty() => {
                    let i = self.r.below(xs.len());
                    self.tweak(t, &mut xs[i].1)
                }
                _ => {
                    let a = self.val(k);
                    let b = self.val(t);
                    if !xs.iter().any(|x| x.0 == a) {
                        xs.push((a, b));
                    }
                }
            },
            (Node::Map(k, t), V::Map(xs)) => match self.r.below(4) {
                0 if !xs.is_empty() => drop(xs.pop()),
                1 | 2 if !xs.is_empty() => {
                    let i = self.r.below(xs.len());
                    self.tweak(t, &mut xs[i].1)
                }
                _ => {
                    let a = map_key(self.r, *k);
                    let b = self.val(t);
                    if !xs.iter().any(|x| x.0 == a) {
                        xs.push((a, b));
                    }
                }
            },
            (Node::St(d), V::St(xs)) if !xs.is_empty() => {
                let i = self.r.below(xs.len());
                self.tweak(&d.fields[i].ty, &mut xs[i])
            }
            (Node::En(d), v) => {
                if let V::En(j, xs) = v {
                    if !xs.is_empty() && self.r.chance(2, 3) {
                        let i = self.r.below(xs.len());
                        return self.tweak(&d.variants[*j].fields[i].ty, &mut xs[i]);
                    }
                }
                *v = self.val(n);
            }
            (Node::St(_), _) => (),
            (n, v) => *v = self.val(n),
        }
    }

    /// An entry which may or may not fit the state.
    pub fn entry(&mut self, n: &Node, v: &V) -> Entry {
        let at = self.target(n, v);
        let path = path_of(n, v, &at);
        let (n2, v2) = locate(n, v, &at);
        let mut e = match (n2.strip(), v2, self.r.below(6)) {
            (Node::List(_), V::Seq(_), 0) => Entry { kind: Kind::Pop, path, val: vec![], key: 0 },
            (Node::List(t), V::Seq(_), 1 | 2) => {
                let x = self.val(t);
                Entry { kind: Kind::Push, path, val: enc(t, &x), key: 0 }
            }
            (Node::Map(k, _), V::Map(xs), 0 | 1) => {
                let key = if !xs.is_empty() && self.r.chance(2, 3) { self.r.pick(xs).0 } else { map_key(self.r, *k) };
                Entry { kind: Kind::Remove, path, val: vec![], key }
            }
            (Node::List(t), V::Seq(xs), _) if !xs.is_empty() => self.update(path, self_child(xs.len()), t),
            (Node::Map(k, t), V::Map(xs), _) => {
                let key = if !xs.is_empty() && self.r.chance(1, 2) { self.r.pick(xs).0 } else { map_key(self.r, *k) };
                self.update(path, vec![key], t)
            }
            (Node::St(d), V::St(xs), 1..=5) if !xs.is_empty() => {
                let f = &d.fields[self.r.below(xs.len())];
                self.update(path, vec![f.tag], &f.ty)
            }
            (Node::En(d), V::En(j, xs), 1..=5) if !xs.is_empty() => {
                let w = &d.variants[*j];
                let f = &w.fields[self.r.below(xs.len())];
                self.update(path, vec![w.tag, f.tag], &f.ty)
            }
            (n2, _, _) => self.update(path, vec![], n2),
        };
        fn self_child(len: usize) -> Vec<u32> {
            vec![len as u32 - 1]
        }
        if self.r.chance(1, 2) {
            self.spoil(&mut e);
        }
        e
    }

    fn update(&mut self, mut path: Vec<u32>, more: Vec<u32>, t: &Node) -> Entry {
        path.extend(more);
        let x = self.val(t);
        Entry { kind: Kind::Update, path, val: enc(t, &x), key: 0 }
    }

    /// Makes an entry (probably) unfit.
    pub fn spoil(&mut self, e: &mut Entry) {
        let odd = [0u32, 1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 100, 128, 255, 256, 300, 65536, 70_000, FIELD_MAX, FIELD_MAX + 1, u32::MAX];
        match self.r.below(9) {
            0 => e.path.push(*self.r.pick(&odd)),
            1 => drop(e.path.pop()),
            2 | 3 if !e.path.is_empty() => {
                let i = self.r.below(e.path.len());
                e.path[i] = *self.r.pick(&odd);
            }
            4 => {
                let x = *self.r.pick(&[Kind::Update, Kind::Push, Kind::Pop, Kind::Remove]);
                if x == Kind::Remove && e.kind != x {
                    e.key = *self.r.pick(&odd);
                }
                e.kind = x;
                if matches!(x, Kind::Pop | Kind::Remove) {
                    e.val.clear();
                }
                if x != Kind::Remove {
                    e.key = 0;
                }
            }
            5 if e.kind == Kind::Remove => e.key = *self.r.pick(&odd),
            5 | 6 if !e.val.is_empty() => {
                let k = self.r.below(e.val.len());
                e.val.truncate(k);
            }
            7 => mutate(self.r, &mut e.val),
            _ => {
                let i = self.r.below(e.path.len() + 1);
                e.path.insert(i, *self.r.pick(&odd));
            }
        }
        if matches!(e.kind, Kind::Pop | Kind::Remove) {
            e.val.clear();
        }
    }
}

/// The state `at` leads to.
pub fn locate<'n, 'v>(n: &'n Node, v: &'v V, at: &[Step]) -> (&'n Node, &'v V) {
    let n = n.strip();
    let Some((s, rest)) = at.split_first() else { return (n, v) };
    let (n2, v2): (NodeRef, &V) = match (n, v, s) {
        (Node::St(d), V::St(xs), Step::F(i)) => ((d.fields[*i].ty.0)(), &xs[*i]),
        (Node::En(d), V::En(_, xs), Step::VF(j, i)) => ((d.variants[*j].fields[*i].ty.0)(), &xs[*i]),
        (Node::List(t), V::Seq(xs), Step::I(i, _)) => ((t.0)(), &xs[*i]),
        (Node::Map(_, t), V::Map(xs), Step::K(k, _)) => {
            ((t.0)(), &xs.iter().find(|x| x.0 == *k).expect("HARNESS: key").1)
        }
        (n, v, s) => panic!("HARNESS: step {:?} on {} {:?}", s, n.name(), v),
    };
    locate(n2, v2, rest)
}

pub fn path_of(n: &Node, v: &V, at: &[Step]) -> Vec<u32> {
    let mut p = vec![];
    for i in 0..at.len() {
        let (n2, _) = locate(n, v, &at[..i]);
        match (n2, at[i]) {
            (Node::St(d), Step::F(i)) => p.push(d.fields[i].tag),
            (Node::En(d), Step::VF(j, i)) => p.extend([d.variants[j].tag, d.variants[j].fields[i].tag]),
            (_, Step::I(i, _)) => p.push(i as u32),
            (_, Step::K(k, _)) => p.push(k),
            _ => panic!("HARNESS: path_of"),
        }
    }
    p
}

/// Corrupts bytes in ways which matter to the format.
pub fn mutate(r: &mut Rng, d: &mut Vec<u8>) {
    for _ in 0..1 + r.below(3) {
        let at = r.below(d.len() + 1);
        match r.below(12) {
            0 if !d.is_empty() => {
                let i = r.below(d.len());
                d[i] ^= 1 << r.below(8);
            }
            1 if !d.is_empty() => {
                let i = r.below(d.len());
                d[i] = *r.pick(&[0, 1, 2, 3, 7, 8, 9, 0x7f, 0x80, 0x81, 0xff, 10, 18]);
            }
            2 => d.truncate(at),
            3 => d.insert(at, r.next() as u8),
            4 if !d.is_empty() => {
                let i = r.below(d.len());
                d.remove(i);
            }
            5 => {
                // A huge number where a size or a tag may be expected.
                let mut x = vec![];
                put_varint(&mut x, *r.pick(&[1 << 20, 1 << 24, (1 << 31) - 1, 1 << 31, (1u64 << 32) - 1, 1 << 32, (1 << 32) + 2, 1 << 40, 1 << 62, u64::MAX >> 1, u64::MAX]));
                if r.chance(1, 2) && at < d.len() {
                    d.remove(at);
                }
                d.splice(at..at, x);
            }
            6 => {
                // A varint which does not end soon.
                let k = 1 + r.below(24);
                let mut x = vec![*r.pick(&[0x80u8, 0xff, 0x81]); k];
                x.push(*r.pick(&[0u8, 1, 0x7f]));
                d.splice(at..at, x);
            }
            7 => {
                let k = r.below(20);
                let x = blob(r, k);
                d.splice(at..at, x);
            }
            8 if d.len() > 1 => {
                // Repeats a part.
                let a = r.below(d.len());
                let b = a + r.below(d.len() - a).min(40);
                let x = d[a..b].to_vec();
                d.splice(at..at, x);
            }
            9 => {
                let k = *r.pick(&[1usize, 5, 10, 64, 300]);
                let x = vec![*r.pick(&[0u8, 0xff, 0x80, 2, 10]); k];
                d.splice(at..at, x);
            }
            10 if !d.is_empty() => {
                let i = r.below(d.len());
                d[i] = d[i].wrapping_add(*r.pick(&[1, 0xff, 8, 0xf8]));
            }
            _ => {
                // A field of an unknown or illegal kind.
                let mut x = vec![];
                put_varint(&mut x, (int_u(r, 30) << 3) | r.below(8) as u64);
                d.splice(at..at, x);
            }
        }
    }
}
