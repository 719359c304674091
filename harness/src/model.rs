//! Reference model: type trees, value trees, an encoder/decoder written from the wire format, and the semantics of
//! log entries and mutators. Nothing in this file calls into steit.
use std::{any::TypeId, cell::RefCell, collections::HashMap, fmt};

pub const FIELD_MAX: u32 = 0x1fff_ffff;

pub type NodeRef = &'static Node;

#[derive(Clone, Copy)]
pub struct Ty(pub fn() -> NodeRef);

impl std::ops::Deref for Ty {
    type Target = Node;
    fn deref(&self) -> &Node {
        (self.0)()
    }
}

thread_local! {
    static NODES: RefCell<HashMap<TypeId, NodeRef>> = RefCell::new(HashMap::new());
}

/// One leaked node per type and thread.
pub fn intern<T: 'static>(make: impl FnOnce() -> Node) -> NodeRef {
    let id = TypeId::of::<T>();
    if let Some(n) = NODES.with(|m| m.borrow().get(&id).copied()) {
        return n;
    }
    let n: NodeRef = Box::leak(Box::new(make()));
    NODES.with(|m| m.borrow_mut().insert(id, n));
    n
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum KeyK {
    U8,
    U16,
    U32,
    Custom,
}

/// Keys of the harness-defined key type.
pub const CUSTOM_KEYS: [u32; 8] = [1, 2, 3, 15, 16, 200, 70_000, FIELD_MAX];

impl KeyK {
    pub fn valid(self, k: u32) -> bool {
        k <= FIELD_MAX
            && match self {
                KeyK::U8 => k <= u8::MAX as u32,
                KeyK::U16 => k <= u16::MAX as u32,
                KeyK::U32 => true,
                KeyK::Custom => CUSTOM_KEYS.contains(&k),
            }
    }
}

pub struct FieldD {
    pub name: &'static str,
    pub tag: u32,
    pub ty: Ty,
    pub no_state: bool,
    pub no_eq: bool,
    pub no_hash: bool,
}

pub struct StructD {
    pub name: String,
    pub state: bool,
    pub fields: Vec<FieldD>,
}

pub struct VariantD {
    pub name: &'static str,
    pub tag: u32,
    pub fields: Vec<FieldD>,
}

pub struct EnumD {
    pub name: String,
    pub state: bool,
    pub variants: Vec<VariantD>,
}

impl EnumD {
    pub fn default_idx(&self) -> usize {
        self.variants.iter().position(|v| v.tag == 0).expect("HARNESS: no default variant")
    }
}

pub enum Node {
    Int { signed: bool, bits: u32 },
    Bool,
    Str,
    Bytes,
    Vec(Ty),
    Arr(Ty, usize),
    Tup(Vec<Ty>),
    Hm(Ty, Ty),
    Opt(Ty),
    Boxed(Ty),
    List(Ty),
    Map(KeyK, Ty),
    St(StructD),
    En(EnumD),
}

#[derive(Clone)]
pub enum V {
    U(u64),
    I(i64),
    B(bool),
    S(String),
    By(Vec<u8>),
    Seq(Vec<V>),
    Hm(Vec<(V, V)>),
    Opt(Option<Box<V>>),
    Map(Vec<(u32, V)>),
    St(Vec<V>),
    En(usize, Vec<V>),
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::U(a), V::U(b)) => a == b,
            (V::I(a), V::I(b)) => a == b,
            (V::B(a), V::B(b)) => a == b,
            (V::S(a), V::S(b)) => a == b,
            (V::By(a), V::By(b)) => a == b,
            (V::Seq(a), V::Seq(b)) => a == b,
            (V::Opt(a), V::Opt(b)) => a == b,
            (V::Map(a), V::Map(b)) => a == b,
            (V::St(a), V::St(b)) => a == b,
            (V::En(i, a), V::En(j, b)) => i == j && a == b,
            // Hash maps have no order.
            (V::Hm(a), V::Hm(b)) => {
                a.len() == b.len()
                    && a.iter().all(|(k, v)| b.iter().any(|(k2, v2)| k == k2 && v == v2))
            }
            _ => false,
        }
    }
}

impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            V::U(x) => write!(f, "{}", x),
            V::I(x) => write!(f, "{}", x),
            V::B(x) => write!(f, "{}", x),
            V::S(x) if x.len() > 60 => write!(f, "str[{}]", x.len()),
            V::S(x) => write!(f, "{:?}", x),
            V::By(x) if x.len() > 40 => write!(f, "bytes[{}]", x.len()),
            V::By(x) => write!(f, "b{:?}", x),
            V::Seq(x) => f.debug_list().entries(x).finish(),
            V::Hm(x) => f.debug_map().entries(x.iter().map(|(k, v)| (k, v))).finish(),
            V::Opt(None) => write!(f, "-"),
            V::Opt(Some(x)) => write!(f, "+{:?}", x),
            V::Map(x) => f.debug_map().entries(x.iter().map(|(k, v)| (k, v))).finish(),
            V::St(x) => {
                write!(f, "{{")?;
                for (i, v) in x.iter().enumerate() {
                    write!(f, "{}{:?}", if i > 0 { ", " } else { "" }, v)?;
                }
                write!(f, "}}")
            }
            V::En(i, x) => {
                write!(f, "#{}(", i)?;
                for (i, v) in x.iter().enumerate() {
                    write!(f, "{}{:?}", if i > 0 { ", " } else { "" }, v)?;
                }
                write!(f, ")")
            }
        }
    }
}

// ---------------------------------------------------------------- types

impl Node {
    pub fn strip(&self) -> &Node {
        match self {
            Node::Boxed(t) => (t.0)().strip(),
            n => n,
        }
    }
    pub fn sized(&self) -> bool {
        !matches!(self.strip(), Node::Int { .. } | Node::Bool)
    }
    pub fn is_state_compound(&self) -> bool {
        match self.strip() {
            Node::List(_) | Node::Map(..) => true,
            Node::St(s) => s.state,
            Node::En(e) => e.state,
            _ => false,
        }
    }
    pub fn has_hm(&self) -> bool {
        fn go(n: &Node, seen: &mut Vec<*const Node>) -> bool {
            if seen.contains(&(n as *const Node)) {
                return false;
            }
            seen.push(n);
            match n {
                Node::Hm(..) => true,
                Node::Vec(t) | Node::Arr(t, _) | Node::Opt(t) | Node::Boxed(t) | Node::List(t) | Node::Map(_, t) => {
                    go(t, seen)
                }
                Node::Tup(ts) => ts.iter().any(|t| go(t, seen)),
                Node::St(s) => s.fields.iter().any(|f| go(&f.ty, seen)),
                Node::En(e) => e.variants.iter().any(|v| v.fields.iter().any(|f| go(&f.ty, seen))),
                _ => false,
            }
        }
        go(self, &mut Vec::new())
    }
    pub fn name(&self) -> String {
        match self {
            Node::Int { signed, bits } => format!("{}{}", if *signed { "i" } else { "u" }, bits),
            Node::Bool => "bool".into(),
            Node::Str => "String".into(),
            Node::Bytes => "Bytes".into(),
            Node::Vec(t) => format!("Vec<{}>", t.name()),
            Node::Arr(t, n) => format!("[{};{}]", t.name(), n),
            Node::Tup(ts) => format!("({})", ts.iter().map(|t| t.name()).collect::<Vec<_>>().join(",")),
            Node::Hm(k, v) => format!("HashMap<{},{}>", k.name(), v.name()),
            Node::Opt(t) => format!("Option<{}>", t.name()),
            Node::Boxed(t) => format!("Box<{}>", t.name()),
            Node::List(t) => format!("List<{}>", t.name()),
            Node::Map(k, t) => format!("Map<{:?},{}>", k, t.name()),
            Node::St(s) => s.name.clone(),
            Node::En(e) => e.name.clone(),
        }
    }
}

pub fn default_v(n: &Node) -> V {
    match n {
        Node::Int { signed: false, .. } => V::U(0),
        Node::Int { signed: true, .. } => V::I(0),
        Node::Bool => V::B(false),
        Node::Str => V::S(String::new()),
        Node::Bytes => V::By(vec![]),
        Node::Vec(_) | Node::List(_) => V::Seq(vec![]),
        Node::Arr(t, n) => V::Seq((0..*n).map(|_| default_v(t)).collect()),
        Node::Tup(ts) => V::Seq(ts.iter().map(|t| default_v(t)).collect()),
        Node::Hm(..) => V::Hm(vec![]),
        Node::Opt(_) => V::Opt(None),
        Node::Boxed(t) => default_v(t),
        Node::Map(..) => V::Map(vec![]),
        Node::St(s) => V::St(default_fields(&s.fields)),
        Node::En(e) => {
            let i = e.default_idx();
            V::En(i, default_fields(&e.variants[i].fields))
        }
    }
}

pub fn default_fields(fs: &[FieldD]) -> Vec<V> {
    fs.iter().map(|f| default_v(&f.ty)).collect()
}

// ---------------------------------------------------------------- encoder

pub fn put_varint(out: &mut Vec<u8>, mut x: u64) {
    while x >= 0x80 {
        out.push(x as u8 | 0x80);
        x >>= 7;
    }
    out.push(x as u8);
}

pub fn zigzag(x: i64) -> u64 {
    ((x << 1) ^ (x >> 63)) as u64
}

pub fn unzigzag(x: u64) -> i64 {
    (x >> 1) as i64 ^ -((x & 1) as i64)
}

pub fn wt(n: &Node) -> u32 {
    if n.sized() {
        2
    } else {
        0
    }
}

pub fn enc_body(n: &Node, v: &V, out: &mut Vec<u8>) {
    match (n, v) {
        (Node::Int { signed: false, .. }, V::U(x)) => put_varint(out, *x),
        (Node::Int { signed: true, .. }, V::I(x)) => put_varint(out, zigzag(*x)),
        (Node::Bool, V::B(b)) => out.push(*b as u8),
        (Node::Str, V::S(s)) => out.extend_from_slice(s.as_bytes()),
        (Node::Bytes, V::By(b)) => out.extend_from_slice(b),
        (Node::Vec(t), V::Seq(xs)) | (Node::List(t), V::Seq(xs)) | (Node::Arr(t, _), V::Seq(xs)) => {
            for x in xs {
                enc_nested(t, x, out);
            }
        }
        (Node::Tup(ts), V::Seq(xs)) => {
            for (t, x) in ts.iter().zip(xs) {
                enc_nested(t, x, out);
            }
        }
        (Node::Hm(k, t), V::Hm(xs)) => {
            for (a, b) in xs {
                enc_nested(k, a, out);
                enc_nested(t, b, out);
            }
        }
        (Node::Opt(t), V::Opt(x)) => {
            if let Some(x) = x {
                enc_nested(t, x, out);
            }
        }
        (Node::Boxed(t), x) => enc_body(t, x, out),
        (Node::Map(_, t), V::Map(xs)) => {
            for (k, x) in xs {
                put_varint(out, ((*k as u64) << 3 | wt(t) as u64) as u64);
                enc_nested(t, x, out);
            }
        }
        (Node::St(s), V::St(xs)) => enc_fields(&s.fields, xs, out),
        (Node::En(e), V::En(i, xs)) => {
            put_varint(out, e.variants[*i].tag as u64);
            enc_fields(&e.variants[*i].fields, xs, out);
        }
        (n, v) => panic!("HARNESS: value {:?} is not a {}", v, n.name()),
    }
}

pub fn enc(n: &Node, v: &V) -> Vec<u8> {
    let mut out = Vec::new();
    enc_body(n, v, &mut out);
    out
}

pub fn enc_nested(n: &Node, v: &V, out: &mut Vec<u8>) {
    if n.sized() {
        let body = enc(n, v);
        put_varint(out, body.len() as u64);
        out.extend(body);
    } else {
        enc_body(n, v, out);
    }
}

/// Whether a field holding this value is left out.
pub fn omissible(n: &Node, v: &V) -> bool {
    match (n, v) {
        (Node::Int { .. }, V::U(x)) => *x == 0,
        (Node::Int { .. }, V::I(x)) => *x == 0,
        (Node::Bool, V::B(b)) => !*b,
        // A boxed value is left out only if it has no bytes at all.
        (n, v) => enc(n, v).is_empty(),
    }
}

pub fn enc_field(tag: u32, n: &Node, v: &V, out: &mut Vec<u8>) {
    put_varint(out, (tag as u64) << 3 | wt(n) as u64);
    enc_nested(n, v, out);
}

pub fn enc_fields(fs: &[FieldD], xs: &[V], out: &mut Vec<u8>) {
    assert_eq!(fs.len(), xs.len(), "HARNESS: field count");
    for (f, x) in fs.iter().zip(xs) {
        if !f.ty.sized() {
            if !omissible(&f.ty, x) {
                enc_field(f.tag, &f.ty, x, out);
            }
            continue;
        }
        // Like `omissible` and `enc_field`, without encoding everything below twice per level.
        let body = enc(&f.ty, x);
        if !body.is_empty() {
            put_varint(out, (f.tag as u64) << 3 | wt(&f.ty) as u64);
            put_varint(out, body.len() as u64);
            out.extend(body);
        }
    }
}

// ---------------------------------------------------------------- decoder

#[derive(Debug, Clone)]
pub struct DecErr(pub String);
pub type DecResult<T> = Result<T, DecErr>;

fn err<T>(s: impl Into<String>) -> DecResult<T> {
    Err(DecErr(s.into()))
}

pub struct Cur<'a> {
    pub d: &'a [u8],
}

impl<'a> Cur<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Cur { d }
    }
    pub fn eof(&self) -> bool {
        self.d.is_empty()
    }
    pub fn byte(&mut self) -> DecResult<u8> {
        match self.d.split_first() {
            Some((b, r)) => {
                self.d = r;
                Ok(*b)
            }
            None => err("unexpected end"),
        }
    }
    /// Varint with the bits beyond the width discarded.
    pub fn varint(&mut self, bits: u32) -> DecResult<u64> {
        let mut x: u64 = 0;
        let mut off = 0u32;
        loop {
            let b = self.byte()?;
            if off < 64 {
                x |= ((b & 0x7f) as u64) << off;
            }
            off = off.saturating_add(7);
            if b & 0x80 == 0 {
                return Ok(if bits == 64 { x } else { x & ((1u64 << bits) - 1) });
            }
        }
    }
    pub fn sub(&mut self) -> DecResult<Cur<'a>> {
        let n = self.varint(64)?;
        if n > self.d.len() as u64 {
            return err("sized value cut short");
        }
        let (a, b) = self.d.split_at(n as usize);
        self.d = b;
        Ok(Cur { d: a })
    }
    pub fn tag(&mut self) -> DecResult<(u32, u32)> {
        let t = self.varint(32)? as u32;
        match t & 7 {
            0 | 2 => Ok((t >> 3, t & 7)),
            w => err(format!("illegal wire type {}", w)),
        }
    }
    pub fn skip(&mut self, wt: u32) -> DecResult<()> {
        if wt == 0 {
            self.varint(64).map(|_| ())
        } else {
            self.sub().map(|_| ())
        }
    }
}

pub fn merge(n: &Node, v: &mut V, c: &mut Cur) -> DecResult<()> {
    match n {
        Node::Int { signed, bits } => {
            let x = c.varint(*bits)?;
            *v = if *signed { V::I(unzigzag(x)) } else { V::U(x) };
        }
        Node::Bool => {
            let mut any = false;
            loop {
                let b = c.byte()?;
                any |= b & 0x7f != 0;
                if b & 0x80 == 0 {
                    break;
                }
            }
            *v = V::B(any);
        }
        Node::Str => match String::from_utf8(c.d.to_vec()) {
            Ok(s) => {
                c.d = &[];
                *v = V::S(s);
            }
            Err(_) => return err("invalid utf-8"),
        },
        Node::Bytes => match v {
            V::By(b) => {
                b.extend_from_slice(c.d);
                c.d = &[];
            }
            _ => panic!("HARNESS: not bytes"),
        },
        Node::Vec(t) | Node::List(t) => match v {
            V::Seq(xs) => {
                while !c.eof() {
                    let mut x = default_v(t);
                    merge_nested(t, &mut x, c)?;
                    xs.push(x);
                }
            }
            _ => panic!("HARNESS: not seq"),
        },
        Node::Arr(t, len) => match v {
            V::Seq(xs) => {
                let mut i = 0;
                while i < *len && !c.eof() {
                    let mut x = default_v(t);
                    merge_nested(t, &mut x, c)?;
                    xs[i] = x;
                    i += 1;
                }
                c.d = &[];
            }
            _ => panic!("HARNESS: not seq"),
        },
        Node::Tup(ts) => {
            let mut xs = Vec::new();
            for t in ts {
                let mut x = default_v(t);
                merge_nested(t, &mut x, c)?;
                xs.push(x);
            }
            *v = V::Seq(xs);
            c.d = &[];
        }
        Node::Hm(kt, t) => match v {
            V::Hm(xs) => {
                while !c.eof() {
                    let mut k = default_v(kt);
                    merge_nested(kt, &mut k, c)?;
                    let mut x = default_v(t);
                    merge_nested(t, &mut x, c)?;
                    match xs.iter_mut().find(|(k2, _)| *k2 == k) {
                        Some(e) => e.1 = x,
                        None => xs.push((k, x)),
                    }
                }
            }
            _ => panic!("HARNESS: not hm"),
        },
        Node::Opt(t) => match v {
            V::Opt(o) => {
                while !c.eof() {
                    let x = o.get_or_insert_with(|| Box::new(default_v(t)));
                    merge_nested(t, x, c)?;
                }
            }
            _ => panic!("HARNESS: not opt"),
        },
        Node::Boxed(t) => merge(t, v, c)?,
        Node::Map(k, t) => match v {
            V::Map(xs) => {
                while !c.eof() {
                    let (key, w) = c.tag()?;
                    if w != wt(t) {
                        c.skip(w)?;
                        continue;
                    }
                    if !k.valid(key) {
                        return err("invalid key");
                    }
                    match xs.iter_mut().find(|(k2, _)| *k2 == key) {
                        Some(e) => merge_nested(t, &mut e.1, c)?,
                        None => {
                            let mut x = default_v(t);
                            merge_nested(t, &mut x, c)?;
                            xs.push((key, x));
                        }
                    }
                }
            }
            _ => panic!("HARNESS: not map"),
        },
        Node::St(s) => match v {
            V::St(xs) => merge_fields(&s.fields, xs, c)?,
            _ => panic!("HARNESS: not struct"),
        },
        Node::En(e) => {
            let tag = c.varint(32)? as u32;
            let i = match e.variants.iter().position(|x| x.tag == tag) {
                Some(i) => i,
                None => return err("unknown variant"),
            };
            match v {
                V::En(j, xs) => {
                    if *j != i {
                        *j = i;
                        *xs = default_fields(&e.variants[i].fields);
                    }
                    merge_fields(&e.variants[i].fields, xs, c)?
                }
                _ => panic!("HARNESS: not enum"),
            }
        }
    }
    Ok(())
}

fn merge_fields(fs: &[FieldD], xs: &mut [V], c: &mut Cur) -> DecResult<()> {
    while !c.eof() {
        let (tag, w) = c.tag()?;
        match fs.iter().position(|f| f.tag == tag) {
            Some(i) if wt(&fs[i].ty) == w => merge_nested(&fs[i].ty, &mut xs[i], c)?,
            _ => c.skip(w)?,
        }
    }
    Ok(())
}

pub fn merge_nested(n: &Node, v: &mut V, c: &mut Cur) -> DecResult<()> {
    if n.sized() {
        let mut s = c.sub()?;
        merge(n, v, &mut s)
    } else {
        merge(n, v, c)
    }
}

pub fn dec(n: &Node, d: &[u8]) -> DecResult<V> {
    let mut v = default_v(n);
    merge(n, &mut v, &mut Cur::new(d))?;
    Ok(v)
}

/// Byte offsets at which a whole number of top-level fields or elements ends (0 and the length included).
pub fn boundaries(n: &Node, d: &[u8]) -> Vec<usize> {
    let mut out = vec![0];
    let total = d.len();
    let mut c = Cur::new(d);
    let n = n.strip();
    let pos = |c: &Cur| total - c.d.len();
    if let Node::En(_) = n {
        if c.varint(32).is_err() {
            return out;
        }
        out[0] = pos(&c);
    }
    while !c.eof() {
        let ok = match n {
            Node::St(_) | Node::En(_) | Node::Map(..) => c.tag().and_then(|(_, w)| c.skip(w)).is_ok(),
            Node::Vec(t) | Node::List(t) | Node::Arr(t, _) | Node::Opt(t) => c.skip(wt(t)).is_ok(),
            Node::Hm(k, t) => c.skip(wt(k)).and_then(|_| c.skip(wt(t))).is_ok(),
            Node::Tup(ts) => ts.iter().all(|t| c.skip(wt(t)).is_ok()),
            _ => {
                c.d = &[];
                true
            }
        };
        if !ok {
            break;
        }
        out.push(pos(&c));
    }
    out
}

// ---------------------------------------------------------------- log entries

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Update = 0,
    Push = 8,
    Pop = 9,
    Remove = 12,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Entry {
    pub kind: Kind,
    pub path: Vec<u32>,
    /// Encoded value of `Update` and `Push`.
    pub val: Vec<u8>,
    pub key: u32,
}

impl Entry {
    pub fn body(&self) -> Vec<u8> {
        let mut out = Vec::new();
        put_varint(&mut out, self.kind as u64);
        let mut p = Vec::new();
        for x in &self.path {
            put_varint(&mut p, *x as u64);
        }
        if !p.is_empty() {
            put_varint(&mut out, 2);
            put_varint(&mut out, p.len() as u64);
            out.extend(p);
        }
        match self.kind {
            Kind::Update | Kind::Push => {
                if !self.val.is_empty() {
                    put_varint(&mut out, 1 << 3 | 2);
                    put_varint(&mut out, self.val.len() as u64);
                    out.extend_from_slice(&self.val);
                }
            }
            Kind::Remove => {
                if self.key != 0 {
                    put_varint(&mut out, 1 << 3);
                    put_varint(&mut out, self.key as u64);
                }
            }
            Kind::Pop => (),
        }
        out
    }
    pub fn framed(&self) -> Vec<u8> {
        let b = self.body();
        let mut out = Vec::new();
        put_varint(&mut out, b.len() as u64);
        out.extend(b);
        out
    }
}

/// What an entry does to a state; an error leaves `v` untouched.
pub fn apply_entry(n: &Node, v: &mut V, e: &Entry) -> DecResult<()> {
    let mut copy = v.clone();
    apply_at(n, &mut copy, &e.path, e)?;
    *v = copy;
    Ok(())
}

fn apply_at(n: &Node, v: &mut V, path: &[u32], e: &Entry) -> DecResult<()> {
    let n = n.strip();
    let Some((&head, rest)) = path.split_first() else {
        return match (e.kind, n, v) {
            (Kind::Update, n, v) => {
                let mut x = default_v(n);
                merge(n, &mut x, &mut Cur::new(&e.val))?;
                *v = x;
                Ok(())
            }
            (Kind::Push, Node::List(t), V::Seq(xs)) => {
                let mut x = default_v(t);
                merge(t, &mut x, &mut Cur::new(&e.val))?;
                xs.push(x);
                Ok(())
            }
            (Kind::Pop, Node::List(_), V::Seq(xs)) => match xs.pop() {
                Some(_) => Ok(()),
                None => err("pop from an empty list"),
            },
            (Kind::Remove, Node::Map(..), V::Map(xs)) => match xs.iter().position(|(k, _)| *k == e.key) {
                Some(i) => {
                    xs.swap_remove(i);
                    Ok(())
                }
                None => err("absent key"),
            },
            (k, n, _) => err(format!("{:?} on {}", k, n.name())),
        };
    };
    match (n, v) {
        (Node::List(t), V::Seq(xs)) => match xs.get_mut(head as usize) {
            Some(x) => apply_at(t, x, rest, e),
            None => err("index out of bounds"),
        },
        (Node::Map(k, t), V::Map(xs)) => match xs.iter_mut().find(|(k, _)| *k == head) {
            Some((_, x)) => apply_at(t, x, rest, e),
            None if e.kind == Kind::Update && rest.is_empty() => {
                if !k.valid(head) {
                    return err("invalid key");
                }
                let mut x = default_v(t);
                merge(t, &mut x, &mut Cur::new(&e.val))?;
                xs.push((head, x));
                Ok(())
            }
            None => err("absent key on the path"),
        },
        (Node::St(s), V::St(xs)) => apply_field(&s.fields, xs, head, rest, e),
        (Node::En(d), V::En(i, xs)) => {
            if !d.variants.iter().any(|v| v.tag == head) {
                return err("unknown variant on the path");
            }
            if d.variants[*i].tag != head {
                return err("not the current variant");
            }
            match rest.split_first() {
                Some((&f, rest)) => apply_field(&d.variants[*i].fields, xs, f, rest, e),
                None => err("entry on a variant"),
            }
        }
        (n, _) => err(format!("path goes on below {}", n.name())),
    }
}

fn apply_field(fs: &[FieldD], xs: &mut [V], tag: u32, rest: &[u32], e: &Entry) -> DecResult<()> {
    match fs.iter().position(|f| f.tag == tag) {
        // Fields which are not part of the state ignore entries.
        Some(i) if fs[i].no_state => Ok(()),
        Some(i) => apply_at(&fs[i].ty, &mut xs[i], rest, e),
        None => err("unknown field on the path"),
    }
}

/// Replaces the fields which are not part of the state by their defaults (recursively).
pub fn mask_no_state(n: &Node, v: &mut V) {
    match (n.strip(), v) {
        (Node::St(s), V::St(xs)) => mask_fields(&s.fields, xs),
        (Node::En(d), V::En(i, xs)) => mask_fields(&d.variants[*i].fields, xs),
        (Node::List(t), V::Seq(xs)) => xs.iter_mut().for_each(|x| mask_no_state(t, x)),
        (Node::Map(_, t), V::Map(xs)) => xs.iter_mut().for_each(|(_, x)| mask_no_state(t, x)),
        _ => (),
    }
}

fn mask_fields(fs: &[FieldD], xs: &mut [V]) {
    for (f, x) in fs.iter().zip(xs) {
        if f.no_state {
            *x = default_v(&f.ty);
        } else {
            mask_no_state(&f.ty, x);
        }
    }
}

// ---------------------------------------------------------------- mutators

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    /// Field of a struct.
    F(usize),
    /// Field of the current variant.
    VF(usize, usize),
    /// Item of a list, and how to get there.
    I(usize, u8),
    /// Value of a map, and how to get there.
    K(u32, u8),
}

/// How a new value comes into being.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    /// Built under a runtime of its own, then passed by value.
    Plain,
    /// Built under the runtime of the receiver, then passed by value.
    PlainShared,
    /// Built at once inside a construction callback.
    With,
    /// Built by mutators inside a construction callback.
    WithOps,
    /// Built inside a construction callback under an unrelated runtime.
    WithForeign,
    /// As `WithOps`, and mutates another state of the same logger meanwhile.
    WithSide,
    /// The construction callback panics half way.
    WithPanic,
}

impl How {
    pub fn is_with(self) -> bool {
        !matches!(self, How::Plain | How::PlainShared)
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Set(usize, V, How),
    SetV(usize, usize, V, How),
    Push(V, How),
    Pop,
    SwapRemove(usize),
    Insert(u32, V, How),
    Remove(u32),
    /// Something which only looks.
    Read(u8),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    Unit,
    Idx(usize),
    Val(Option<V>),
}

/// An entry a mutator is expected to record.
#[derive(Clone)]
pub struct Exp {
    pub kind: Kind,
    pub path: Vec<u32>,
    pub val: Option<(NodeRef, V)>,
    pub key: u32,
}

impl fmt::Debug for Exp {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?} {:?} {:?} key={}", self.kind, self.path, self.val.as_ref().map(|x| &x.1), self.key)
    }
}

impl Exp {
    pub fn update(path: Vec<u32>, n: NodeRef, v: V) -> Self {
        Exp { kind: Kind::Update, path, val: Some((n, v)), key: 0 }
    }
    pub fn entry(&self) -> Entry {
        Entry {
            kind: self.kind,
            path: self.path.clone(),
            val: self.val.as_ref().map_or(vec![], |(n, v)| enc(n, v)),
            key: self.key,
        }
    }
    pub fn matches(&self, e: &Entry) -> bool {
        if self.kind != e.kind || self.path != e.path || self.key != e.key {
            return false;
        }
        match &self.val {
            None => e.val.is_empty(),
            // With hash maps the order is free, without it the bytes are determined.
            Some((n, v)) if n.has_hm() => matches!(dec(n, &e.val), Ok(x) if x == *v),
            Some((n, v)) => enc(n, v) == e.val,
        }
    }
}

/// Reference semantics of the mutators: changes `v`, appends what has to be recorded.
pub fn apply_op(n: &Node, v: &mut V, at: &[Step], op: &Op, path: &mut Vec<u32>, log: &mut Vec<Exp>) -> Ret {
    let n = n.strip();
    if let Some((s, rest)) = at.split_first() {
        let len = path.len();
        let r = match (n, &mut *v, s) {
            (Node::St(d), V::St(xs), Step::F(i)) => {
                path.push(d.fields[*i].tag);
                apply_op(&d.fields[*i].ty, &mut xs[*i], rest, op, path, log)
            }
            (Node::En(d), V::En(j, xs), Step::VF(j2, i)) if j == j2 => {
                path.push(d.variants[*j].tag);
                path.push(d.variants[*j].fields[*i].tag);
                apply_op(&d.variants[*j].fields[*i].ty, &mut xs[*i], rest, op, path, log)
            }
            (Node::List(t), V::Seq(xs), Step::I(i, _)) => {
                path.push(*i as u32);
                apply_op(t, &mut xs[*i], rest, op, path, log)
            }
            (Node::Map(_, t), V::Map(xs), Step::K(k, _)) => {
                path.push(*k);
                let x = &mut xs.iter_mut().find(|(k2, _)| k2 == k).expect("HARNESS: no such key").1;
                apply_op(t, x, rest, op, path, log)
            }
            (n, v, s) => panic!("HARNESS: step {:?} on {} {:?}", s, n.name(), v),
        };
        path.truncate(len);
        return r;
    }
    let sub = |tags: &[u32]| {
        let mut p = path.clone();
        p.extend_from_slice(tags);
        p
    };
    match (n, &mut *v, op) {
        (_, _, Op::Read(_)) => Ret::Unit,
        (Node::St(d), V::St(xs), Op::Set(i, x, _)) => {
            let f = &d.fields[*i];
            if !f.no_state {
                log.push(Exp::update(sub(&[f.tag]), (f.ty.0)(), x.clone()));
            }
            xs[*i] = x.clone();
            Ret::Unit
        }
        (Node::En(d), V::En(j, xs), Op::SetV(j2, i, x, _)) => {
            let vd = &d.variants[*j2];
            if j != j2 {
                *j = *j2;
                *xs = default_fields(&vd.fields);
                let whole = V::En(*j2, xs.clone());
                let mut p = path.clone();
                p.truncate(path.len());
                let nn: NodeRef = unsafe { &*(n as *const Node) }; // nodes are leaked, hence 'static
                log.push(Exp::update(p, nn, whole));
            }
            let f = &vd.fields[*i];
            if !f.no_state {
                log.push(Exp::update(sub(&[vd.tag, f.tag]), (f.ty.0)(), x.clone()));
            }
            xs[*i] = x.clone();
            Ret::Unit
        }
        (Node::List(t), V::Seq(xs), Op::Push(x, _)) => {
            log.push(Exp { kind: Kind::Push, path: path.clone(), val: Some(((t.0)(), x.clone())), key: 0 });
            xs.push(x.clone());
            Ret::Idx(xs.len() - 1)
        }
        (Node::List(_), V::Seq(xs), Op::Pop) => {
            let r = xs.pop();
            if r.is_some() {
                log.push(Exp { kind: Kind::Pop, path: path.clone(), val: None, key: 0 });
            }
            Ret::Val(r)
        }
        (Node::List(t), V::Seq(xs), Op::SwapRemove(i)) => {
            if *i >= xs.len() {
                return Ret::Val(None);
            }
            log.push(Exp { kind: Kind::Pop, path: path.clone(), val: None, key: 0 });
            let last = xs.pop().unwrap();
            if *i == xs.len() {
                return Ret::Val(Some(last));
            }
            log.push(Exp::update(sub(&[*i as u32]), (t.0)(), last.clone()));
            Ret::Val(Some(std::mem::replace(&mut xs[*i], last)))
        }
        (Node::Map(_, t), V::Map(xs), Op::Insert(k, x, _)) => {
            log.push(Exp::update(sub(&[*k]), (t.0)(), x.clone()));
            match xs.iter_mut().find(|(k2, _)| k2 == k) {
                Some(e) => Ret::Val(Some(std::mem::replace(&mut e.1, x.clone()))),
                None => {
                    xs.push((*k, x.clone()));
                    Ret::Val(None)
                }
            }
        }
        (Node::Map(..), V::Map(xs), Op::Remove(k)) => match xs.iter().position(|(k2, _)| k2 == k) {
            Some(i) => {
                log.push(Exp { kind: Kind::Remove, path: path.clone(), val: None, key: *k });
                Ret::Val(Some(xs.swap_remove(i).1))
            }
            None => Ret::Val(None),
        },
        (n, _, op) => panic!("HARNESS: op {:?} on {}", op, n.name()),
    }
}

/// Addresses of the states inside `v` (the paths they must carry), in depth-first order.
/// An enum carries the path of its current variant.
pub fn addresses(n: &Node, v: &V, path: &mut Vec<u32>, out: &mut Vec<Vec<u32>>) {
    match (n.strip(), v) {
        (Node::St(s), V::St(xs)) if s.state => {
            out.push(path.clone());
            addr_fields(&s.fields, xs, path, out);
        }
        (Node::En(d), V::En(i, xs)) if d.state => {
            path.push(d.variants[*i].tag);
            out.push(path.clone());
            addr_fields(&d.variants[*i].fields, xs, path, out);
            path.pop();
        }
        (Node::List(t), V::Seq(xs)) => {
            out.push(path.clone());
            for (i, x) in xs.iter().enumerate() {
                path.push(i as u32);
                addresses(t, x, path, out);
                path.pop();
            }
        }
        (Node::Map(_, t), V::Map(xs)) => {
            out.push(path.clone());
            for (k, x) in xs {
                path.push(*k);
                addresses(t, x, path, out);
                path.pop();
            }
        }
        _ => (),
    }
}

fn addr_fields(fs: &[FieldD], xs: &[V], path: &mut Vec<u32>, out: &mut Vec<Vec<u32>>) {
    for (f, x) in fs.iter().zip(xs) {
        if !f.no_state {
            path.push(f.tag);
            addresses(&f.ty, x, path, out);
            path.pop();
        }
    }
}

// ---------------------------------------------------------------- equality

/// Equality as derived: excluded fields do not count, maps ignore order.
pub fn eq_v(n: &Node, a: &V, b: &V) -> bool {
    match (n.strip(), a, b) {
        (Node::St(s), V::St(x), V::St(y)) => eq_fields(&s.fields, x, y),
        (Node::En(e), V::En(i, x), V::En(j, y)) => i == j && eq_fields(&e.variants[*i].fields, x, y),
        (Node::Vec(t), V::Seq(x), V::Seq(y))
        | (Node::List(t), V::Seq(x), V::Seq(y))
        | (Node::Arr(t, _), V::Seq(x), V::Seq(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| eq_v(t, p, q))
        }
        (Node::Tup(ts), V::Seq(x), V::Seq(y)) => ts.iter().zip(x.iter().zip(y)).all(|(t, (p, q))| eq_v(t, p, q)),
        (Node::Opt(t), V::Opt(x), V::Opt(y)) => match (x, y) {
            (Some(x), Some(y)) => eq_v(t, x, y),
            (None, None) => true,
            _ => false,
        },
        (Node::Map(_, t), V::Map(x), V::Map(y)) => {
            x.len() == y.len()
                && x.iter().all(|(k, p)| y.iter().any(|(k2, q)| k == k2 && eq_v(t, p, q)))
        }
        (Node::Hm(_, t), V::Hm(x), V::Hm(y)) => {
            x.len() == y.len()
                && x.iter().all(|(k, p)| y.iter().any(|(k2, q)| k == k2 && eq_v(t, p, q)))
        }
        (_, a, b) => a == b,
    }
}

fn eq_fields(fs: &[FieldD], x: &[V], y: &[V]) -> bool {
    fs.iter().zip(x.iter().zip(y)).all(|(f, (p, q))| f.no_eq || eq_v(&f.ty, p, q))
}

/// Replaces everything which must not influence the hash by its default.
pub fn mask_hash(n: &Node, v: &mut V) {
    let fields = |fs: &[FieldD], xs: &mut [V]| {
        for (f, x) in fs.iter().zip(xs) {
            if f.no_eq || f.no_hash {
                *x = default_v(&f.ty);
            } else {
                mask_hash(&f.ty, x);
            }
        }
    };
    match (n.strip(), v) {
        (Node::St(s), V::St(xs)) => fields(&s.fields, xs),
        (Node::En(e), V::En(i, xs)) => fields(&e.variants[*i].fields, xs),
        (Node::Vec(t), V::Seq(xs)) | (Node::List(t), V::Seq(xs)) | (Node::Arr(t, _), V::Seq(xs)) => {
            xs.iter_mut().for_each(|x| mask_hash(t, x))
        }
        (Node::Tup(ts), V::Seq(xs)) => ts.iter().zip(xs).for_each(|(t, x)| mask_hash(t, x)),
        (Node::Opt(t), V::Opt(Some(x))) => mask_hash(t, x),
        _ => (),
    }
}

/// Number of nodes, as a measure of size.
pub fn weight(v: &V) -> usize {
    1 + match v {
        V::Seq(x) | V::St(x) | V::En(_, x) => x.iter().map(weight).sum(),
        V::Hm(x) => x.iter().map(|(a, b)| weight(a) + weight(b)).sum(),
        V::Opt(Some(x)) => weight(x),
        V::Map(x) => x.iter().map(|(_, b)| weight(b)).sum(),
        V::S(s) => s.len() / 64,
        V::By(s) => s.len() / 64,
        _ => 0,
    }
}
