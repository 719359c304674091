//! Ties steit's own values to the reference model: observation (`to_v`), construction (`build`) and the execution of
//! mutators (`apply`), for every built-in type. `zoo_gen.rs` holds the same for derived types.
use std::{
    any::Any,
    collections::HashMap,
    hash::Hash,
    io::{self, Read, Write},
};

use steit::{
    de::{Deserialize, Reader},
    rt::Runtime,
    ser::Serialize,
    state::State,
    types::{Bytes, List, Map, MapKey, Maybe},
    wire_fmt::HasWireType,
};

use crate::model::*;

pub struct CbPanic;

/// Surroundings of a mutation.
pub struct Cx {
    /// Keep removed values so that they can be poked later.
    pub keep: bool,
    pub bag: Vec<Box<dyn DynVal>>,
    /// Another state of the same logger, mutated from inside construction callbacks.
    pub side: Option<List<u32>>,
    pub side_next: u32,
    /// Runtimes which the callbacks were given.
    pub cb_paths: Vec<Vec<u32>>,
}

impl Cx {
    pub fn new() -> Self {
        Cx { keep: false, bag: vec![], side: None, side_next: 0, cb_paths: vec![] }
    }
    /// A value to be passed by value.
    pub fn val<T: Real>(&mut self, v: &V, how: How, receiver: &Runtime) -> T {
        match how {
            How::PlainShared => T::build(v, receiver),
            _ => T::build(v, &Runtime::new()),
        }
    }
    /// A value made by a construction callback.
    pub fn cb<T: RealState>(&mut self, v: &V, how: How, rt: Runtime) -> T {
        self.cb_paths.push(rt.path().collect_values());
        match how {
            How::With => T::build(v, &rt),
            How::WithForeign => T::build(v, &Runtime::new().nested(7).nested(3)),
            How::WithSide => {
                let x = grow(v, rt, self);
                let n = self.side_next;
                self.side_next += 1;
                if let Some(side) = &mut self.side {
                    side.push(n);
                }
                x
            }
            How::WithPanic => {
                let _x: T = grow(v, rt, self);
                std::panic::panic_any(CbPanic)
            }
            _ => grow(v, rt, self),
        }
    }
    pub fn gone<T: RealState>(&mut self, x: Option<T>) -> Ret {
        let r = Ret::Val(x.as_ref().map(|x| x.to_v()));
        if self.keep {
            if let Some(x) = x {
                if T::node().is_state_compound() {
                    self.bag.push(Box::new(SVal(x)));
                }
            }
        }
        r
    }
}

/// Operations which lead from the default to `v`.
pub fn ops_for(n: &Node, v: &V) -> Vec<Op> {
    match (n.strip(), v) {
        (Node::St(d), V::St(xs)) if d.state => (0..d.fields.len())
            .filter(|&i| xs[i] != default_v(&d.fields[i].ty))
            .map(|i| Op::Set(i, xs[i].clone(), How::Plain))
            .collect(),
        (Node::En(d), V::En(j, xs)) if d.state => {
            (0..xs.len()).map(|i| Op::SetV(*j, i, xs[i].clone(), How::Plain)).collect()
        }
        (Node::List(_), V::Seq(xs)) => xs.iter().map(|x| Op::Push(x.clone(), How::Plain)).collect(),
        (Node::Map(..), V::Map(xs)) => xs.iter().map(|(k, x)| Op::Insert(*k, x.clone(), How::Plain)).collect(),
        _ => vec![],
    }
}

fn grow<T: RealState>(v: &V, rt: Runtime, cx: &mut Cx) -> T {
    let mut x = T::with_runtime(rt.clone());
    let keep = std::mem::replace(&mut cx.keep, false);
    for op in ops_for(T::node(), v) {
        x.apply(&[], &op, cx);
    }
    cx.keep = keep;
    if x.to_v() == *v {
        x
    } else {
        // Not reachable by mutators alone.
        T::build(v, &rt)
    }
}

pub trait Real: Sized + 'static + Serialize + Deserialize {
    fn node() -> NodeRef;
    fn to_v(&self) -> V;
    /// `rt` is the runtime of the place where the value is going to live.
    fn build(v: &V, rt: &Runtime) -> Self;
}

pub trait RealState: Real + State {
    fn apply(&mut self, _at: &[Step], op: &Op, _cx: &mut Cx) -> Ret {
        match op {
            Op::Read(k) => read_ops(self, *k),
            _ => panic!("HARNESS: {:?} on {}", op, Self::node().name()),
        }
    }
    /// Paths carried by the states inside, in the order of `model::addresses`.
    fn walk(&self, _out: &mut Vec<Vec<u32>>) {}
    /// Whether all ways to look things up agree.
    fn lookups(&mut self) -> Result<(), String> {
        Ok(())
    }
    fn runtime_opt(&self) -> Option<Runtime> {
        Some(self.runtime().clone())
    }
}

pub fn read_ops<T: RealState>(x: &T, k: u8) -> Ret {
    match k % 5 {
        0 => drop(x.to_bytes()),
        1 => drop(x.compute_size()),
        2 => drop((x.cache_size(), x.cached_size(), x.is_omissible(None))),
        3 => {
            x.cache_size();
            x.serialize_nested(3, true, &mut Vec::new()).unwrap();
        }
        _ => drop((x.to_v(), x.compute_size_nested(None, false).unwrap())),
    }
    Ret::Unit
}

macro_rules! prim {
    ($t:ty, $n:expr, $pat:pat => $e:expr, $x:ident => $v:expr) => {
        impl Real for $t {
            fn node() -> NodeRef {
                intern::<$t>(|| $n)
            }
            fn to_v(&self) -> V {
                let $x = self;
                $v
            }
            fn build(v: &V, _: &Runtime) -> Self {
                match v {
                    $pat => $e,
                    v => panic!("HARNESS: {:?} is not a {}", v, stringify!($t)),
                }
            }
        }
    };
    (state $t:ty) => {
        impl RealState for $t {
            fn runtime_opt(&self) -> Option<Runtime> {
                None
            }
        }
    };
}

macro_rules! ints {
    ($($t:ident $s:literal $b:literal $k:ident $w:ident),*) => {$(
        prim!($t, Node::Int { signed: $s, bits: $b }, V::$k(x) => {
            let y = *x as $t;
            assert!(y as $w == *x, "HARNESS: out of range");
            y
        }, x => V::$k(*x as $w));
        prim!(state $t);
    )*};
}

ints!(u8 false 8 U u64, u16 false 16 U u64, u32 false 32 U u64, u64 false 64 U u64);
ints!(i8 true 8 I i64, i16 true 16 I i64, i32 true 32 I i64, i64 true 64 I i64);
prim!(bool, Node::Bool, V::B(x) => *x, x => V::B(*x));
prim!(state bool);
prim!(String, Node::Str, V::S(x) => x.clone(), x => V::S(x.clone()));
prim!(Bytes, Node::Bytes, V::By(x) => Bytes::from_raw(x.clone()), x => V::By(x.clone().into_raw()));

fn seq(v: &V) -> &Vec<V> {
    match v {
        V::Seq(x) => x,
        v => panic!("HARNESS: {:?} is not a sequence", v),
    }
}

impl<T: Real> Real for Vec<T> {
    fn node() -> NodeRef {
        intern::<Self>(|| Node::Vec(Ty(T::node)))
    }
    fn to_v(&self) -> V {
        V::Seq(self.iter().map(|x| x.to_v()).collect())
    }
    fn build(v: &V, rt: &Runtime) -> Self {
        seq(v).iter().map(|x| T::build(x, rt)).collect()
    }
}

macro_rules! arrays {
    ($($n:literal)*) => {$(
        impl<T: Real> Real for [T; $n] where [T; $n]: Default {
            fn node() -> NodeRef {
                intern::<Self>(|| Node::Arr(Ty(T::node), $n))
            }
            fn to_v(&self) -> V {
                V::Seq(self.iter().map(|x| x.to_v()).collect())
            }
            fn build(v: &V, rt: &Runtime) -> Self {
                let mut out = Self::default();
                assert_eq!(out.len(), seq(v).len(), "HARNESS: array length");
                for (o, x) in out.iter_mut().zip(seq(v)) {
                    *o = T::build(x, rt);
                }
                out
            }
        }
    )*};
}
arrays!(1 2 3 4 5 6 7);

macro_rules! tuples {
    ($($($t:ident $i:tt)+;)*) => {$(
        impl<$($t: Real),+> Real for ($($t),+) {
            fn node() -> NodeRef {
                intern::<Self>(|| Node::Tup(vec![$(Ty($t::node)),+]))
            }
            fn to_v(&self) -> V {
                V::Seq(vec![$(self.$i.to_v()),+])
            }
            fn build(v: &V, rt: &Runtime) -> Self {
                let v = seq(v);
                ($($t::build(&v[$i], rt)),+)
            }
        }
    )*};
}
tuples! {
    A 0 B 1;
    A 0 B 1 C 2;
    A 0 B 1 C 2 D 3;
    A 0 B 1 C 2 D 3 E 4;
    A 0 B 1 C 2 D 3 E 4 F 5;
    A 0 B 1 C 2 D 3 E 4 F 5 G 6;
}

impl<K: Real + Eq + Hash, T: Real> Real for HashMap<K, T> {
    fn node() -> NodeRef {
        intern::<Self>(|| Node::Hm(Ty(K::node), Ty(T::node)))
    }
    fn to_v(&self) -> V {
        V::Hm(self.iter().map(|(k, x)| (k.to_v(), x.to_v())).collect())
    }
    fn build(v: &V, rt: &Runtime) -> Self {
        match v {
            V::Hm(xs) => xs.iter().map(|(k, x)| (K::build(k, rt), T::build(x, rt))).collect(),
            v => panic!("HARNESS: {:?} is not a hash map", v),
        }
    }
}

impl<T: Real> Real for Option<T> {
    fn node() -> NodeRef {
        intern::<Self>(|| Node::Opt(Ty(T::node)))
    }
    fn to_v(&self) -> V {
        V::Opt(self.as_ref().map(|x| Box::new(x.to_v())))
    }
    fn build(v: &V, rt: &Runtime) -> Self {
        match v {
            V::Opt(x) => x.as_ref().map(|x| T::build(x, rt)),
            v => panic!("HARNESS: {:?} is not an option", v),
        }
    }
}

impl<T: Real> Real for Box<T> {
    fn node() -> NodeRef {
        intern::<Self>(|| Node::Boxed(Ty(T::node)))
    }
    fn to_v(&self) -> V {
        (**self).to_v()
    }
    fn build(v: &V, rt: &Runtime) -> Self {
        Box::new(T::build(v, rt))
    }
}

impl<T: RealState> RealState for Box<T> {
    fn apply(&mut self, at: &[Step], op: &Op, cx: &mut Cx) -> Ret {
        match op {
            Op::Read(k) if at.is_empty() => read_ops(self, *k),
            _ => (**self).apply(at, op, cx),
        }
    }
    fn walk(&self, out: &mut Vec<Vec<u32>>) {
        (**self).walk(out)
    }
    fn lookups(&mut self) -> Result<(), String> {
        (**self).lookups()
    }
    fn runtime_opt(&self) -> Option<Runtime> {
        (**self).runtime_opt()
    }
}

impl<T: RealState> Real for List<T>
where
    List<T>: Default,
{
    fn node() -> NodeRef {
        intern::<Self>(|| Node::List(Ty(T::node)))
    }
    fn to_v(&self) -> V {
        V::Seq(self.iter().map(|x| x.to_v()).collect())
    }
    fn build(v: &V, rt: &Runtime) -> Self {
        // `from_iter` has to put the items in their places.
        List::from_iter(rt.clone(), seq(v).iter().map(|x| T::build(x, &Runtime::new())))
    }
}

impl<T: RealState> RealState for List<T>
where
    List<T>: Default,
{
    fn apply(&mut self, at: &[Step], op: &Op, cx: &mut Cx) -> Ret {
        if let Some((s, rest)) = at.split_first() {
            return match *s {
                Step::I(i, m) => match m % 4 {
                    0 => self.get_mut(i).unwrap().apply(rest, op, cx),
                    1 => self[i].apply(rest, op, cx),
                    2 => self.iter_mut().nth(i).unwrap().apply(rest, op, cx),
                    _ => (&mut *self).into_iter().nth(i).unwrap().apply(rest, op, cx),
                },
                s => panic!("HARNESS: {:?} on a list", s),
            };
        }
        match op {
            Op::Push(v, how) => {
                if how.is_with() {
                    Ret::Idx(self.push_with(|rt| cx.cb(v, *how, rt)))
                } else {
                    let x = cx.val(v, *how, self.runtime());
                    Ret::Idx(self.push(x))
                }
            }
            Op::Pop => {
                let x = self.pop();
                cx.gone(x)
            }
            Op::SwapRemove(i) => {
                let x = self.swap_remove(*i);
                cx.gone(x)
            }
            Op::Read(k) => {
                drop((self.len(), self.first().is_some(), self.iter().count(), self.get_mut(0).is_some()));
                read_ops(self, *k)
            }
            op => panic!("HARNESS: {:?} on a list", op),
        }
    }
    fn walk(&self, out: &mut Vec<Vec<u32>>) {
        out.push(self.runtime().path().collect_values());
        self.iter().for_each(|x| x.walk(out));
    }
    fn lookups(&mut self) -> Result<(), String> {
        let all: Vec<V> = self.iter().map(|x| x.to_v()).collect();
        let n = all.len();
        if self.len() != n || self.is_empty() != (n == 0) {
            return Err(format!("list: len {} but {} items", self.len(), n));
        }
        for (i, x) in all.iter().enumerate() {
            if self.get(i).map(|y| y.to_v()).as_ref() != Some(x)
                || self.get_mut(i).map(|y| y.to_v()).as_ref() != Some(x)
                || self[i].to_v() != *x
            {
                return Err(format!("list: lookups of item {} disagree", i));
            }
        }
        let im: Vec<V> = self.iter_mut().map(|x| x.to_v()).collect();
        let ii: Vec<V> = (&*self).into_iter().map(|x| x.to_v()).collect();
        let iim: Vec<V> = (&mut *self).into_iter().map(|x| x.to_v()).collect();
        if im != all || ii != all || iim != all {
            return Err("list: iterators disagree".into());
        }
        if self.get(n).is_some() || self.get_mut(n).is_some() {
            return Err("list: item beyond the end".into());
        }
        for x in self.iter_mut() {
            x.lookups()?;
        }
        Ok(())
    }
}

/// Map keys of the harness.
pub trait HKey: MapKey + 'static {
    const KIND: KeyK;
    fn of(k: u32) -> Self;
}

impl HKey for u8 {
    const KIND: KeyK = KeyK::U8;
    fn of(k: u32) -> Self {
        k as u8
    }
}

impl HKey for u16 {
    const KIND: KeyK = KeyK::U16;
    fn of(k: u32) -> Self {
        k as u16
    }
}

impl HKey for u32 {
    const KIND: KeyK = KeyK::U32;
    fn of(k: u32) -> Self {
        k
    }
}

/// A key type which allows only a few field numbers.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct CKey(pub u32);

impl MapKey for CKey {
    fn try_from_field_number(n: u32) -> io::Result<Self> {
        if CUSTOM_KEYS.contains(&n) {
            Ok(CKey(n))
        } else {
            Err(io::Error::new(io::ErrorKind::InvalidData, "no such key"))
        }
    }
    fn as_field_number(&self) -> u32 {
        self.0
    }
}

impl HKey for CKey {
    const KIND: KeyK = KeyK::Custom;
    fn of(k: u32) -> Self {
        CKey(k)
    }
}

impl<K: HKey + Eq + Hash, T: RealState> Real for Map<K, T> {
    fn node() -> NodeRef {
        intern::<Self>(|| Node::Map(K::KIND, Ty(T::node)))
    }
    fn to_v(&self) -> V {
        V::Map(self.iter().map(|(k, x)| (k.as_field_number(), x.to_v())).collect())
    }
    fn build(v: &V, rt: &Runtime) -> Self {
        match v {
            V::Map(xs) => {
                Map::from_iter(rt.clone(), xs.iter().map(|(k, x)| (K::of(*k), T::build(x, &Runtime::new()))))
            }
            v => panic!("HARNESS: {:?} is not a map", v),
        }
    }
}

impl<K: HKey + Eq + Hash, T: RealState> RealState for Map<K, T> {
    fn apply(&mut self, at: &[Step], op: &Op, cx: &mut Cx) -> Ret {
        if let Some((s, rest)) = at.split_first() {
            return match *s {
                Step::K(k, m) => match m % 4 {
                    0 => self.get_mut(&K::of(k)).unwrap().apply(rest, op, cx),
                    1 => self[&K::of(k)].apply(rest, op, cx),
                    2 => self.iter_mut().find(|x| x.0.as_field_number() == k).unwrap().1.apply(rest, op, cx),
                    _ => {
                        let mut it = (&mut *self).into_iter();
                        it.find(|x| x.0.as_field_number() == k).unwrap().1.apply(rest, op, cx)
                    }
                },
                s => panic!("HARNESS: {:?} on a map", s),
            };
        }
        match op {
            Op::Insert(k, v, how) => {
                let old = if how.is_with() {
                    self.insert_with(K::of(*k), |rt| cx.cb(v, *how, rt))
                } else {
                    let x = cx.val(v, *how, self.runtime());
                    self.insert(K::of(*k), x)
                };
                cx.gone(old)
            }
            Op::Remove(k) => {
                let old = self.remove(&K::of(*k));
                cx.gone(old)
            }
            Op::Read(k) => {
                drop((self.len(), self.iter().count(), self.iter_mut().count(), self.contains(&K::of(1))));
                drop(self.get_mut(&K::of(2)).is_some());
                read_ops(self, *k)
            }
            op => panic!("HARNESS: {:?} on a map", op),
        }
    }
    fn walk(&self, out: &mut Vec<Vec<u32>>) {
        out.push(self.runtime().path().collect_values());
        self.iter().for_each(|(_, x)| x.walk(out));
    }
    fn lookups(&mut self) -> Result<(), String> {
        let all: Vec<(u32, V)> = self.iter().map(|(k, x)| (k.as_field_number(), x.to_v())).collect();
        if self.len() != all.len() {
            return Err(format!("map: len {} but {} entries", self.len(), all.len()));
        }
        for (k, x) in &all {
            let key = K::of(*k);
            if !self.contains(&key)
                || self.get(&key).map(|y| y.to_v()).as_ref() != Some(x)
                || self.get_mut(&key).map(|y| y.to_v()).as_ref() != Some(x)
                || self[&key].to_v() != *x
            {
                return Err(format!("map: lookups of key {} disagree", k));
            }
        }
        let im: Vec<_> = self.iter_mut().map(|(k, x)| (k.as_field_number(), x.to_v())).collect();
        let ii: Vec<_> = (&*self).into_iter().map(|(k, x)| (k.as_field_number(), x.to_v())).collect();
        let iim: Vec<_> = (&mut *self).into_iter().map(|(k, x)| (k.as_field_number(), x.to_v())).collect();
        if im != all || ii != all || iim != all {
            return Err("map: iterators disagree".into());
        }
        for k in [0u32, 1, 2, 3, 4, 5, 7, 15, 16, 127, 128, 200, 255] {
            let key = K::of(k);
            if !all.iter().any(|x| x.0 == k)
                && (self.contains(&key) || self.get(&key).is_some() || self.get_mut(&key).is_some())
            {
                return Err(format!("map: absent key {} found", k));
            }
        }
        for (_, x) in self.iter_mut() {
            x.lookups()?;
        }
        Ok(())
    }
}

impl<T: RealState> Real for Maybe<T> {
    fn node() -> NodeRef {
        intern::<Self>(|| {
            Node::En(EnumD {
                name: format!("Maybe<{}>", std::any::type_name::<T>()),
                state: true,
                variants: vec![
                    VariantD { name: "None", tag: 0, fields: vec![] },
                    VariantD {
                        name: "Some",
                        tag: 1,
                        fields: vec![FieldD {
                            name: "value",
                            tag: 0,
                            ty: Ty(T::node),
                            no_state: false,
                            no_eq: false,
                            no_hash: false,
                        }],
                    },
                ],
            })
        })
    }
    fn to_v(&self) -> V {
        assert_eq!(self.is_some(), !self.is_none(), "Maybe: is_some and is_none agree");
        match self {
            Maybe::None { .. } => V::En(0, vec![]),
            Maybe::Some { value, .. } => V::En(1, vec![value.to_v()]),
        }
    }
    fn build(v: &V, rt: &Runtime) -> Self {
        match v {
            V::En(0, _) => Maybe::none(rt.clone()),
            V::En(_, xs) if weight(v) % 2 == 0 => Maybe::some(rt.clone(), T::build(&xs[0], &Runtime::new())),
            V::En(_, xs) => Maybe::from_option(rt.clone(), Some(T::build(&xs[0], &Runtime::new()))),
            v => panic!("HARNESS: {:?} is not a Maybe", v),
        }
    }
}

impl<T: RealState> RealState for Maybe<T> {
    fn apply(&mut self, at: &[Step], op: &Op, cx: &mut Cx) -> Ret {
        if let Some((s, rest)) = at.split_first() {
            return match (s, self) {
                (Step::VF(1, 0), Maybe::Some { value, .. }) => value.apply(rest, op, cx),
                (s, _) => panic!("HARNESS: {:?} on Maybe", s),
            };
        }
        match op {
            Op::SetV(1, 0, v, how) => {
                if how.is_with() {
                    self.set_some_value_with(|rt| cx.cb(v, *how, rt));
                } else {
                    let x = cx.val(v, *how, State::runtime(self));
                    self.set_some_value(x);
                }
                Ret::Unit
            }
            Op::Read(k) => read_ops(self, *k),
            op => panic!("HARNESS: {:?} on Maybe", op),
        }
    }
    fn walk(&self, out: &mut Vec<Vec<u32>>) {
        out.push(State::runtime(self).path().collect_values());
        if let Maybe::Some { value, .. } = self {
            value.walk(out);
        }
    }
    fn lookups(&mut self) -> Result<(), String> {
        match self {
            Maybe::Some { value, .. } => value.lookups(),
            _ => Ok(()),
        }
    }
}

// ---------------------------------------------------------------- object-safe access

pub trait DynVal {
    fn node(&self) -> NodeRef;
    fn to_v(&self) -> V;
    fn ser(&self, w: &mut dyn Write) -> io::Result<()>;
    fn ser_cached(&self, w: &mut dyn Write) -> io::Result<()>;
    fn ser_nested(&self, field: Option<u32>, omit: bool, w: &mut dyn Write) -> io::Result<()>;
    fn to_bytes(&self) -> Vec<u8>;
    fn compute_size(&self) -> u32;
    fn cache_size(&self) -> u32;
    fn cached_size(&self) -> u32;
    fn size_nested(&self, field: Option<u32>, omit: bool) -> io::Result<u32>;
    fn is_omissible(&self) -> bool;
    fn sized(&self) -> bool;
    fn merge(&mut self, r: &mut dyn Read) -> io::Result<()>;
    /// `merge_nested` with the type's own wire type.
    fn merge_nested(&mut self, r: &mut Reader<&mut dyn Read>) -> io::Result<()>;
    /// A fresh value of the same type decoded from the source.
    fn de(&self, r: &mut dyn Read) -> io::Result<Box<dyn DynVal>>;
    fn de_nested(&self, r: &mut Reader<&mut dyn Read>) -> io::Result<Box<dyn DynVal>>;
    fn as_any(&self) -> &dyn Any;
    fn as_bytes_value(&self) -> Bytes;

    // States only.
    fn is_state(&self) -> bool;
    fn apply(&mut self, at: &[Step], op: &Op, cx: &mut Cx) -> Ret;
    fn walk(&self) -> Vec<Vec<u32>>;
    fn lookups(&mut self) -> Result<(), String>;
    fn replay(&mut self, r: &mut dyn Read) -> io::Result<()>;
    fn set_runtime(&mut self, rt: Runtime);
    fn runtime_opt(&self) -> Option<Runtime>;
    fn is_root(&self) -> bool;
    fn is_child(&self) -> bool;
}

pub struct PVal<T: Real>(pub T);
pub struct SVal<T: RealState>(pub T);

macro_rules! common {
    ($wrap:ident) => {
        fn node(&self) -> NodeRef {
            T::node()
        }
        fn to_v(&self) -> V {
            self.0.to_v()
        }
        fn ser(&self, mut w: &mut dyn Write) -> io::Result<()> {
            self.0.steit_serialize(&mut w)
        }
        fn ser_cached(&self, mut w: &mut dyn Write) -> io::Result<()> {
            self.0.serialize_cached(&mut w)
        }
        fn ser_nested(&self, field: Option<u32>, omit: bool, mut w: &mut dyn Write) -> io::Result<()> {
            self.0.serialize_nested(field, omit, &mut w)
        }
        fn to_bytes(&self) -> Vec<u8> {
            self.0.to_bytes()
        }
        fn compute_size(&self) -> u32 {
            self.0.compute_size()
        }
        fn cache_size(&self) -> u32 {
            self.0.cache_size()
        }
        fn cached_size(&self) -> u32 {
            self.0.cached_size()
        }
        fn size_nested(&self, field: Option<u32>, omit: bool) -> io::Result<u32> {
            self.0.compute_size_nested(field, omit)
        }
        fn is_omissible(&self) -> bool {
            self.0.is_omissible(None)
        }
        fn sized(&self) -> bool {
            T::WIRE_TYPE == steit::wire_fmt::WireType::Sized
        }
        fn merge(&mut self, r: &mut dyn Read) -> io::Result<()> {
            self.0.merge(&mut Reader::new(r))
        }
        fn merge_nested(&mut self, r: &mut Reader<&mut dyn Read>) -> io::Result<()> {
            self.0.merge_nested(T::WIRE_TYPE, r)
        }
        fn de(&self, r: &mut dyn Read) -> io::Result<Box<dyn DynVal>> {
            Ok(Box::new($wrap(T::deserialize(&mut Reader::new(r))?)))
        }
        fn de_nested(&self, r: &mut Reader<&mut dyn Read>) -> io::Result<Box<dyn DynVal>> {
            Ok(Box::new($wrap(T::deserialize_nested(T::WIRE_TYPE, r)?)))
        }
        fn as_any(&self) -> &dyn Any {
            &self.0
        }
        fn as_bytes_value(&self) -> Bytes {
            Bytes::from_value(&self.0)
        }
    };
}

impl<T: Real> DynVal for PVal<T> {
    common!(PVal);
    fn is_state(&self) -> bool {
        false
    }
    fn apply(&mut self, _: &[Step], _: &Op, _: &mut Cx) -> Ret {
        panic!("HARNESS: not a state")
    }
    fn walk(&self) -> Vec<Vec<u32>> {
        vec![]
    }
    fn lookups(&mut self) -> Result<(), String> {
        Ok(())
    }
    fn replay(&mut self, _: &mut dyn Read) -> io::Result<()> {
        panic!("HARNESS: not a state")
    }
    fn set_runtime(&mut self, _: Runtime) {
        panic!("HARNESS: not a state")
    }
    fn runtime_opt(&self) -> Option<Runtime> {
        None
    }
    fn is_root(&self) -> bool {
        panic!("HARNESS: not a state")
    }
    fn is_child(&self) -> bool {
        panic!("HARNESS: not a state")
    }
}

impl<T: RealState> DynVal for SVal<T> {
    common!(SVal);
    fn is_state(&self) -> bool {
        true
    }
    fn apply(&mut self, at: &[Step], op: &Op, cx: &mut Cx) -> Ret {
        self.0.apply(at, op, cx)
    }
    fn walk(&self) -> Vec<Vec<u32>> {
        let mut out = vec![];
        self.0.walk(&mut out);
        out
    }
    fn lookups(&mut self) -> Result<(), String> {
        self.0.lookups()
    }
    fn replay(&mut self, r: &mut dyn Read) -> io::Result<()> {
        self.0.replay(&mut Reader::new(r))
    }
    fn set_runtime(&mut self, rt: Runtime) {
        self.0.set_runtime(rt)
    }
    fn runtime_opt(&self) -> Option<Runtime> {
        self.0.runtime_opt()
    }
    fn is_root(&self) -> bool {
        self.0.is_root()
    }
    fn is_child(&self) -> bool {
        self.0.is_child()
    }
}

pub type EqFn = fn(&dyn Any, &dyn Any) -> bool;
pub type HashFn = fn(&dyn Any) -> u64;
pub type CloneFn = fn(&dyn Any) -> Box<dyn DynVal>;
pub type DebugFn = fn(&dyn Any) -> String;

/// What the registry knows about a type.
#[derive(Clone, Copy)]
pub struct TyInfo {
    pub name: &'static str,
    pub node: fn() -> NodeRef,
    pub state: bool,
    pub dflt: fn() -> Box<dyn DynVal>,
    pub build: fn(&V, &Runtime) -> Box<dyn DynVal>,
    pub with_rt: Option<fn(Runtime) -> Box<dyn DynVal>>,
    pub eq: Option<EqFn>,
    pub hash: Option<HashFn>,
    pub clone: Option<CloneFn>,
    pub debug: Option<DebugFn>,
}

impl TyInfo {
    /// A state which can hold a runtime and receive operations.
    pub fn root_ok(&self) -> bool {
        self.state && (self.node)().is_state_compound()
    }
}

pub fn p_info<T: Real>(name: &'static str) -> TyInfo {
    TyInfo {
        name,
        node: T::node,
        state: false,
        dflt: || Box::new(PVal(T::default())),
        build: |v, rt| Box::new(PVal(T::build(v, rt))),
        with_rt: None,
        eq: None,
        hash: None,
        clone: None,
        debug: None,
    }
}

pub fn s_info<T: RealState>(name: &'static str) -> TyInfo {
    TyInfo {
        name,
        node: T::node,
        state: true,
        dflt: || Box::new(SVal(T::default())),
        build: |v, rt| Box::new(SVal(T::build(v, rt))),
        with_rt: Some(|rt| Box::new(SVal(T::with_runtime(rt)))),
        eq: None,
        hash: None,
        clone: None,
        debug: None,
    }
}

pub fn f_eq<T: PartialEq + 'static>() -> Option<EqFn> {
    Some(|a, b| {
        let (a, b) = (a.downcast_ref::<T>().unwrap(), b.downcast_ref::<T>().unwrap());
        let r = a == b;
        assert_eq!(r, !(a != b), "== and != disagree");
        r
    })
}

pub fn f_hash<T: Hash + 'static>() -> Option<HashFn> {
    Some(|a| {
        use std::{collections::hash_map::DefaultHasher, hash::Hasher};
        let mut h = DefaultHasher::new();
        a.downcast_ref::<T>().unwrap().hash(&mut h);
        h.finish()
    })
}

pub fn f_clone_p<T: Clone + Real>() -> Option<CloneFn> {
    Some(|a| Box::new(PVal(a.downcast_ref::<T>().unwrap().clone())))
}

pub fn f_clone_s<T: Clone + RealState>() -> Option<CloneFn> {
    Some(|a| Box::new(SVal(a.downcast_ref::<T>().unwrap().clone())))
}

pub fn f_debug<T: std::fmt::Debug + 'static>() -> Option<DebugFn> {
    Some(|a| format!("{:?}", a.downcast_ref::<T>().unwrap()))
}

// Declared so that derived code has a uniform way to name the wire type.
pub fn is_sized<T: HasWireType>() -> bool {
    T::WIRE_TYPE == steit::wire_fmt::WireType::Sized
}

impl steit::meta::HasMeta for CKey {
    const NAME: &'static steit::meta::NameMeta = <u32 as steit::meta::HasMeta>::NAME;
    const TYPE: &'static steit::meta::TypeMeta = <u32 as steit::meta::HasMeta>::TYPE;
    const LINK: &'static steit::meta::MetaLink = <u32 as steit::meta::HasMeta>::LINK;
}
