//! Checks about encoding and decoding.
use std::io::{self, Read};

use steit::{
    de::{Deserialize, Reader},
    log::LogEntry,
    rt::Runtime,
    ser::Serialize,
    wire_fmt::{self, HasWireType, WireType},
};

use crate::{ensure, gen::*, model::*, mon::*, real::*, rng::*, viol};

/// A value of some type which came about in one of many ways. Returns what steit itself holds.
pub fn subject(c: &mut Case) -> Result<(TyInfo, Box<dyn DynVal>, V), String> {
    let info = if c.r.chance(1, 2) { c.any_type() } else { c.state_type() };
    let n = (info.node)();
    let v = c.val(n);
    let way = c.r.below(6);
    let real = match way {
        0 | 1 => (info.build)(&v, &Runtime::new()),
        2 => {
            let v1 = c.val(n);
            let mut x = (info.build)(&v1, &Runtime::new());
            let b = enc(n, &v);
            if let Err(e) = x.merge(&mut &b[..]) {
                viol!("{}: merging the encoding of {} fails: {}", info.name, short(&v), e);
            }
            x
        }
        3 if info.clone.is_some() => {
            let x = (info.build)(&v, &Runtime::new());
            drop(x.to_bytes());
            (info.clone.unwrap())(x.as_any())
        }
        _ if info.root_ok() => {
            let mut ep = Ep::start(c, info)?;
            for _ in 0..1 + c.r.below(12) {
                let (at, op) = ep.gen_op(c, &HOWS);
                c.say(format!("{:?} {:?}", at, op));
                ep.real.apply(&at, &op, &mut ep.cx);
            }
            ep.real
        }
        _ => (info.build)(&v, &Runtime::new()),
    };
    let v = real.to_v();
    c.say(format!("{} by way {}: {}", info.name, way, short(&v)));
    c.count(&format!("way {}", way), 1);
    Ok((info, real, v))
}

fn equal(info: &TyInfo, a: &dyn DynVal, b: &dyn DynVal) -> bool {
    info.eq.map_or(true, |f| f(a.as_any(), b.as_any()))
}

// ---------------------------------------------------------------- C01

pub fn c01(c: &mut Case) -> Res {
    let (info, mut real, _) = subject(c)?;
    let n = (info.node)();
    let mut cx = Cx::new();
    for round in 0..1 + c.r.below(3) {
        if round > 0 {
            if !info.root_ok() {
                break;
            }
            let v = real.to_v();
            let (at, op) = G::new(&mut c.r, 12).op(n, &v, &HOWS);
            c.say(format!("{:?} {:?}", at, op));
            real.apply(&at, &op, &mut cx);
        }
        let v = real.to_v();
        let bytes = real.to_bytes();
        ensure!(real.to_v() == v, "{}: encoding changed the value: {}", info.name, diff(&real.to_v(), &v));
        let back = match c.r.below(4) {
            0 if info.with_rt.is_some() => {
                let mut x = (info.with_rt.unwrap())(Runtime::new());
                x.merge(&mut &bytes[..]).map(|_| x)
            }
            1 => {
                let mut out = vec![];
                real.cache_size();
                real.ser_nested(None, false, &mut out).map_err(|e| format!("{}: {}", info.name, e))?;
                let mut src = &out[..];
                let src: &mut dyn Read = &mut src;
                real.de_nested(&mut Reader::new(src))
            }
            2 => {
                let raw = real.as_bytes_value().into_raw();
                ensure!(raw.len() == bytes.len(), "{}: Bytes::from_value differs from to_bytes", info.name);
                real.de(&mut &raw[..])
            }
            _ => real.de(&mut &bytes[..]),
        };
        let back = match back {
            Ok(x) => x,
            Err(e) => viol!("{}: own encoding of {} is refused: {} ({:?})", info.name, short(&v), e, bytes),
        };
        let v2 = back.to_v();
        ensure!(v2 == v, "{}: decoded value differs {} (bytes {:?})", info.name, diff(&v2, &v), bytes);
        ensure!(equal(&info, &*real, &*back), "{}: decoded value is not equal to {}", info.name, short(&v));
        let again = back.to_bytes();
        if n.has_hm() {
            let v3 = back.de(&mut &again[..]).map_err(|e| format!("{}: second encoding refused: {}", info.name, e))?;
            ensure!(v3.to_v() == v, "{}: second round trip differs {}", info.name, diff(&v3.to_v(), &v));
        } else {
            ensure!(again == bytes, "{}: encoding again gives {:?} instead of {:?}", info.name, again, bytes);
        }
        c.eval(if nontrivial(&v) { Some(fp_v(info.name, &v)) } else { None });
        c.count("bytes", bytes.len() as u64);
        c.sample(|| format!("{} {:?} -> {} bytes", info.name, v, bytes.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

const FIELDS: [Option<u32>; 8] =
    [None, Some(0), Some(15), Some(16), Some(2047), Some(2048), Some(33_554_432), Some(FIELD_MAX)];

/// All announcements about a value which just came to rest.
fn sizes(c: &mut Case, name: &str, real: &dyn DynVal, want: usize) -> Res {
    for _ in 0..2 + c.r.below(5) {
        c.count("size queries", 1);
        match c.r.below(7) {
            0 => {
                let s = real.compute_size() as usize;
                ensure!(s == want, "{}: compute_size announces {} for {} bytes", name, s, want)
            }
            1 => {
                let s = real.cache_size() as usize;
                ensure!(s == want, "{}: cache_size announces {} for {} bytes", name, s, want);
                let s = real.cached_size() as usize;
                ensure!(s == want, "{}: cached_size announces {} for {} bytes", name, s, want)
            }
            2 => {
                let b = real.to_bytes();
                ensure!(b.len() == want, "{}: {} bytes written instead of {}", name, b.len(), want);
                let s = real.cached_size() as usize;
                ensure!(s == want, "{}: cached_size announces {} after writing {} bytes", name, s, want)
            }
            3 => {
                real.cache_size();
                let mut b = vec![];
                real.ser_cached(&mut b).map_err(|e| e.to_string())?;
                ensure!(b.len() == want, "{}: {} bytes written from caches instead of {}", name, b.len(), want)
            }
            4 => {
                let e = real.size_nested(Some(FIELD_MAX + 1), false);
                ensure!(e.is_err(), "{}: field number 2^29 is accepted", name);
            }
            _ => {
                let f = *c.r.pick(&FIELDS);
                let omit = c.r.chance(1, 2);
                let s = real.size_nested(f, omit).map_err(|e| e.to_string())? as usize;
                let mut b = vec![];
                real.ser_nested(f, omit, &mut b).map_err(|e| e.to_string())?;
                ensure!(
                    s == b.len(),
                    "{}: {} bytes announced, {} written as field {:?} (omissible: {})",
                    name, s, b.len(), f, omit
                );
                if f.is_some() && omit && real.is_omissible() {
                    ensure!(b.is_empty(), "{}: omissible, but writes {:?} as field {:?}", name, b, f);
                } else {
                    let mut head = vec![];
                    if let Some(f) = f {
                        put_varint(&mut head, (f as u64) << 3 | if real.sized() { 2 } else { 0 });
                    }
                    if real.sized() {
                        put_varint(&mut head, want as u64);
                    }
                    ensure!(
                        b.len() == head.len() + want && b.starts_with(&head),
                        "{}: {} bytes written as field {:?} around {} bytes", name, b.len(), f, want
                    );
                }
            }
        }
    }
    Ok(())
}

pub fn c03(c: &mut Case) -> Res {
    let info = if c.r.chance(1, 3) { c.any_type() } else { c.state_type() };
    let n = (info.node)();
    let mut ep = None;
    let mut plain = None;
    if info.root_ok() {
        ep = Some(Ep::start(c, info)?);
    } else {
        let v = c.val(n);
        plain = Some((info.build)(&v, &Runtime::new()));
    }
    for step in 0..1 + c.r.below(10) {
        // Query and change in turn, so that caches have a chance to go stale.
        if step > 0 {
            if let Some(ep) = &mut ep {
                let (at, op) = ep.gen_op(c, &HOWS);
                c.say(format!("{:?} {:?}", at, op));
                ep.real.apply(&at, &op, &mut ep.cx);
            } else if let Some(x) = &mut plain {
                let v = c.val(n);
                if weight(&x.to_v()) < 300 {
                    x.merge(&mut &enc(n, &v)[..]).map_err(|e| format!("{}: merge fails: {}", info.name, e))?;
                    c.say(format!("merge {}", short(&v)));
                }
            }
        }
        let real: &dyn DynVal = ep.as_ref().map_or_else(|| &**plain.as_ref().unwrap(), |e| &*e.real);
        let v = real.to_v();
        let fresh = (info.build)(&v, &Runtime::new()).to_bytes();
        sizes(c, info.name, real, fresh.len())?;
        let b = real.to_bytes();
        if n.has_hm() {
            ensure!(b.len() == fresh.len(), "{}: {} bytes, {} when built afresh", info.name, b.len(), fresh.len());
        } else {
            ensure!(b == fresh, "{}: bytes {:?} differ from those of an equal fresh value {:?}", info.name, b, fresh);
        }
        ensure!(real.to_v() == v, "{}: measuring changed the value", info.name);
        // Every part which can be measured on its own was part of the above; now caches of parts go first.
        c.eval(if nontrivial(&v) { Some(fp((step, fp_v(info.name, &v)))) } else { None });
        c.sample(|| format!("{} {:?}: {} bytes", info.name, v, b.len()));
        if let Some(ep) = &mut ep {
            for e in ep.fresh_entries() {
                let want = to_entry(&e).body().len();
                let shown = framed(&e);
                let x = PVal(e);
                sizes(c, "LogEntry", &x, x.to_bytes().len())?;
                ensure!(x.to_bytes().len() == want, "LogEntry: {} bytes for a body of {}", x.to_bytes().len(), want);
                let mut pre = vec![];
                put_varint(&mut pre, want as u64);
                ensure!(shown.len() == pre.len() + want, "LogEntry: framed as {} bytes around {}", shown.len(), want);
                c.eval(None);
                c.count("entries", 1);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

pub fn c04(c: &mut Case) -> Res {
    if c.id % 50 == 0 {
        tags(c)?;
    }
    let (info, real, v) = subject(c)?;
    let n = (info.node)();
    let want = enc(n, &v);
    let got = real.to_bytes();
    ensure!(got == want, "{}: {} is encoded as {:?} instead of {:?}", info.name, short(&v), got, want);
    // As a field, as an element.
    let f = *c.r.pick(&FIELDS);
    let omit = c.r.chance(1, 2);
    let mut got = vec![];
    real.cache_size();
    real.ser_nested(f, omit, &mut got).map_err(|e| e.to_string())?;
    let mut want2 = vec![];
    match f {
        Some(_) if omit && omissible(n, &v) => (),
        Some(f) => enc_field(f, n, &v, &mut want2),
        None => enc_nested(n, &v, &mut want2),
    }
    ensure!(got == want2, "{}: {} as field {:?} is {:?} instead of {:?}", info.name, short(&v), f, got, want2);
    // From independent bytes, generated values included.
    let w = c.val(n);
    for (x, b) in [(&v, &want), (&w, &enc(n, &w))] {
        match real.de(&mut &b[..]) {
            Ok(y) => ensure!(y.to_v() == *x, "{}: {:?} decodes differently {}", info.name, b, diff(&y.to_v(), x)),
            Err(e) => viol!("{}: {:?} (of {}) is refused: {}", info.name, b, short(x), e),
        }
        c.eval(if nontrivial(x) { Some(fp_v(info.name, x)) } else { None });
    }
    c.count("bytes", want.len() as u64);
    c.sample(|| format!("{} {:?} = {:?}", info.name, v, clip(&format!("{:?}", want), 200)));
    if info.root_ok() && c.r.chance(1, 2) {
        // Entries of a log.
        let mut ep = Ep::start(c, info)?;
        for _ in 0..1 + c.r.below(8) {
            let mut v = ep.real.to_v();
            let (at, op) = ep.gen_op(c, &HOWS);
            c.say(format!("{:?} {:?}", at, op));
            ep.real.apply(&at, &op, &mut ep.cx);
            let mut exp = vec![];
            apply_op(n, &mut v, &at, &op, &mut vec![], &mut exp);
            let got = ep.fresh_entries();
            for (i, e) in got.iter().enumerate() {
                let m = to_entry(e);
                let b = e.to_bytes();
                ensure!(b == m.body(), "entry {:?} is encoded as {:?} instead of {:?}", e, b, m.body());
                let f = framed(e);
                ensure!(f == m.framed(), "entry {:?} is framed as {:?} instead of {:?}", e, f, m.framed());
                let back = LogEntry::deserialize(&mut Reader::new(&m.body()[..])).map_err(|e| e.to_string())?;
                ensure!(to_entry(&back) == m, "entry {:?} is read back as {:?}", m, back);
                // Payloads, where it is clear what the entry is about.
                if got.len() == exp.len() && exp[i].kind == m.kind && exp[i].path == m.path {
                    ensure!(exp[i].matches(&m), "entry {:?} carries other bytes than {:?}", e, exp[i].entry());
                }
                c.eval(Some(fp(m.body())));
                c.count("entries", 1);
            }
        }
    }
    Ok(())
}

fn tags(c: &mut Case) -> Res {
    for _ in 0..20 {
        let f = int_u(&mut c.r, 32) as u32;
        for (w, k) in [(WireType::Varint, 0), (WireType::Sized, 2)] {
            match wire_fmt::tag(f, w) {
                Ok(t) => {
                    ensure!(f <= FIELD_MAX && t == f << 3 | k, "tag of field {} is {}", f, t);
                    let p = wire_fmt::parse_tag(t).map_err(|e| e.to_string())?;
                    ensure!(p == (f, w), "tag {} is parsed as {:?}", t, p);
                }
                Err(_) => ensure!(f > FIELD_MAX, "field {} is refused", f),
            }
            ensure!(wire_fmt::validate_field_number(f).is_ok() == (f <= FIELD_MAX), "validity of field {}", f);
        }
        let p = wire_fmt::parse_tag(f).ok().map(|(n, w)| (n, w.value() as u32));
        let want = if matches!(f & 7, 0 | 2) { Some((f >> 3, f & 7)) } else { None };
        ensure!(p == want, "tag {} is parsed as {:?} instead of {:?}", f, p, want);
        c.eval(None);
    }
    ensure!(<&str as HasWireType>::WIRE_TYPE == WireType::Sized, "wire type of &str");
    let s = string(&mut c.r);
    ensure!((&s[..]).to_bytes() == s.as_bytes(), "encoding of &str {:?}", s);
    Ok(())
}

// ---------------------------------------------------------------- C05

pub fn hostile(c: &mut Case, n: &Node) -> Vec<u8> {
    match c.r.below(10) {
        0 => {
            let k = c.r.below(40);
            blob(&mut c.r, k)
        }
        1 => {
            let k = *c.r.pick(&[100usize, 1000, 5000]);
            blob(&mut c.r, k)
        }
        2 => {
            // A field or element with a fantastic size.
            let mut b = vec![];
            let v = c.val(n);
            if c.r.chance(1, 2) {
                b = enc(n, &v);
            }
            if c.r.chance(1, 2) {
                put_varint(&mut b, int_u(&mut c.r, 29) << 3 | 2);
            }
            put_varint(&mut b, *c.r.pick(&[1 << 20, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 40, u64::MAX]));
            let k = c.r.below(20);
            b.extend(blob(&mut c.r, k));
            b
        }
        3 => {
            // Many elements at little cost.
            let k = *c.r.pick(&[50usize, 300, 3000]);
            let x = *c.r.pick(&[0u8, 1, 2, 8, 10, 0x80]);
            vec![x; k]
        }
        4 => {
            // Every declared size right but for one.
            let v = c.val(n);
            let mut b = enc(n, &v);
            if !b.is_empty() {
                let i = c.r.below(b.len());
                b[i] = b[i].wrapping_add(*c.r.pick(&[1, 2, 255, 128, 64]));
            }
            b
        }
        _ => {
            let v = c.val(n);
            let mut b = enc(n, &v);
            mutate(&mut c.r, &mut b);
            b
        }
    }
}

pub fn hostile_log(c: &mut Case, n: &Node, v: &V) -> Vec<u8> {
    let mut b = vec![];
    let k = 1 + c.r.below(4);
    for _ in 0..k {
        let mut e = G::new(&mut c.r, 10).entry(n, v);
        if c.r.chance(1, 3) {
            mutate(&mut c.r, &mut e.val);
            if matches!(e.kind, Kind::Pop | Kind::Remove) {
                e.val.clear();
            }
        }
        b.extend(e.framed());
    }
    if c.r.chance(1, 2) {
        mutate(&mut c.r, &mut b);
    }
    b
}

/// Whatever happened to it, a value has to keep working.
pub fn usable(c: &mut Case, info: &TyInfo, x: &mut dyn DynVal) -> Res {
    let n = (info.node)();
    let v = x.to_v();
    x.lookups()?;
    let b = x.to_bytes();
    ensure!(b.len() == x.compute_size() as usize, "{}: afterwards sizes are wrong", info.name);
    let y = x.de(&mut &b[..]).map_err(|e| format!("{}: afterwards {} does not round trip: {}", info.name, short(&v), e))?;
    ensure!(y.to_v() == v, "{}: afterwards decodes differently {}", info.name, diff(&y.to_v(), &v));
    ensure!(equal(info, x, x), "{}: afterwards not equal to itself", info.name);
    if let Some(h) = info.hash {
        h(x.as_any());
    }
    if weight(&v) < 3000 {
        if let Some(d) = info.debug {
            d(x.as_any());
        }
        if let Some(cl) = info.clone {
            let y = cl(x.as_any());
            ensure!(y.to_v() == v, "{}: afterwards clones differ", info.name);
        }
    }
    if info.root_ok() {
        let mut cx = Cx::new();
        for _ in 0..3 {
            let mut w = x.to_v();
            let (at, op) = G::new(&mut c.r, 6).op(n, &w, &HOWS);
            let a = apply_op(n, &mut w, &at, &op, &mut vec![], &mut vec![]);
            let b = x.apply(&at, &op, &mut cx);
            ensure!(a == b, "{}: afterwards {:?} returns {:?} instead of {:?}", info.name, op, b, a);
            ensure!(x.to_v() == w, "{}: afterwards {:?} works differently {}", info.name, op, diff(&x.to_v(), &w));
        }
    }
    // Decoding into it again.
    let w = c.val(n);
    let mut v = x.to_v();
    let b = enc(n, &w);
    merge(n, &mut v, &mut Cur::new(&b)).map_err(|e| format!("HARNESS: {:?}", e))?;
    x.merge(&mut &b[..]).map_err(|e| format!("{}: afterwards merging {} fails: {}", info.name, short(&w), e))?;
    ensure!(x.to_v() == v, "{}: afterwards merging gives another value {}", info.name, diff(&x.to_v(), &v));
    Ok(())
}

/// Some megabytes of acceptable or refusable bytes for a type.
fn large(c: &mut Case, n: &Node) -> Vec<u8> {
    let mut b = vec![];
    let unit = |b: &mut Vec<u8>, x: Vec<u8>, most: usize| {
        if !x.is_empty() {
            for _ in 0..most / x.len() {
                b.extend(&x);
            }
        }
    };
    match n.strip() {
        Node::Str | Node::Bytes => b = vec![b'a' + c.r.below(20) as u8; 4 << 20],
        Node::Vec(t) | Node::List(t) => {
            let mut x = vec![];
            if c.r.chance(1, 2) {
                enc_nested(t, &default_v(t), &mut x);
            } else {
                enc_nested(t, &G::new(&mut c.r, 3).val(t), &mut x);
            }
            unit(&mut b, x, 400_000);
        }
        Node::Map(_, t) => {
            let mut x = vec![];
            let v = G::new(&mut c.r, 2).val(t);
            for k in 0..60_000u64 {
                x.clear();
                enc_nested(t, &v, &mut x);
                put_varint(&mut b, k << 3 | wt(t) as u64);
                b.extend(&x);
            }
        }
        Node::St(_) => {
            let x = enc(n, &G::new(&mut c.r, 6).val(n));
            unit(&mut b, x, 400_000);
        }
        _ => {
            let x = enc(n, &G::new(&mut c.r, 6).val(n));
            unit(&mut b, x, 400_000);
        }
    }
    if matches!(n.strip(), Node::St(_) | Node::En(_)) && c.r.chance(1, 2) {
        // Unknown fields, one large or many small ones.
        let f = int_u(&mut c.r, 29) << 3;
        if c.r.chance(1, 2) {
            put_varint(&mut b, f | 2);
            put_varint(&mut b, 4 << 20);
            b.resize(b.len() + (4 << 20), 9);
        } else {
            for _ in 0..100_000 {
                put_varint(&mut b, f);
                b.push(1);
            }
        }
    }
    b
}

/// Time in proportion to the input, on inputs where anything worse is out of the question.
fn c05_large(c: &mut Case) -> Res {
    // Collections, strings and blobs in turn, and others at random.
    let k = (c.id / 250) as usize;
    let flat: Vec<TyInfo> = c.types.iter().filter(|t| !matches!((t.node)().strip(), Node::St(_) | Node::En(_))).copied().collect();
    let info = if k % 2 == 0 { flat[k / 2 % flat.len()] } else { c.any_type() };
    let n = (info.node)();
    let v = default_v(n);
    let mut x = (info.build)(&v, &Runtime::new());
    let log = info.root_ok() && c.r.chance(1, 3);
    let b = if log {
        let e = G::new(&mut c.r, 4).entry(n, &v);
        let e = e.framed();
        e.iter().copied().cycle().take(e.len() * (300_000 / e.len())).collect()
    } else {
        large(c, n)
    };
    c.say(format!("{}: {} bytes, {}", info.name, b.len(), if log { "a log" } else { "a value" }));
    let t = thread_cpu();
    let (ok, peak) = peak_of(|| if log { x.replay(&mut &b[..]) } else { x.merge(&mut &b[..]) }.is_ok());
    let t = thread_cpu() - t;
    ensure!(t < 4.0, "{}: {} bytes took {:.1} s", info.name, b.len(), t);
    ensure!(peak <= (1 << 20) + 32 * 1024 * b.len() as i64, "{}: {} bytes took {} bytes of memory", info.name, b.len(), peak);
    c.count(if ok { "large inputs accepted" } else { "large inputs refused" }, 1);
    c.count("large inputs: bytes", b.len() as u64);
    c.count("large inputs: milliseconds", (t * 1000.0) as u64);
    c.eval(None);
    Ok(())
}

pub fn c05(c: &mut Case) -> Res {
    if c.id % 250 == 7 {
        return c05_large(c);
    }
    let info = c.any_type();
    let n = (info.node)();
    let v = if c.r.chance(1, 3) { default_v(n) } else { c.val(n) };
    let mut x = (info.build)(&v, &Runtime::new());
    let how = if info.root_ok() { c.r.below(8) } else { c.r.below(5) };
    let b = if how >= 5 { hostile_log(c, n, &v) } else { hostile(c, n) };
    c.say(format!("{} way {} value {} bytes {:?}", info.name, how, short(&v), clip(&format!("{:?}", b), 4000)));
    let ((res, x), peak) = peak_of(move || {
        let mut src = &b[..];
        let r = match how {
            0 | 1 => x.merge(&mut src),
            2 => x.de(&mut src).map(|y| x = y),
            3 => {
                let s: &mut dyn Read = &mut src;
                x.merge_nested(&mut Reader::new(s))
            }
            4 => {
                let s: &mut dyn Read = &mut src;
                x.de_nested(&mut Reader::new(s)).map(|y| x = y)
            }
            _ => x.replay(&mut src),
        };
        ((r, b.len()), x)
    });
    let (r, len) = res;
    let mut x = x;
    let limit = (1 << 20) + 32 * 1024 * len as i64;
    ensure!(peak <= limit, "{}: {} bytes of input took {} bytes of memory", info.name, len, peak);
    c.count(if r.is_ok() { "accepted" } else { "refused" }, 1);
    usable(c, &info, &mut *x)?;
    let key = fp((info.name, how, r.is_ok(), fp_v("", &x.to_v())));
    c.eval(Some(key));
    c.sample(|| format!("{} way {}: {} bytes, {}", info.name, how, len, r.map_or_else(|e| e.to_string(), |_| "accepted".into())));
    // The readers themselves, and entries.
    let b = if c.r.chance(1, 2) {
        hostile(c, (c.types[0].node)())
    } else {
        let e = G::new(&mut c.r, 10).entry(n, &v);
        let mut b = e.framed();
        mutate(&mut c.r, &mut b);
        b
    };
    c.say(format!("reader over {:?}", b));
    let plan: Vec<usize> = (0..12).map(|_| c.r.below(9)).collect();
    let ((), peak) = peak_of(|| {
        let mut r = Reader::new(&b[..]);
        for k in plan {
            let ok = match k {
                0 => r.eof().is_ok(),
                1 => r.read_tag().is_ok(),
                2 => r.skip_field(WireType::Varint).is_ok(),
                3 => r.skip_field(WireType::Sized).is_ok(),
                4 => match r.nested() {
                    Ok(mut s) => {
                        let mut out = vec![];
                        let _ = s.read_tag();
                        s.take(1 << 16).read_to_end(&mut out).is_ok()
                    }
                    Err(_) => false,
                },
                5 => LogEntry::deserialize_nested(LogEntry::WIRE_TYPE, &mut r).is_ok(),
                6 => u64::deserialize(&mut r).is_ok() | u8::deserialize(&mut r).is_ok() | i64::deserialize(&mut r).is_ok(),
                7 => r.as_mut_read().eof().is_ok(),
                _ => bool::deserialize(&mut r).is_ok(),
            };
            if !ok {
                break;
            }
        }
    });
    ensure!(peak <= (1 << 20) + 32 * 1024 * b.len() as i64, "reader: {} bytes of input took {} of memory", b.len(), peak);
    Ok(())
}

// ---------------------------------------------------------------- C06

struct Noise<'a> {
    r: &'a mut Rng,
    /// Also write fields which hold their default.
    defaults: bool,
    unknown: u64,
    foreign: u64,
    big: u64,
}

impl<'a> Noise<'a> {
    fn payload(&mut self, w: u32, out: &mut Vec<u8>) {
        if w == 0 {
            match self.r.below(5) {
                0 => {
                    let k = 1 + self.r.below(9);
                    out.extend(std::iter::repeat(*self.r.pick(&[0xffu8, 0x80])).take(k));
                    out.push(*self.r.pick(&[0, 1, 0x7f]));
                }
                _ => put_varint(out, int_u(self.r, 64)),
            }
        } else {
            let k = match self.r.below(60) {
                0 => {
                    self.big += 1;
                    *self.r.pick(&[16383usize, 16384, 40000, 65535, 65536, 70000])
                }
                1..=3 => *self.r.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 300]),
                4..=20 => 0,
                _ => 1 + self.r.below(6),
            };
            put_varint(out, k as u64);
            out.extend(blob(self.r, k));
        }
    }

    fn unknown(&mut self, known: &[u32], out: &mut Vec<u8>) {
        while self.r.chance(1, 4) {
            let t = if self.r.chance(1, 2) && !known.is_empty() {
                self.r.pick(known).wrapping_add(*self.r.pick(&[1, 2, u32::MAX, 16, 128])) & FIELD_MAX
            } else {
                int_u(self.r, 29) as u32
            };
            if known.contains(&t) {
                continue;
            }
            let w = *self.r.pick(&[0u32, 2]);
            put_varint(out, (t as u64) << 3 | w as u64);
            self.payload(w, out);
            self.unknown += 1;
        }
    }

    /// Known fields with the other wire type.
    fn foreign(&mut self, tag: u32, t: &Node, out: &mut Vec<u8>) {
        if self.r.chance(1, 12) {
            let w = 2 - wt(t);
            put_varint(out, (tag as u64) << 3 | w as u64);
            self.payload(w, out);
            self.foreign += 1;
        }
    }

    fn fields(&mut self, fs: &[FieldD], xs: &[V], out: &mut Vec<u8>) {
        let known: Vec<u32> = fs.iter().map(|f| f.tag).collect();
        let mut order: Vec<usize> = (0..fs.len()).collect();
        if self.r.chance(1, 2) {
            self.r.shuffle(&mut order);
        }
        for i in order {
            let f = &fs[i];
            self.unknown(&known, out);
            self.foreign(f.tag, &f.ty, out);
            if !omissible(&f.ty, &xs[i]) || (self.defaults && self.r.chance(1, 4)) {
                put_varint(out, (f.tag as u64) << 3 | wt(&f.ty) as u64);
                self.nested(&f.ty, &xs[i], out);
            }
            self.foreign(f.tag, &f.ty, out);
        }
        self.unknown(&known, out);
    }

    fn nested(&mut self, n: &Node, v: &V, out: &mut Vec<u8>) {
        if n.sized() {
            let mut b = vec![];
            self.body(n, v, &mut b);
            put_varint(out, b.len() as u64);
            out.extend(b);
        } else {
            self.body(n, v, out);
        }
    }

    fn body(&mut self, n: &Node, v: &V, out: &mut Vec<u8>) {
        match (n, v) {
            (Node::Vec(t), V::Seq(xs)) | (Node::List(t), V::Seq(xs)) | (Node::Arr(t, _), V::Seq(xs)) => {
                xs.iter().for_each(|x| self.nested(t, x, out))
            }
            (Node::Tup(ts), V::Seq(xs)) => ts.iter().zip(xs).for_each(|(t, x)| self.nested(t, x, out)),
            (Node::Hm(k, t), V::Hm(xs)) => xs.iter().for_each(|(a, b)| {
                self.nested(k, a, out);
                self.nested(t, b, out)
            }),
            (Node::Opt(t), V::Opt(Some(x))) => self.nested(t, x, out),
            (Node::Boxed(t), x) => self.body(t, x, out),
            (Node::Map(k, t), V::Map(xs)) => {
                for (key, x) in xs {
                    // Entries of the other wire type are foreign whatever their key.
                    let any = map_key(self.r, *k);
                    self.foreign(any, t, out);
                    let any = int_u(self.r, 29) as u32;
                    self.foreign(any, t, out);
                    put_varint(out, (*key as u64) << 3 | wt(t) as u64);
                    self.nested(t, x, out);
                }
            }
            (Node::St(s), V::St(xs)) => self.fields(&s.fields, xs, out),
            (Node::En(e), V::En(i, xs)) => {
                put_varint(out, e.variants[*i].tag as u64);
                self.fields(&e.variants[*i].fields, xs, out);
            }
            (n, v) => enc_body(n, v, out),
        }
    }
}

pub fn c06(c: &mut Case, evo: &[(&'static str, &'static str)]) -> Res {
    if c.r.chance(1, 4) {
        return evolution(c, evo);
    }
    let info = c.any_type();
    let n = (info.node)();
    let v = c.val(n);
    let into = c.r.chance(1, 3);
    let base = if into { c.val(n) } else { default_v(n) };
    let mut r2 = Rng::new(&[c.r.next()]);
    let mut noise = Noise { r: &mut r2, defaults: !into, unknown: 0, foreign: 0, big: 0 };
    let mut noisy = vec![];
    noise.body(n, &v, &mut noisy);
    let (u, f, big) = (noise.unknown, noise.foreign, noise.big);
    let clean = enc(n, &v);
    c.say(format!("{} {} into {}: {:?}", info.name, short(&v), short(&base), clip(&format!("{:?}", noisy), 3000)));
    let mut a = (info.build)(&base, &Runtime::new());
    let mut b = (info.build)(&base, &Runtime::new());
    a.merge(&mut &clean[..]).map_err(|e| format!("{}: {} is refused: {}", info.name, short(&v), e))?;
    match b.merge(&mut &noisy[..]) {
        Err(e) => viol!("{}: foreign fields make {} fail: {} ({:?})", info.name, short(&v), e, noisy),
        Ok(()) => {
            let (x, y) = (b.to_v(), a.to_v());
            ensure!(x == y, "{}: foreign fields disturb the value {} ({:?})", info.name, diff(&x, &y), noisy);
            let mut w = base.clone();
            merge(n, &mut w, &mut Cur::new(&clean)).map_err(|e| format!("HARNESS: {:?}", e))?;
            ensure!(x == w, "{}: fields lost or not kept {} ({:?})", info.name, diff(&x, &w), noisy);
        }
    }
    // Nothing of the tail may be eaten either: as an element of a longer stream.
    let mut stream = vec![];
    if n.sized() {
        put_varint(&mut stream, noisy.len() as u64);
    }
    stream.extend(&noisy);
    stream.extend([1, 2, 3]);
    let mut src = &stream[..];
    let src: &mut dyn Read = &mut src;
    let mut rd = Reader::new(src);
    let y = a.de_nested(&mut rd).map_err(|e| format!("{}: nested decoding fails: {}", info.name, e))?;
    let mut rest = vec![];
    rd.read_to_end(&mut rest).map_err(|e| e.to_string())?;
    ensure!(rest == [1, 2, 3], "{}: skipping eats into the next value: {:?} is left", info.name, rest);
    if !into {
        ensure!(y.to_v() == v, "{}: nested value disturbed {}", info.name, diff(&y.to_v(), &v));
    }
    c.count("unknown fields", u);
    c.count("fields of another wire type", f);
    c.count("payloads of 16 KiB and more", big);
    c.eval(if u + f > 0 { Some(fp((info.name, &noisy))) } else { None });
    c.sample(|| format!("{} {:?} with {} unknown and {} foreign fields, {} bytes", info.name, v, u, f, noisy.len()));
    Ok(())
}

/// Whether a value of one type can be compared with a value of another one.
fn same_shape(a: &Node, b: &Node) -> bool {
    match (a.strip(), b.strip()) {
        (Node::St(x), Node::St(y)) => x.name == y.name,
        (Node::En(x), Node::En(y)) => x.name == y.name,
        (x, y) => x.name() == y.name() && !x.name().contains("Evo"),
    }
}

fn evolution(c: &mut Case, evo: &[(&'static str, &'static str)]) -> Res {
    let (mut from, mut to) = *c.r.pick(evo);
    if c.r.chance(1, 2) {
        std::mem::swap(&mut from, &mut to);
    }
    let (a, b) = (c.named(from), c.named(to));
    let (na, nb) = ((a.node)(), (b.node)());
    let v = c.val(na);
    let bytes = (a.build)(&v, &Runtime::new()).to_bytes();
    c.say(format!("{} {} read as {}: {:?}", from, short(&v), to, clip(&format!("{:?}", bytes), 3000)));
    let want = dec(nb, &enc(na, &v));
    let got = (b.dflt)().de(&mut &bytes[..]);
    match (want, got) {
        (Ok(w), Ok(g)) => {
            let g = g.to_v();
            ensure!(g == w, "{} read as {}: {} ({:?})", from, to, diff(&g, &w), bytes);
            // Shared fields, compared directly.
            if let (Node::St(sa), Node::St(sb), V::St(xs), V::St(ys)) = (na.strip(), nb.strip(), &v, &g) {
                for (i, f) in sa.fields.iter().enumerate() {
                    for (j, h) in sb.fields.iter().enumerate() {
                        if f.tag == h.tag && same_shape(&f.ty, &h.ty) {
                            ensure!(xs[i] == ys[j], "{} read as {}: shared field {} differs", from, to, f.tag);
                            c.count("shared fields", 1);
                        }
                    }
                }
                for (j, h) in sb.fields.iter().enumerate() {
                    if !sa.fields.iter().any(|f| f.tag == h.tag && wt(&f.ty) == wt(&h.ty)) {
                        ensure!(
                            ys[j] == default_v(&h.ty),
                            "{} read as {}: field {} was never sent but is {}", from, to, h.tag, short(&ys[j])
                        );
                    }
                }
            }
            c.eval(Some(fp((from, to, &bytes))));
            c.count("evolved", 1);
        }
        (Ok(_), Err(e)) => viol!("{} {} cannot be read as {}: {}", from, short(&v), to, e),
        (Err(_), _) => c.count("incompatible", 1),
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

fn concat_ok(n: &Node) -> bool {
    matches!(
        n.strip(),
        Node::St(_) | Node::Vec(_) | Node::List(_) | Node::Map(..) | Node::Bytes | Node::Opt(_) | Node::Hm(..)
    )
}

pub fn c07(c: &mut Case) -> Res {
    let info = c.any_type();
    let n = (info.node)();
    let v0 = c.val(n);
    let mut want = v0.clone();
    let mut real = (info.build)(&v0, &Runtime::new());
    c.say(format!("{} from {}", info.name, short(&v0)));
    let mut all: Vec<Vec<u8>> = vec![];
    for _ in 0..1 + c.r.below(3) {
        // Something close to what is there meets existing fields, keys and variants.
        let v = if c.r.chance(1, 3) {
            let mut w = want.clone();
            let mut g = G::new(&mut c.r, 8);
            g.tweak(n, &mut w);
            w
        } else {
            c.val(n)
        };
        if weight(&want) > 600 {
            break;
        }
        let b = enc(n, &v);
        c.say(format!("merge {}", short(&v)));
        let before = want.clone();
        merge(n, &mut want, &mut Cur::new(&b)).map_err(|e| format!("HARNESS: {:?}", e))?;
        if c.r.chance(1, 3) {
            let mut s = vec![];
            enc_nested(n, &v, &mut s);
            let mut src = &s[..];
            let src: &mut dyn Read = &mut src;
            real.merge_nested(&mut Reader::new(src)).map_err(|e| format!("{}: merge_nested fails: {}", info.name, e))?;
        } else {
            real.merge(&mut &b[..]).map_err(|e| format!("{}: merging {} fails: {}", info.name, short(&v), e))?;
        }
        let got = real.to_v();
        ensure!(
            got == want,
            "{}: merging {} into {} is wrong {}",
            info.name, short(&v), short(&before), diff(&got, &want)
        );
        c.eval(Some(fp((fp_v(info.name, &before), &b))));
        c.count("merges", 1);
        all.push(b);
    }
    let end = want;
    let start = || (info.build)(&v0, &Runtime::new());
    if concat_ok(n) {
        // At once.
        let whole: Vec<u8> = all.concat();
        let mut x = start();
        x.merge(&mut &whole[..]).map_err(|e| format!("{}: merging a concatenation fails: {}", info.name, e))?;
        ensure!(x.to_v() == end, "{}: concatenation differs from steps {}", info.name, diff(&x.to_v(), &end));
        // In parts.
        let cuts = boundaries(n, &whole);
        let mut x = start();
        let mut from = 0;
        for &k in &cuts {
            if k == whole.len() || c.r.chance(1, 2) {
                x.merge(&mut &whole[from..k]).map_err(|e| format!("{}: merging a part fails: {}", info.name, e))?;
                from = k;
            }
        }
        ensure!(from == whole.len(), "HARNESS: parts do not cover");
        ensure!(x.to_v() == end, "{}: parts differ from the whole {}", info.name, diff(&x.to_v(), &end));
        c.count("splits", cuts.len() as u64);
        // Nothing.
        x.merge(&mut &[][..]).map_err(|e| format!("{}: merging nothing fails: {}", info.name, e))?;
        ensure!(x.to_v() == end, "{}: merging nothing changes the value", info.name);
        c.eval(None);
    } else if let Node::En(d) = n.strip() {
        // The same variant in parts.
        if let (Some(b), V::En(i, _)) = (all.last(), &end) {
            let mut head = vec![];
            put_varint(&mut head, d.variants[*i].tag as u64);
            let cuts = boundaries(n, b);
            let mut x = (info.build)(&v0, &Runtime::new());
            for b in &all[..all.len() - 1] {
                x.merge(&mut &b[..]).map_err(|e| e.to_string())?;
            }
            let mut from = cuts[0];
            for &k in &cuts {
                if k == b.len() || c.r.chance(1, 2) {
                    let mut p = head.clone();
                    p.extend(&b[from..k]);
                    x.merge(&mut &p[..]).map_err(|e| format!("{}: merging a part fails: {}", info.name, e))?;
                    from = k;
                }
            }
            ensure!(x.to_v() == end, "{}: parts of a variant differ from the whole {}", info.name, diff(&x.to_v(), &end));
            c.eval(None);
        }
    }
    c.sample(|| format!("{} {:?} after {} merges", info.name, end, all.len()));
    Ok(())
}

// ---------------------------------------------------------------- C14

fn variant_of(c: &mut Case, info: &TyInfo, v: &V) -> Result<Box<dyn DynVal>, String> {
    let n = (info.node)();
    Ok(match c.r.below(5) {
        0 => {
            // Elsewhere in a tree of another logger.
            let (rt, _log) = Runtime::with_logger_returned(Rec::default());
            let path: Vec<u32> = (0..c.r.below(4)).map(|i| i as u32 * 7).collect();
            (info.build)(v, &path.iter().fold(rt, |rt, k| rt.nested(*k)))
        }
        1 => {
            let x = (info.build)(v, &Runtime::new());
            drop(x.to_bytes());
            x
        }
        2 => {
            let b = enc(n, v);
            let x = (info.dflt)().de(&mut &b[..]).map_err(|e| e.to_string())?;
            if x.to_v() == *v {
                x
            } else {
                (info.build)(v, &Runtime::new())
            }
        }
        3 if info.root_ok() => {
            // By mutators.
            let mut x = (info.with_rt.unwrap())(Runtime::new());
            let mut cx = Cx::new();
            for op in ops_for(n, v) {
                x.apply(&[], &op, &mut cx);
                if c.r.chance(1, 3) {
                    x.cache_size();
                }
            }
            if x.to_v() == *v {
                x
            } else {
                (info.build)(v, &Runtime::new())
            }
        }
        _ => (info.build)(v, &Runtime::new()),
    })
}

fn shuffle_maps(r: &mut Rng, v: &mut V) {
    match v {
        V::Map(xs) => {
            r.shuffle(xs);
            xs.iter_mut().for_each(|x| shuffle_maps(r, &mut x.1))
        }
        V::Hm(xs) => r.shuffle(xs),
        V::Seq(xs) | V::St(xs) | V::En(_, xs) => xs.iter_mut().for_each(|x| shuffle_maps(r, x)),
        V::Opt(Some(x)) => shuffle_maps(r, x),
        _ => (),
    }
}

pub fn c14(c: &mut Case) -> Res {
    let info = loop {
        let t = c.any_type();
        if t.eq.is_some() {
            break t;
        }
    };
    let n = (info.node)();
    let eq = info.eq.unwrap();
    let v1 = c.val(n);
    let mut v2 = v1.clone();
    match c.r.below(6) {
        0 => (),
        1 => shuffle_maps(&mut c.r, &mut v2),
        2 => mask_hash(n, &mut v2),
        _ => {
            // One change; where it lands decides.
            let mut g = G::new(&mut c.r, 6);
            g.tweak(n, &mut v2);
        }
    }
    let mut v3 = v2.clone();
    match c.r.below(3) {
        0 => (),
        1 => shuffle_maps(&mut c.r, &mut v3),
        _ => {
            let mut g = G::new(&mut c.r, 6);
            g.tweak(n, &mut v3);
        }
    }
    let mut a = variant_of(c, &info, &v1)?;
    let b = variant_of(c, &info, &v2)?;
    let d = variant_of(c, &info, &v3)?;
    c.say(format!("{}\n  a {}\n  b {}\n  c {}", info.name, short(&v1), short(&v2), short(&v3)));
    if c.r.chance(1, 3) {
        // Away from home.
        if a.is_state() {
            a.set_runtime(Runtime::new().nested(5));
        }
        a.cache_size();
    }
    let cl = info.clone.map(|f| f(a.as_any()));
    let all: Vec<(&str, &dyn DynVal, V)> = [("a", &*a), ("b", &*b), ("c", &*d)]
        .into_iter()
        .chain(cl.as_ref().map(|x| ("clone of a", &**x)))
        .map(|(s, x)| (s, x, x.to_v()))
        .collect();
    if let Some(x) = &cl {
        ensure!(x.to_v() == a.to_v(), "{}: clone differs {}", info.name, diff(&x.to_v(), &a.to_v()));
    }
    for (i, x, vx) in &all {
        for (j, y, vy) in &all {
            let want = eq_v(n, vx, vy);
            let got = eq(x.as_any(), y.as_any());
            ensure!(
                got == want,
                "{}: {} == {} is {} but {}",
                info.name, i, j, got, if want { "the data are the same".to_string() } else { format!("they differ {}", diff(vx, vy)) }
            );
            c.count(if want { "equal pairs" } else { "different pairs" }, 1);
            if let Some(h) = info.hash {
                let (hx, hy) = (h(x.as_any()), h(y.as_any()));
                let (mut mx, mut my) = (vx.clone(), vy.clone());
                mask_hash(n, &mut mx);
                mask_hash(n, &mut my);
                if mx == my {
                    ensure!(hx == hy, "{}: hashes of {} and {} differ although the hashed data are equal", info.name, i, j);
                } else {
                    ensure!(hx != hy, "{}: hashes of {} and {} do not see the difference {}", info.name, i, j, diff(&mx, &my));
                }
                c.count("hash pairs", 1);
            }
        }
    }
    c.eval(if nontrivial(&v1) { Some(fp((fp_v(info.name, &v1), fp_v("", &v2)))) } else { None });
    c.sample(|| format!("{} {:?} against {:?}: {}", info.name, v1, v2, eq(a.as_any(), b.as_any())));
    maybe_option(c)
}

fn maybe_option(c: &mut Case) -> Res {
    use steit::types::Maybe;
    let mut opt = |c: &mut Case| if c.r.chance(1, 3) { None } else { Some(int_u(&mut c.r, 3) as u32) };
    let (x, y) = (opt(c), opt(c));
    let m = Maybe::from_option(Runtime::new(), x);
    ensure!((m == y) == (x == y), "Maybe of {:?} == {:?} is {}", x, y, m == y);
    ensure!(m.to_option() == x && m.is_some() == x.is_some(), "Maybe of {:?} is {:?}", x, m.to_option());
    let m2 = Maybe::from_option(Runtime::new().nested(3), y);
    ensure!((m == m2) == (x == y), "Maybes of {:?} and {:?} compare wrong", x, y);
    c.count("maybe/option pairs", 1);
    Ok(())
}

// ---------------------------------------------------------------- C18

fn cuts_of(c: &mut Case, len: usize, most: usize) -> Vec<usize> {
    if len <= most {
        (0..=len).collect()
    } else {
        let mut x: Vec<usize> = (0..most).map(|_| c.r.below(len + 1)).collect();
        x.push(len);
        x
    }
}

pub fn c18(c: &mut Case) -> Res {
    let info = c.any_type();
    let n = (info.node)();
    let b = *c.r.pick(&[3, 8, 15]);
    let v = G::new(&mut c.r, b).val(n);
    let x = (info.build)(&v, &Runtime::new());
    let v = x.to_v();
    let bytes = x.to_bytes();
    if !matches!(n.strip(), Node::Str | Node::Bytes) {
        let bs = boundaries(n, &bytes);
        for k in cuts_of(c, bytes.len(), 200) {
            let got = x.de(&mut &bytes[..k]);
            let last = bs.iter().rev().find(|&&b| b <= k).copied();
            let want = match last {
                Some(b) => dec(n, &bytes[..b]),
                None => Err(DecErr("nothing complete".into())),
            };
            let on = bs.contains(&k);
            match (got, want) {
                (Ok(g), _) if !on => viol!(
                    "{}: {:?} cut at {} of {}, inside a field or element, is accepted as {}",
                    info.name, bytes, k, bytes.len(), short(&g.to_v())
                ),
                (Ok(g), Ok(w)) => ensure!(
                    g.to_v() == w,
                    "{}: {:?} cut at {} of {} yields a partial value {}",
                    info.name, bytes, k, bytes.len(), diff(&g.to_v(), &w)
                ),
                (Ok(g), Err(_)) => viol!(
                    "{}: {:?} cut at {} of {} is accepted as {}",
                    info.name, bytes, k, bytes.len(), short(&g.to_v())
                ),
                (Err(e), Ok(_)) if on => viol!("{}: {:?} cut at boundary {} fails: {}", info.name, bytes, k, e),
                _ => (),
            }
            c.eval(Some(fp((info.name, &bytes, k))));
            c.count(if on { "cuts on a boundary" } else { "cuts inside" }, 1);
        }
        c.sample(|| format!("{} {:?}: {} cuts, boundaries {:?}", info.name, v, bytes.len() + 1, clip(&format!("{:?}", bs), 150)));
    }
    // A log.
    let info = c.state_type();
    let n = (info.node)();
    let v0 = G::new(&mut c.r, 12).val(n);
    let mut ep = Ep::new(info, Some(&v0));
    let v0 = ep.real.to_v();
    c.say(format!("log of {} from {}", info.name, short(&v0)));
    for _ in 0..1 + c.r.below(5) {
        let v = ep.real.to_v();
        let (at, op) = G::new(&mut c.r, 4).op(n, &v, &HOWS);
        c.say(format!("{:?} {:?}", at, op));
        ep.real.apply(&at, &op, &mut ep.cx);
    }
    let entries = ep.fresh_entries();
    let mut log = vec![];
    let mut ends = vec![0];
    let mut states = vec![v0.clone()];
    let mut w = v0.clone();
    for e in &entries {
        log.extend(framed(e));
        ends.push(log.len());
        if apply_entry(n, &mut w, &to_entry(e)).is_err() {
            viol!("{}: recorded entry {:?} does not fit the state", info.name, e);
        }
        states.push(w.clone());
    }
    for k in cuts_of(c, log.len(), 120) {
        let mut x = (info.build)(&v0, &Runtime::new());
        let r = x.replay(&mut &log[..k]);
        let m = ends.iter().rposition(|&e| e <= k).unwrap();
        ensure!(
            r.is_ok() == (ends[m] == k),
            "{}: replaying {:?} cut at {} (entries end at {:?}) is {:?}", info.name, log, k, ends, r
        );
        ensure!(
            x.to_v() == states[m],
            "{}: log {:?} cut at {} (entries end at {:?}) leaves {}",
            info.name, log, k, ends, diff(&x.to_v(), &states[m])
        );
        c.eval(Some(fp((info.name, &log, k))));
        c.count("log cuts", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

fn same_outcome(
    name: &str, what: &str, failed: bool,
    got: &std::io::Result<V>, want: &std::io::Result<V>,
) -> Res {
    if failed {
        ensure!(got.is_err(), "{}: {}: a read failure goes unnoticed", name, what);
        return Ok(());
    }
    match (got, want) {
        (Ok(a), Ok(b)) => ensure!(a == b, "{}: {}: {}", name, what, diff(a, b)),
        (Err(_), Err(_)) => (),
        (a, b) => viol!("{}: {}: {:?} instead of {:?}", name, what, a.as_ref().map(short), b.as_ref().map(short)),
    }
    Ok(())
}

pub fn c19(c: &mut Case) -> Res {
    let info = c.any_type();
    let n = (info.node)();
    let b = *c.r.pick(&[3, 10, 25]);
    let v = G::new(&mut c.r, b).val(n);
    let x = (info.build)(&v, &Runtime::new());
    let good = x.to_bytes();
    let mut bytes = good.clone();
    if c.r.chance(1, 4) {
        mutate(&mut c.r, &mut bytes);
        bytes.truncate(4000);
    }
    c.say(format!("{} {} as {:?}", info.name, short(&v), clip(&format!("{:?}", bytes), 2000)));
    // Reading.
    let want = x.de(&mut &bytes[..]).map(|y| y.to_v());
    let mut plans: Vec<(usize, bool, Option<usize>)> = vec![(0, false, None), (1, false, None), (1, true, None), (0, true, None), (2, true, None)];
    for k in cuts_of(c, bytes.len(), 40) {
        plans.push((c.r.below(3), c.r.chance(1, 3), Some(k)));
    }
    for (mode, intr, fail) in plans {
        let mut src = Flaky::new(&bytes, Rng::new(&[c.r.next()]), mode, intr, fail);
        let nested = c.r.chance(1, 4) && !n.sized();
        let got = if nested {
            let s: &mut dyn Read = &mut src;
            x.de_nested(&mut Reader::new(s)).map(|y| y.to_v())
        } else {
            x.de(&mut src).map(|y| y.to_v())
        };
        let what = format!("reading in mode {}, interrupts {}, failure at {:?} of {}", mode, intr, fail, bytes.len());
        same_outcome(info.name, &what, src.failed, &got, &want)?;
        c.count(if src.failed { "failed reads" } else { "odd reads" }, 1);
        c.eval(Some(fp((info.name, &bytes, mode, intr, fail))));
    }
    // Writing.
    let mut plans: Vec<(usize, bool, Option<usize>)> = vec![(0, false, None), (1, true, None), (2, true, None)];
    for k in cuts_of(c, good.len(), 30) {
        plans.push((c.r.below(3), c.r.chance(1, 3), Some(k)));
    }
    for (mode, interrupts, fail_at) in plans {
        let zero = c.r.chance(1, 4);
        let mut w = FlakyW { out: vec![], r: Rng::new(&[c.r.next()]), mode, interrupts, fail_at, zero, failed: false };
        let framed = c.r.chance(1, 3);
        let mut whole = good.clone();
        let r = if framed {
            whole.clear();
            x.size_nested(Some(17), false).map_err(|e| e.to_string())?;
            x.ser_nested(Some(17), false, &mut whole).map_err(|e| e.to_string())?;
            x.ser_nested(Some(17), false, &mut w)
        } else {
            x.ser(&mut w)
        };
        let what = format!("writing in mode {}, interrupts {}, failure at {:?} of {}", mode, interrupts, fail_at, whole.len());
        if w.failed {
            ensure!(r.is_err(), "{}: {}: a write failure goes unnoticed", info.name, what);
            c.count("failed writes", 1);
        } else {
            ensure!(r.is_ok(), "{}: {}: {:?}", info.name, what, r);
            ensure!(w.out == whole, "{}: {}: {:?} instead of {:?}", info.name, what, w.out, whole);
            c.count("odd writes", 1);
        }
        ensure!(whole.starts_with(&w.out), "{}: {}: {:?} is no prefix of {:?}", info.name, what, w.out, whole);
        c.eval(Some(fp((info.name, &good, "w", mode, interrupts, fail_at, framed))));
    }
    // Embedded in a longer stream.
    let mut stream = vec![];
    let mut vs = vec![];
    for _ in 0..1 + c.r.below(3) {
        let v = G::new(&mut c.r, 6).val(n);
        enc_nested(n, &v, &mut stream);
        vs.push(v);
    }
    let k = c.r.below(9);
    let junk = blob(&mut c.r, k);
    stream.extend(&junk);
    let (mode, intr) = (c.r.below(3), c.r.chance(1, 2));
    let mut src = Flaky::new(&stream, Rng::new(&[c.r.next()]), mode, intr, None);
    let s: &mut dyn Read = &mut src;
    let mut rd = Reader::new(s);
    for (i, v) in vs.iter().enumerate() {
        if c.r.chance(1, 3) {
            let e = rd.eof().map_err(|e| format!("{}: eof fails: {}", info.name, e))?;
            ensure!(e == (i == vs.len()), "{}: eof inside of a stream", info.name);
        }
        let y = match c.r.below(3) {
            0 => {
                // Through a borrowed reader.
                let mut y = (info.dflt)();
                let d: &mut dyn Read = &mut rd;
                let mut sub = Reader::new(d);
                let r = y.merge_nested(&mut sub);
                // `Eof` may hold a byte only if it was asked to look ahead, which a nested value is not.
                r.map(|_| y)
            }
            _ => (info.dflt)().de_nested(&mut rd),
        };
        let y = y.map_err(|e| format!("{}: value {} of a stream fails: {}", info.name, i, e))?;
        ensure!(y.to_v() == *v, "{}: value {} of a stream {}", info.name, i, diff(&y.to_v(), v));
    }
    let mut rest = vec![];
    rd.read_to_end(&mut rest).map_err(|e| e.to_string())?;
    ensure!(rest == junk, "{}: {} bytes follow instead of {}", info.name, rest.len(), junk.len());
    c.eval(Some(fp((info.name, &stream, mode))));
    c.count("embedded values", vs.len() as u64);
    c.sample(|| format!("{} {:?}: {} bytes read and written with failures at every byte", info.name, v, bytes.len()));
    if info.root_ok() {
        replays(c, info)?;
    }
    segments(c)
}

/// A stream of bytes, numbers, tags and nested parts, read by a `Reader` or one borrowed from it.
fn segments(c: &mut Case) -> Res {
    enum Seg {
        Raw(Vec<u8>),
        Num(u64),
        Tag(u32, u32),
        Part(Vec<u8>),
        Skip(u32),
    }
    let mut stream = vec![];
    let mut segs = vec![];
    for _ in 0..1 + c.r.below(8) {
        segs.push(match c.r.below(5) {
            0 => {
                let k = c.r.below(5);
                let b = blob(&mut c.r, k);
                stream.extend(&b);
                Seg::Raw(b)
            }
            1 => {
                let n = int_u(&mut c.r, 64);
                put_varint(&mut stream, n);
                Seg::Num(n)
            }
            2 => {
                let t = (int_u(&mut c.r, 29) as u32, *c.r.pick(&[0u32, 2]));
                put_varint(&mut stream, (t.0 << 3 | t.1) as u64);
                Seg::Tag(t.0, t.1)
            }
            3 => {
                let k = *c.r.pick(&[0, 1, 2, 5, 63, 64, 65, 130, 300]);
                let b = blob(&mut c.r, k);
                put_varint(&mut stream, k as u64);
                stream.extend(&b);
                Seg::Part(b)
            }
            _ => {
                let w = *c.r.pick(&[0u32, 2]);
                if w == 0 {
                    let n = int_u(&mut c.r, 64);
                    put_varint(&mut stream, n);
                } else {
                    let k = *c.r.pick(&[0, 1, 5, 63, 64, 65, 128, 200]);
                    put_varint(&mut stream, k as u64);
                    let b = blob(&mut c.r, k);
                    stream.extend(&b);
                }
                Seg::Skip(w)
            }
        });
    }
    let (mode, intr) = (c.r.below(3), c.r.chance(1, 2));
    let mut src = Flaky::new(&stream, Rng::new(&[c.r.next()]), mode, intr, None);
    let mut rd = Reader::new(&mut src);
    let mut how = String::new();
    for (i, seg) in segs.iter().enumerate() {
        for _ in 0..c.r.below(3) {
            let empty = segs[i..].iter().all(|s| matches!(s, Seg::Raw(b) if b.is_empty()));
            let e = rd.eof().map_err(|e| format!("reader over {:?}: eof: {}", stream, e))?;
            ensure!(e == empty, "reader over {:?}: eof is {} before part {} ({})", stream, e, i, how);
            how.push_str("eof ");
        }
        let borrowed = c.r.chance(1, 2);
        how.push_str(if borrowed { "borrowed " } else { "" });
        let plan = c.r.below(4);
        let mut go = |r: &mut Reader<&mut dyn Read>| -> io::Result<bool> {
            Ok(match seg {
                Seg::Raw(b) => {
                    let mut got = vec![0; b.len()];
                    r.read_exact(&mut got)?;
                    got == *b
                }
                Seg::Num(n) => u64::deserialize(r)? == *n,
                Seg::Tag(t, w) => r.read_tag()? == (*t, if *w == 0 { WireType::Varint } else { WireType::Sized }),
                Seg::Part(b) => {
                    let mut sub = r.nested()?;
                    if plan & 1 > 0 && sub.eof()? != b.is_empty() {
                        return Ok(false);
                    }
                    let k = if plan & 2 > 0 { b.len() / 2 } else { b.len() };
                    let mut got = vec![0; k];
                    sub.read_exact(&mut got)?;
                    let ok = got == b[..k] && (k < b.len() || sub.eof()?);
                    sub.finish()?;
                    ok
                }
                Seg::Skip(w) => {
                    r.skip_field(if *w == 0 { WireType::Varint } else { WireType::Sized })?;
                    true
                }
            })
        };
        let r = if borrowed {
            go(&mut rd.as_mut_read())
        } else {
            let r: &mut dyn Read = &mut rd;
            go(&mut Reader::new(r))
        };
        match r {
            Ok(ok) => ensure!(ok, "reader over {:?}: part {} is read wrongly ({})", stream, i, how),
            Err(e) => return Err(format!("reader over {:?}: part {}: {} ({})", stream, i, e, how)),
        }
    }
    ensure!(rd.eof().map_err(|e| e.to_string())?, "reader over {:?}: something is left", stream);
    c.count("parts read by readers", segs.len() as u64);
    c.eval(None);
    Ok(())
}

fn replays(c: &mut Case, info: TyInfo) -> Res {
    let n = (info.node)();
    let v0 = G::new(&mut c.r, 8).val(n);
    let mut w = v0.clone();
    let mut log = vec![];
    let mut ends = vec![0];
    let mut states = vec![v0.clone()];
    for _ in 0..3 {
        let e = G::new(&mut c.r, 4).entry(n, &w);
        if apply_entry(n, &mut w, &e).is_ok() {
            log.extend(e.framed());
            ends.push(log.len());
            states.push(w.clone());
        }
    }
    let mut plans: Vec<(usize, bool, Option<usize>)> = vec![(0, true, None), (1, true, None)];
    for k in cuts_of(c, log.len(), 25) {
        plans.push((c.r.below(3), c.r.chance(1, 3), Some(k)));
    }
    for (mode, intr, fail) in plans {
        let mut x = (info.build)(&v0, &Runtime::new());
        let mut src = Flaky::new(&log, Rng::new(&[c.r.next()]), mode, intr, fail);
        let r = x.replay(&mut src);
        let k = fail.unwrap_or(log.len());
        let m = if src.failed { ends.iter().rposition(|&e| e <= k).unwrap() } else { states.len() - 1 };
        ensure!(r.is_ok() == !src.failed, "{}: replay with failure at {:?} of {:?}: {:?}", info.name, fail, ends, r);
        ensure!(
            x.to_v() == states[m],
            "{}: replay with failure at {:?} of {:?} leaves {}", info.name, fail, ends, diff(&x.to_v(), &states[m])
        );
        c.count("replays", 1);
        c.eval(Some(fp((info.name, &log, mode, intr, fail))));
    }
    Ok(())
}
