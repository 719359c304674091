//! Checks about histories of mutations, logs and replicas.
use std::{
    io,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Mutex},
};

use steit::{
    log::{
        loggers::{BufferLogger, NoopLogger, PanicLogger, WriterLogger},
        LogEntry, Logger,
    },
    rt::{LoggerHandle, Runtime},
    ser::Serialize,
    types::{Bytes, List, Map, Maybe},
};

use crate::{codec, ensure, gen::*, model::*, mon::*, real::*, rng::*, viol, zoo_gen};

fn masked(n: &Node, mut v: V) -> V {
    mask_no_state(n, &mut v);
    v
}

/// Path under which the new value of an operation lives.
fn cb_path(n: &Node, v: &V, at: &[Step], op: &Op) -> Option<Vec<u32>> {
    let mut p = path_of(n, v, at);
    let (n2, v2) = locate(n, v, at);
    match (n2, v2, op) {
        (Node::St(d), _, Op::Set(i, _, h)) if h.is_with() && !d.fields[*i].no_state => p.push(d.fields[*i].tag),
        (Node::En(d), _, Op::SetV(j, i, _, h)) if h.is_with() && !d.variants[*j].fields[*i].no_state => {
            p.extend([d.variants[*j].tag, d.variants[*j].fields[*i].tag])
        }
        (Node::List(_), V::Seq(xs), Op::Push(_, h)) if h.is_with() => p.push(xs.len() as u32),
        (Node::Map(..), _, Op::Insert(k, _, h)) if h.is_with() => p.push(*k),
        _ => return None,
    }
    Some(p)
}

fn show(at: &[Step], op: &Op) -> String {
    clip(&format!("{:?} {:?}", at, op), 600)
}

// ---------------------------------------------------------------- C02

struct Replica {
    x: Box<dyn DynVal>,
    log: LoggerHandle<Rec>,
    pending: Vec<LogEntry>,
    born: usize,
}

fn replica(info: TyInfo, snapshot: &[u8], born: usize) -> Result<Replica, String> {
    let (rt, log) = Runtime::with_logger_returned(Rec::default());
    let mut x = (info.with_rt.unwrap())(rt);
    if let Err(e) = x.merge(&mut &snapshot[..]) {
        viol!("{}: snapshot is refused: {} ({:?})", info.name, e, snapshot);
    }
    Ok(Replica { x, log, pending: vec![], born })
}

fn feed(c: &mut Case, info: &TyInfo, r: &mut Replica) -> Res {
    let all = std::mem::take(&mut r.pending);
    let mut i = 0;
    while i < all.len() {
        let k = match c.r.below(4) {
            0 => 1,
            1 => all.len() - i,
            _ => 1 + c.r.below(all.len() - i),
        };
        let piece: Vec<u8> = all[i..i + k].iter().flat_map(framed).collect();
        if let Err(e) = r.x.replay(&mut &piece[..]) {
            viol!("{}: replica born at step {} refuses {:?}: {}", info.name, r.born, &all[i..i + k], e);
        }
        c.count("entries replayed", k as u64);
        i += k;
    }
    Ok(())
}

pub fn c02(c: &mut Case) -> Res {
    let info = c.state_type();
    let n = (info.node)();
    let mut ep = Ep::start(c, info)?;
    ep.cx.keep = c.r.chance(1, 2);
    let side = c.r.chance(1, 4);
    let mut hows = HOWS.to_vec();
    let mut side_replica = None;
    if side {
        ep.cx.side = Some(List::new(ep.rt.nested(SIDE)));
        side_replica = Some(Vec::<u32>::new());
        hows.push(How::WithSide);
    }
    ep.fresh_entries();
    let mut replicas = vec![replica(info, &ep.real.to_bytes(), 0)?];
    let steps = if c.thorough { 1 + c.r.below(60) } else { 1 + c.r.below(25) };
    let mut hist = fp(info.name);
    for step in 1..=steps {
        let (at, op) = ep.gen_op(c, &hows);
        c.say(show(&at, &op));
        hist = fp((hist, format!("{:?}{:?}", at, op)));
        ep.real.apply(&at, &op, &mut ep.cx);
        if ep.cx.keep && c.r.chance(1, 3) {
            poke(c, &mut ep.cx);
        }
        for e in ep.fresh_entries() {
            let m = to_entry(&e);
            if m.path.first() == Some(&SIDE) {
                if let Some(s) = &mut side_replica {
                    let b = m.val.first().copied().unwrap_or(0);
                    s.push(b as u32);
                }
                continue;
            }
            replicas.iter_mut().for_each(|r| r.pending.push(e.clone()));
        }
        let v = ep.real.to_v();
        let want = masked(n, v.clone());
        for i in 0..replicas.len() {
            // A pause now and then: what was recorded is replayed later, in other pieces.
            if i > 0 && c.r.chance(1, 3) && step < steps {
                continue;
            }
            feed(c, &info, &mut replicas[i])?;
            let r = &replicas[i];
            let got = masked(n, r.x.to_v());
            ensure!(
                got == want,
                "{}: after {} steps a replica born at step {} differs {}", info.name, step, r.born, diff(&got, &want)
            );
            c.eval(if nontrivial(&v) { Some(fp((hist, r.born))) } else { None });
        }
        if replicas.len() < 4 && c.r.chance(1, 6) {
            replicas.push(replica(info, &ep.real.to_bytes(), step)?);
        }
        // A replica takes over, the old primary follows from now on.
        if c.r.chance(1, 25) && !side {
            for r in &mut replicas {
                feed(c, &info, r)?;
            }
            let i = c.r.below(replicas.len());
            let mut r = replicas.swap_remove(i);
            std::mem::swap(&mut r.x, &mut ep.real);
            std::mem::swap(&mut r.log, &mut ep.log);
            ep.cx.bag.clear();
            c.say("a replica takes over");
            c.count("takeovers", 1);
            // Fields which are not part of the state differ from here on.
            replicas.push(r);
            ep.fresh_entries();
        }
    }
    if let (Some(s), Some(l)) = (&side_replica, &ep.cx.side) {
        let want: Vec<u32> = l.iter().copied().collect();
        if want.iter().all(|x| *x < 128) {
            ensure!(*s == want, "{}: another state of the logger has {:?} but the log {:?}", info.name, want, s);
        }
    }
    c.count("steps", steps as u64);
    c.count("replicas", replicas.len() as u64);
    c.sample(|| format!("{}: {} steps, {} replicas, ends as {:?}", info.name, steps, replicas.len(), ep.real.to_v()));
    Ok(())
}

/// Changes values which were removed before.
fn poke(c: &mut Case, cx: &mut Cx) {
    let mut bag = std::mem::take(&mut cx.bag);
    if !bag.is_empty() {
        let i = c.r.below(bag.len());
        let x = &mut bag[i];
        let n = x.node();
        let v = x.to_v();
        let (at, op) = G::new(&mut c.r, 4).op(n, &v, &[How::Plain, How::With]);
        c.say(format!("removed value: {}", show(&at, &op)));
        let mut other = Cx::new();
        x.apply(&at, &op, &mut other);
        c.count("changes of removed values", 1);
    }
    bag.truncate(12);
    cx.bag = bag;
}

// ---------------------------------------------------------------- C08

fn check_addresses(c: &mut Case, info: &TyInfo, x: &dyn DynVal, base: &[u32], when: &str) -> Res {
    addresses_of(c, info.name, (info.node)(), x, base, when)
}

/// A list or map collected by `FromIterator` from items which lived elsewhere is a root like any other.
fn collected<T: RealState>(c: &mut Case) -> Res
where
    List<T>: Default,
{
    let len = c.r.below(6);
    let mut vs: Vec<V> = (0..len).map(|_| c.val(T::node())).collect();
    let (rt, log) = Runtime::with_logger_returned(Rec::default());
    let mut items: Vec<T> = vs.iter().enumerate().map(|(i, v)| T::build(v, &rt.nested(i as u32 * 3).nested(1))).collect();
    let (name, n, mut x, want): (&'static str, NodeRef, Box<dyn DynVal>, V) = if c.r.chance(1, 2) {
        let l: List<T> = items.into_iter().collect();
        ("a collected list", List::<T>::node(), Box::new(SVal(l)), V::Seq(vs))
    } else {
        let mut keys: Vec<u16> = vec![];
        for _ in 0..len {
            let k = c.r.next() as u16;
            if !keys.contains(&k) {
                keys.push(k);
            }
        }
        items.truncate(keys.len());
        vs.truncate(keys.len());
        let m: Map<u16, T> = keys.iter().copied().zip(items).collect();
        let want = V::Map(keys.iter().map(|k| *k as u32).zip(vs).collect());
        ("a collected map", Map::<u16, T>::node(), Box::new(SVal(m)), want)
    };
    ensure!(x.to_v() == want, "{} of {}: holds {} instead of {}", name, std::any::type_name::<T>(), short(&x.to_v()), short(&want));
    let mut cx = Cx::new();
    let mut when = "collected".to_string();
    for _ in 0..4 {
        addresses_of(c, name, n, &*x, &[], &when)?;
        let v = x.to_v();
        let (at, op) = G::new(&mut c.r, 6).op(n, &v, &HOWS);
        x.apply(&at, &op, &mut cx);
        when = format!("collected, then {}", show(&at, &op));
    }
    let stray = log.lock().unwrap().got.len();
    ensure!(stray == 0, "{} of {}: {} entries went to the logger its items came from", name, std::any::type_name::<T>(), stray);
    c.count("collected containers", 1);
    Ok(())
}

fn addresses_of(c: &mut Case, name: &'static str, n: NodeRef, x: &dyn DynVal, base: &[u32], when: &str) -> Res {
    let v = x.to_v();
    let mut want = vec![];
    addresses(n, &v, &mut base.to_vec(), &mut want);
    let got = x.walk();
    ensure!(got.len() == want.len(), "HARNESS: {} states walked, {} expected", got.len(), want.len());
    for (g, w) in got.iter().zip(&want) {
        ensure!(g == w, "{}: {}: the state at {:?} believes to be at {:?}", name, when, w, g);
    }
    ensure!(
        x.is_root() == base.is_empty() && x.is_child() == !base.is_empty(),
        "{}: {}: at {:?} is_root is {}, is_child is {}", name, when, base, x.is_root(), x.is_child()
    );
    c.count("addresses", want.len() as u64);
    c.eval(if want.len() > 1 { Some(fp((name, want))) } else { None });
    Ok(())
}

pub fn c08(c: &mut Case) -> Res {
    if c.r.chance(1, 12) {
        return match c.r.below(7) {
            0 => collected::<zoo_gen::SPoint>(c),
            1 => collected::<zoo_gen::SEnum>(c),
            2 => collected::<zoo_gen::SRec>(c),
            3 => collected::<List<zoo_gen::SPoint>>(c),
            4 => collected::<Maybe<zoo_gen::SEnum>>(c),
            5 => collected::<Box<zoo_gen::SRecE>>(c),
            _ => collected::<i16>(c),
        };
    }
    let info = c.state_type();
    let n = (info.node)();
    let mut ep = Ep::start(c, info)?;
    let mut base: Vec<u32> = vec![];
    check_addresses(c, &info, &*ep.real, &base, "at the start")?;
    let steps = 1 + c.r.below(if c.thorough { 50 } else { 20 });
    for _ in 0..steps {
        let v = ep.real.to_v();
        let when;
        match c.r.below(15) {
            0 => {
                // Attach to another root.
                let (rt, log) = Runtime::with_logger_returned(Rec::default());
                base = (0..c.r.below(4)).map(|_| *c.r.pick(&[0, 1, 5, 300, FIELD_MAX])).collect();
                ep.rt = rt.clone();
                ep.log = log;
                ep.real.set_runtime(base.iter().fold(rt, |r, k| r.nested(*k)));
                when = format!("attached at {:?}", base);
            }
            1 if weight(&v) < 300 => {
                let w = c.val(n);
                let b = enc(n, &w);
                ep.real.merge(&mut &b[..]).map_err(|e| format!("{}: merge fails: {}", info.name, e))?;
                when = format!("after merging {}", short(&w));
            }
            2 | 3 if base.is_empty() => {
                let e = G::new(&mut c.r, 10).entry(n, &v);
                let r = ep.real.replay(&mut &e.framed()[..]);
                when = format!("after replaying {:?} ({})", e, if r.is_ok() { "accepted" } else { "refused" });
            }
            14 if weight(&v) < 300 => {
                // Bytes which are refused half way, or not.
                let (b, log) = if base.is_empty() && c.r.chance(1, 2) {
                    (codec::hostile_log(c, n, &v), true)
                } else {
                    (codec::hostile(c, n), false)
                };
                let r = if log { ep.real.replay(&mut &b[..]) } else { ep.real.merge(&mut &b[..]) };
                when = format!("after {} {:?} ({})", if log { "replaying" } else { "merging" }, clip(&format!("{:?}", b), 1500), if r.is_ok() { "accepted" } else { "refused" });
                c.count(if r.is_ok() { "hostile bytes accepted" } else { "hostile bytes refused" }, 1);
            }
            4 => {
                // A decoded value of its own.
                let x = ep.real.de(&mut &ep.real.to_bytes()[..]).map_err(|e| format!("{}: {}", info.name, e))?;
                check_addresses(c, &info, &*x, &[], "a decoded value")?;
                continue;
            }
            5 if info.clone.is_some() => {
                let x = (info.clone.unwrap())(ep.real.as_any());
                check_addresses(c, &info, &*x, &base, "a clone")?;
                continue;
            }
            6 => {
                // Construction from prebuilt parts.
                let x = (info.build)(&v, &Runtime::new());
                check_addresses(c, &info, &*x, &[], "a value built from parts")?;
                continue;
            }
            _ => {
                let (at, op) = ep.gen_op(c, &HOWS);
                let mut w = v.clone();
                let mut exp = vec![];
                apply_op(n, &mut w, &at, &op, &mut base.clone(), &mut exp);
                let cb = cb_path(n, &v, &at, &op);
                ep.cx.cb_paths.clear();
                ep.fresh_entries();
                ep.real.apply(&at, &op, &mut ep.cx);
                when = format!("after {}", show(&at, &op));
                if let (Some(p), Some(got)) = (cb, ep.cx.cb_paths.first()) {
                    let want = [&base[..], &p[..]].concat();
                    ensure!(*got == want, "{}: {}: callback was told {:?}, lives at {:?}", info.name, when, got, want);
                    c.count("callbacks", 1);
                }
                // What was recorded, was recorded under the address.
                let got: Vec<Vec<u32>> = ep.fresh_entries().iter().map(|e| to_entry(e).path).collect();
                let want: Vec<Vec<u32>> = exp.into_iter().map(|e| e.path).collect();
                ensure!(got == want, "{}: {}: recorded under {:?} instead of {:?}", info.name, when, got, want);
                c.count("mutations", 1);
            }
        }
        c.say(when.clone());
        check_addresses(c, &info, &*ep.real, &base, &when)?;
    }
    c.sample(|| format!("{} at {:?} after {} steps: {:?}", info.name, base, steps, ep.real.walk().iter().take(20).collect::<Vec<_>>()));
    Ok(())
}

// ---------------------------------------------------------------- C09

fn compare_log(info: &TyInfo, what: &str, got: &[LogEntry], exp: &[Exp]) -> Res {
    let got: Vec<Entry> = got.iter().map(to_entry).collect();
    if got.len() != exp.len() || !exp.iter().zip(&got).all(|(x, e)| x.matches(e)) {
        viol!("{}: {}: recorded {:?} instead of {:?}", info.name, what, got, exp);
    }
    Ok(())
}

pub fn c09(c: &mut Case) -> Res {
    let info = c.state_type();
    let n = (info.node)();
    let mut ep = Ep::start(c, info)?;
    let got = ep.fresh_entries();
    compare_log(&info, "at the start", &got, &[])?;
    ep.cx.keep = true;
    ep.cx.side = Some(List::new(ep.rt.nested(SIDE)));
    let mut hows = HOWS.to_vec();
    hows.push(How::WithSide);
    let steps = 1 + c.r.below(if c.thorough { 50 } else { 20 });
    let mut hist = fp(info.name);
    for _ in 0..steps {
        let v = ep.real.to_v();
        let mut exp = vec![];
        let what;
        let mut sides = ep.cx.side.as_ref().unwrap().len();
        match c.r.below(16) {
            0 if weight(&v) < 300 => {
                let w = c.val(n);
                let b = enc(n, &w);
                ep.real.merge(&mut &b[..]).map_err(|e| format!("{}: merge fails: {}", info.name, e))?;
                what = format!("merging {}", short(&w));
            }
            1 => {
                let e = G::new(&mut c.r, 10).entry(n, &v);
                let r = ep.real.replay(&mut &e.framed()[..]);
                what = format!("replaying {:?} ({})", e, if r.is_ok() { "accepted" } else { "refused" });
            }
            2 => {
                poke(c, &mut ep.cx);
                what = "a change of a removed value".to_string();
            }
            3 => {
                ep.real.lookups()?;
                let x = (info.build)(&v, &Runtime::new());
                if let Some(eq) = info.eq {
                    eq(ep.real.as_any(), x.as_any());
                }
                if let Some(h) = info.hash {
                    h(ep.real.as_any());
                }
                if let Some(d) = info.debug {
                    d(ep.real.as_any());
                }
                if let Some(cl) = info.clone {
                    drop(cl(ep.real.as_any()));
                }
                what = "looking".to_string();
            }
            4 => {
                let b = ep.real.to_bytes();
                drop(ep.real.de(&mut &b[..]));
                let mut out = vec![];
                ep.real.size_nested(Some(3), true).map_err(|e| e.to_string())?;
                ep.real.ser_nested(Some(3), true, &mut out).map_err(|e| e.to_string())?;
                what = "encoding and decoding".to_string();
            }
            5 => {
                // Building a whole value on the same logger.
                let w = c.val(n);
                drop((info.build)(&w, &ep.rt.nested(77)));
                what = format!("building {}", short(&w));
            }
            _ => {
                let (at, op) = ep.gen_op(c, &hows);
                what = show(&at, &op);
                let mut w = v;
                apply_op(n, &mut w, &at, &op, &mut vec![], &mut exp);
                ep.real.apply(&at, &op, &mut ep.cx);
                c.count("mutations", 1);
            }
        }
        c.say(what.clone());
        let (side, main): (Vec<_>, Vec<_>) =
            ep.fresh_entries().into_iter().partition(|e| to_entry(e).path.first() == Some(&SIDE));
        compare_log(&info, &what, &main, &exp)?;
        let mut want = vec![];
        let list = ep.cx.side.as_ref().unwrap();
        while sides < list.len() {
            want.push(Exp {
                kind: Kind::Push,
                path: vec![SIDE],
                val: Some((<u32 as Real>::node(), V::U(list[sides] as u64))),
                key: 0,
            });
            sides += 1;
        }
        compare_log(&info, &format!("{} (meanwhile elsewhere)", what), &side, &want)?;
        c.count("entries", (exp.len() + want.len()) as u64);
        c.count("side entries", want.len() as u64);
        hist = fp((hist, &what));
        c.eval(Some(hist));
    }
    c.sample(|| format!("{}: {} entries over {} steps", info.name, ep.taken.len(), steps));
    Ok(())
}

// ---------------------------------------------------------------- C10

pub fn c10(c: &mut Case) -> Res {
    let info = c.state_type();
    let n = (info.node)();
    let mut ep = Ep::start(c, info)?;
    ep.fresh_entries();
    let snapshot = ep.real.to_bytes();
    let mut rep = replica(info, &snapshot, 0)?;
    let steps = 2 + c.r.below(if c.thorough { 40 } else { 16 });
    let mut hist = fp(info.name);
    for step in 0..steps {
        let v = ep.real.to_v();
        let fault = c.r.chance(1, 2);
        let panics = fault && c.r.chance(1, 3);
        let hows: &[How] = if panics { &[How::WithPanic] } else { &HOWS };
        let (at, op) = ep.gen_op(c, hows);
        let mut w = v.clone();
        let mut exp = vec![];
        let ret = apply_op(n, &mut w, &at, &op, &mut vec![], &mut exp);
        let runs_cb = cb_path(n, &v, &at, &op).is_some();
        let mut refuse = None;
        if fault && !panics && !exp.is_empty() {
            let k = c.r.below(exp.len());
            refuse = Some(k);
            let mut l = ep.log.lock().unwrap();
            let at = l.calls + 1 + k as u64;
            l.fail_at = Some(at);
        }
        c.say(format!("{} {}", show(&at, &op), match (panics && runs_cb, refuse) {
            (true, _) => "with a panic".to_string(),
            (_, Some(k)) => format!("with entry {} of {} refused", k + 1, exp.len()),
            _ => "".to_string(),
        }));
        hist = fp((hist, format!("{:?}{:?}{:?}", at, op, refuse)));
        let Ep { real, cx, .. } = &mut ep;
        let r = catch_unwind(AssertUnwindSafe(|| real.apply(&at, &op, cx)));
        let poisoned = ep.log.is_poisoned();
        ensure!(!poisoned, "{}: {} leaves the logger unusable", info.name, show(&at, &op));
        ep.log.lock().unwrap().fail_at = None;
        let accepted = ep.fresh_entries();
        let failed = refuse.is_some() || (panics && runs_cb);
        if failed {
            if r.is_ok() {
                viol!("{}: {} succeeds although {}", info.name, show(&at, &op), if panics { "its callback panicked" } else { "an entry was refused" });
            }
            // Only what was recorded may have happened.
            let mut want = v.clone();
            for e in &accepted {
                if let Err(e2) = apply_entry(n, &mut want, &to_entry(e)) {
                    viol!("{}: accepted entry {:?} does not fit: {:?}", info.name, e, e2);
                }
            }
            let got = ep.real.to_v();
            if got != want {
                // Known: `swap_remove` records two entries and is not undone in between.
                let half = matches!(op, Op::SwapRemove(_)) && refuse == Some(1) && got == v && accepted.len() == 1;
                if !half {
                    viol!(
                        "{}: {} failed with {} entries accepted, but the state differs {}",
                        info.name, show(&at, &op), accepted.len(), diff(&got, &want)
                    );
                }
                c.st.known.insert("F15".into(), format!("{} {}", info.name, show(&at, &op)));
                c.count("half-recorded swap_remove", 1);
                rep = replica(info, &ep.real.to_bytes(), step)?;
            } else {
                rep.pending.extend(accepted);
            }
            c.count(if panics { "panics" } else { "refusals" }, 1);
            c.eval(Some(hist));
        } else {
            match r {
                Ok(x) => ensure!(x == ret, "{}: {} returns {:?} instead of {:?}", info.name, show(&at, &op), x, ret),
                Err(p) => std::panic::resume_unwind(p),
            }
            compare_log(&info, &format!("{} (after earlier faults)", show(&at, &op)), &accepted, &exp)?;
            let got = ep.real.to_v();
            ensure!(got == w, "{}: {} works differently after a fault {}", info.name, show(&at, &op), diff(&got, &w));
            rep.pending.extend(accepted);
            c.count("successes", 1);
            c.eval(None);
        }
        let v = ep.real.to_v();
        let mut want = vec![];
        addresses(n, &v, &mut vec![], &mut want);
        let got = ep.real.walk();
        ensure!(got == want, "{}: addresses {:?} instead of {:?}", info.name, got, want);
        ep.real.lookups()?;
        feed(c, &info, &mut rep)?;
        let (a, b) = (masked(n, rep.x.to_v()), masked(n, v));
        ensure!(a == b, "{}: what was accepted does not lead to the state {}", info.name, diff(&a, &b));
    }
    c.sample(|| format!("{}: {} steps with refusals and panics, ends as {:?}", info.name, steps, ep.real.to_v()));
    Ok(())
}

/// Known finding: whether a refused second entry of `swap_remove` leaves the log ahead of the state.
pub fn probe_f15() -> bool {
    let (rt, log) = Runtime::with_logger_returned(Rec::default());
    let mut l = List::<u32>::new(rt);
    for i in 0..3 {
        l.push(i);
    }
    log.lock().unwrap().fail_at = Some(5);
    let r = catch_unwind(AssertUnwindSafe(|| l.swap_remove(0)));
    let got = log.lock().unwrap().got.len();
    r.is_err() && got == 4 && l.len() == 3
}

// ---------------------------------------------------------------- C12

pub fn c12(c: &mut Case) -> Res {
    let info = c.state_type();
    let n = (info.node)();
    let mut ep = Ep::start(c, info)?;
    ep.fresh_entries();
    let steps = 2 + c.r.below(if c.thorough { 60 } else { 25 });
    for _ in 0..steps {
        let v = ep.real.to_v();
        if weight(&v) > 600 {
            break;
        }
        if c.r.chance(1, 8) {
            // On anything but a root.
            let mut x = (info.build)(&v, &Runtime::new());
            let base: Vec<u32> = (0..1 + c.r.below(3)).map(|_| *c.r.pick(&[0, 1, 4, 1000])).collect();
            x.set_runtime(base.iter().fold(Runtime::new(), |r, k| r.nested(*k)));
            let e = G::new(&mut c.r, 8).entry(n, &v);
            let r = x.replay(&mut &e.framed()[..]);
            ensure!(r.is_err(), "{}: replay is accepted at {:?}: {:?}", info.name, base, e);
            ensure!(x.to_v() == v, "{}: refused replay at {:?} has an effect {}", info.name, base, diff(&x.to_v(), &v));
            c.count("non-roots", 1);
            c.eval(Some(fp((info.name, &base, e.body()))));
            continue;
        }
        // One entry or several in one go.
        let k = if c.r.chance(1, 3) { 2 + c.r.below(4) } else { 1 };
        let mut w = v.clone();
        let mut stream = vec![];
        let mut bad = None;
        let mut all = vec![];
        for i in 0..k {
            let src = if c.r.chance(1, 2) { &w } else { &v };
            let e = G::new(&mut c.r, 12).entry(n, src);
            stream.extend(e.framed());
            if bad.is_none() {
                if let Err(x) = apply_entry(n, &mut w, &e) {
                    bad = Some((i, x.0));
                }
            }
            all.push(e);
        }
        if bad.is_none() && c.r.chance(1, 10) {
            // Something which is no entry at all.
            let mut e = all[0].body();
            let head = *c.r.pick(&[1u64, 2, 7, 10, 11, 13, 100, 1 << 20]);
            let mut b = vec![];
            put_varint(&mut b, head);
            e.splice(0..1, b);
            put_varint(&mut stream, e.len() as u64);
            stream.extend(e);
            bad = Some((k, "unknown kind of entry".into()));
        }
        let r = ep.real.replay(&mut &stream[..]);
        let got = ep.real.to_v();
        c.say(format!("replayed {:?}: {}", all, if r.is_ok() { "ok" } else { "refused" }));
        match (&r, &bad) {
            (Ok(()), Some((i, why))) => viol!(
                "{}: entry {} of {:?} on {} has to be refused ({}), but is accepted and yields {}",
                info.name, i, all, short(&v), why, short(&got)
            ),
            (Err(e), None) => viol!("{}: {:?} on {} fits but is refused: {}", info.name, all, short(&v), e),
            _ => (),
        }
        ensure!(
            got == w,
            "{}: {:?} on {}: the state is wrong after {:?} {}", info.name, all, short(&v), bad, diff(&got, &w)
        );
        let mut want = vec![];
        addresses(n, &got, &mut vec![], &mut want);
        ensure!(ep.real.walk() == want, "{}: addresses wrong after {:?}", info.name, all);
        ensure!(ep.fresh_entries().is_empty(), "{}: replaying {:?} is recorded", info.name, all);
        match bad {
            Some((_, why)) => c.count(&format!("refused: {}", why.split(" below").next().unwrap().split(" on ").next().unwrap()), 1),
            None => c.count("accepted", 1),
        }
        c.eval(Some(fp((info.name, fp_v("", &v), stream))));
        if c.r.chance(1, 6) {
            let (at, op) = ep.gen_op(c, &HOWS);
            ep.real.apply(&at, &op, &mut ep.cx);
            ep.fresh_entries();
        }
    }
    ep.real.lookups()?;
    c.sample(|| format!("{} after {} entries: {:?}", info.name, steps, ep.real.to_v()));
    Ok(())
}

// ---------------------------------------------------------------- C17

pub type Ctor = (&'static str, &'static str, usize, fn(Runtime) -> Box<dyn DynVal>);

pub fn c17(c: &mut Case, ctors: &[Ctor]) -> Res {
    // Constructors.
    let (ty, name, j, f) = *c.r.pick(ctors);
    let x = f(Runtime::new());
    let n = x.node();
    let want = match n.strip() {
        Node::En(d) if j != usize::MAX => V::En(j, default_fields(&d.variants[j].fields)),
        _ => default_v(n),
    };
    ensure!(x.to_v() == want, "{}::{}: {} instead of {}", ty, name, short(&x.to_v()), short(&want));
    c.eval(Some(fp((ty, name))));
    c.count("constructors", 1);
    let info = c.any_type();
    let d = (info.dflt)().to_v();
    ensure!(d == default_v((info.node)()), "{}: default is {}", info.name, short(&d));
    // Histories.
    let info = c.state_type();
    let n = (info.node)();
    let v = c.val(n);
    let mut ep = Ep::new(info, Some(&v));
    ensure!(ep.real.to_v() == v, "{}: built as {} instead of {}", info.name, short(&ep.real.to_v()), short(&v));
    if c.r.chance(1, 3) {
        ep = Ep::new(info, None);
        let v = ep.real.to_v();
        ensure!(v == default_v(n), "{}: with_runtime gives {}", info.name, short(&v));
    }
    let mut v = ep.real.to_v();
    c.say(format!("{} {}", info.name, short(&v)));
    let steps = 1 + c.r.below(if c.thorough { 60 } else { 25 });
    let mut hist = fp(info.name);
    for _ in 0..steps {
        let (at, op) = ep.gen_op(c, &HOWS);
        c.say(show(&at, &op));
        hist = fp((hist, format!("{:?}{:?}", at, op)));
        let before = v.clone();
        let want = apply_op(n, &mut v, &at, &op, &mut vec![], &mut vec![]);
        let got = ep.real.apply(&at, &op, &mut ep.cx);
        ensure!(
            got == want,
            "{}: {} on {} returns {:?} instead of {:?}", info.name, show(&at, &op), short(&before), got, want
        );
        let now = ep.real.to_v();
        ensure!(
            now == v,
            "{}: {} on {} leads to a wrong state {}", info.name, show(&at, &op), short(&before), diff(&now, &v)
        );
        ep.real.lookups()?;
        c.eval(Some(hist));
        c.count(
            match op {
                Op::Set(..) => "setters",
                Op::SetV(..) => "variant setters",
                Op::Push(..) => "pushes",
                Op::Pop => "pops",
                Op::SwapRemove(_) => "swap removals",
                Op::Insert(..) => "insertions",
                Op::Remove(_) => "removals",
                Op::Read(_) => "reads",
            },
            1,
        );
    }
    c.sample(|| format!("{}: {} operations lead to {:?}", info.name, steps, v));
    Ok(())
}

// ---------------------------------------------------------------- C20

/// Shared sink which fails on demand.
#[derive(Clone, Default)]
struct Sink(Arc<Mutex<(Vec<u8>, Option<usize>)>>);

impl io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.lock().unwrap();
        if let Some(left) = s.1 {
            if left == 0 {
                return Err(io::Error::new(io::ErrorKind::BrokenPipe, "injected"));
            }
            let n = buf.len().min(left);
            s.1 = Some(left - n);
            s.0.extend_from_slice(&buf[..n]);
            return Ok(n);
        }
        s.0.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn bodies(es: &[LogEntry]) -> Vec<Entry> {
    es.iter().map(to_entry).collect()
}

fn framed_all(es: &[Entry]) -> Vec<u8> {
    es.iter().flat_map(|e| e.framed()).collect()
}

pub fn c20(c: &mut Case) -> Res {
    match c.r.below(8) {
        0 => return writer_logger(c),
        1 => return discarding(c),
        2 => return boxed_loggers(c),
        _ => (),
    }
    // Twins do the same; one tells what the other has to remember.
    let info = c.state_type();
    let v = c.val((info.node)());
    let mut twin = Ep::new(info, Some(&v));
    let (rt, log) = Runtime::with_logger_returned(BufferLogger::new());
    let mut real = (info.build)(&v, &rt);
    // Another tree on the same logger.
    let mut other = List::<i32>::new(rt.nested(SIDE));
    let mut cx = Cx::new();
    let mut held: Vec<Entry> = vec![];
    let mut paused = 0u32;
    let mut many = 0u32;
    let steps = 2 + c.r.below(if c.thorough { 80 } else { 30 });
    let mut hist = fp(info.name);
    for _ in 0..steps {
        let what;
        match c.r.below(20) {
            0 => {
                let b = log.lock().unwrap().bytes();
                ensure!(b == framed_all(&held), "{}: bytes() gives {:?} instead of {:?}", info.name, b, held);
                what = "bytes".to_string();
            }
            1 => {
                let b = log.lock().unwrap().pluck_bytes();
                ensure!(b == framed_all(&held), "{}: pluck_bytes() gives {:?} instead of {:?}", info.name, b, held);
                held.clear();
                what = "pluck_bytes".to_string();
            }
            2 => {
                let b = bodies(&log.lock().unwrap().pluck());
                ensure!(b == held, "{}: pluck() gives {:?} instead of {:?}", info.name, b, held);
                held.clear();
                what = "pluck".to_string();
            }
            3 => {
                log.lock().unwrap().clear();
                held.clear();
                what = "clear".to_string();
            }
            4 | 5 => {
                let at = c.r.below(3) as u32;
                // Sometimes very many at once.
                let times = if c.r.chance(1, 40) { [255, 256, 300, 65536][c.r.below(4)] } else { 1 };
                for _ in 0..times {
                    let n = rt.nested(at).pause_logger();
                    paused += 1;
                    ensure!(n == paused, "pause number {} is counted as {}", paused, n);
                }
                if times > 1 {
                    c.count("pauses by the hundred", 1);
                    if c.r.chance(2, 3) {
                        // And most of them are taken back, some time later.
                        many = paused - c.r.below(3).min(paused as usize) as u32;
                    }
                }
                what = format!("{} pauses", times);
            }
            6 | 7 | 8 => {
                for _ in 0..=std::mem::take(&mut many) {
                    let n = rt.unpause_logger();
                    paused = paused.saturating_sub(1);
                    ensure!(n == paused, "{} pauses left, but told {}", paused, n);
                }
                what = "unpause".to_string();
            }
            9 if c.r.chance(1, 2) => {
                log.lock().unwrap().replace(BufferLogger::new());
                held.clear();
                what = "replace".to_string();
            }
            10 => {
                // The logging interface itself.
                let at = rt.nested(7).nested(c.r.below(300) as u32);
                let path = at.path().collect_values();
                let x = int_i(&mut c.r, 32) as i32;
                let up = |p: &[u32]| Entry { kind: Kind::Update, path: p.to_vec(), val: x.to_bytes(), key: 0 };
                let mut want = vec![];
                let r = match c.r.below(6) {
                    0 => {
                        want.push(up(&path));
                        at.log_update(&x)
                    }
                    1 => {
                        want.push(up(&[&path[..], &[9]].concat()));
                        at.log_update_child(9, &x)
                    }
                    2 => {
                        want.push(Entry { kind: Kind::Push, path, val: x.to_bytes(), key: 0 });
                        at.log_list_push(&x)
                    }
                    3 => {
                        want.push(Entry { kind: Kind::Pop, path, val: vec![], key: 0 });
                        at.log_list_pop()
                    }
                    4 => {
                        want.push(Entry { kind: Kind::Remove, path, val: vec![], key: 77 });
                        at.log_map_remove(77)
                    }
                    _ => {
                        let es = vec![at.entry_list_pop(), at.entry_update(&x), at.entry_map_remove(3)];
                        want.push(Entry { kind: Kind::Pop, path: path.clone(), val: vec![], key: 0 });
                        want.push(up(&path));
                        want.push(Entry { kind: Kind::Remove, path, val: vec![], key: 3 });
                        at.log_multi(es)
                    }
                };
                ensure!(r.is_ok(), "logging fails: {:?}", r);
                what = format!("log {:?}", want);
                if paused == 0 {
                    held.extend(want);
                }
            }
            11 => {
                let x = int_i(&mut c.r, 16) as i32;
                // Many entries now and then.
                let n = if c.r.chance(1, 150) { *c.r.pick(&[70, 150, 300, 700, 1100, 2100, 4200, 9000]) } else { 1 };
                for _ in 0..n {
                    other.push(x);
                    if paused == 0 {
                        held.push(Entry { kind: Kind::Push, path: vec![SIDE], val: x.to_bytes(), key: 0 });
                    }
                }
                c.count("bursts", (n > 1) as u64);
                what = format!("push elsewhere, {} times", n);
            }
            _ => {
                let (at, op) = twin.gen_op(c, &HOWS);
                what = show(&at, &op);
                twin.real.apply(&at, &op, &mut twin.cx);
                real.apply(&at, &op, &mut cx);
                let es = bodies(&twin.fresh_entries());
                c.count(if paused == 0 { "recorded" } else { "suppressed" }, es.len() as u64);
                if paused == 0 {
                    held.extend(es);
                }
            }
        }
        c.say(what.clone());
        hist = fp((hist, &what));
        if c.r.chance(1, 2) {
            let b = log.lock().unwrap().bytes();
            ensure!(
                b == framed_all(&held),
                "{}: after {} with {} pauses the buffer has {:?} instead of {:?}", info.name, what, paused, b, held
            );
            // Reading them back.
            let mut rd = steit::de::Reader::new(&b[..]);
            for e in &held {
                use steit::{de::Deserialize, wire_fmt::HasWireType};
                let x = LogEntry::deserialize_nested(LogEntry::WIRE_TYPE, &mut rd).map_err(|e| e.to_string())?;
                ensure!(to_entry(&x) == *e, "{}: read back {:?} instead of {:?}", info.name, x, e);
            }
            ensure!(rd.eof().unwrap_or(false), "{}: surplus bytes in the buffer", info.name);
            c.eval(Some(hist));
        }
    }
    let end = bodies(&log.lock().unwrap().pluck());
    ensure!(end == held, "{}: at the end pluck() gives {:?} instead of {:?}", info.name, end, held);
    c.eval(Some(hist));
    c.sample(|| format!("{}: {} steps on a buffering logger, {} entries held at the end", info.name, steps, held.len()));
    Ok(())
}

fn writer_logger(c: &mut Case) -> Res {
    let info = c.state_type();
    let v = c.val((info.node)());
    let mut twin = Ep::new(info, Some(&v));
    let sink = Sink::default();
    let (rt, log) = Runtime::with_logger_returned(WriterLogger::new(sink.clone()));
    let mut real = (info.build)(&v, &rt);
    let mut cx = Cx::new();
    let mut pos = 0;
    let mut sink = sink;
    for _ in 0..1 + c.r.below(10) {
        let (at, op) = twin.gen_op(c, &HOWS);
        c.say(show(&at, &op));
        twin.real.apply(&at, &op, &mut twin.cx);
        real.apply(&at, &op, &mut cx);
        let es = twin.fresh_entries();
        let out = sink.0.lock().unwrap().0.clone();
        let text = String::from_utf8_lossy(&out[pos..]).to_string();
        // Each entry once, in order, with its bytes.
        let mut rest = &text[..];
        for e in &es {
            let shown = format!("{:?}", framed(e));
            match rest.find(&shown) {
                Some(i) => rest = &rest[i + shown.len()..],
                None => viol!("{}: writing logger wrote {:?}, entry {:?} is missing", info.name, text, e),
            }
        }
        ensure!(text.matches(" => ").count() == es.len(), "{}: {} entries written as {:?}", info.name, es.len(), text);
        ensure!(rest.trim().is_empty(), "{}: surplus output {:?}", info.name, rest);
        pos = out.len();
        c.count("written entries", es.len() as u64);
        c.eval(Some(fp((info.name, &text))));
        if c.r.chance(1, 6) {
            let next = Sink::default();
            log.lock().unwrap().replace(WriterLogger::new(next.clone()));
            sink = next;
            pos = 0;
        }
    }
    // A sink which fails.
    let n = c.r.below(30);
    let bad = Sink(Arc::new(Mutex::new((vec![], Some(n)))));
    let (rt, _log) = Runtime::with_logger_returned(WriterLogger::new(bad));
    let r = rt.log(rt.nested(3).entry_update(&5u8));
    ensure!(r.is_err(), "failure of the sink after {} bytes goes unnoticed", n);
    let r = rt.log_multi(vec![rt.entry_list_pop(), rt.entry_list_pop()]);
    ensure!(r.is_err(), "failure of the sink goes unnoticed for several entries");
    c.count("sink failures", 2);
    Ok(())
}

fn discarding(c: &mut Case) -> Res {
    let info = c.state_type();
    let v = c.val((info.node)());
    let mut twin = Ep::new(info, Some(&v));
    let (rt, log) = Runtime::with_logger_returned(NoopLogger::new());
    let mut real = (info.build)(&v, &rt);
    let mut cx = Cx::new();
    for _ in 0..5 {
        let (at, op) = twin.gen_op(c, &HOWS);
        c.say(show(&at, &op));
        let a = twin.real.apply(&at, &op, &mut twin.cx);
        let b = real.apply(&at, &op, &mut cx);
        ensure!(a == b && real.to_v() == twin.real.to_v(), "{}: the logger makes a difference", info.name);
        c.eval(Some(fp((info.name, format!("{:?}", op)))));
    }
    log.lock().unwrap().log(rt.entry_list_pop()).map_err(|e| e.to_string())?;
    // A logger which refuses by panicking is asked for real entries only.
    let (rt, _log) = Runtime::with_logger_returned(PanicLogger::new());
    let mut l = List::<u32>::new(rt.clone());
    l.merge_all(&[1, 2]);
    ensure!(l.get(0) == Some(&1), "merge differs");
    rt.pause_logger();
    l.push(3);
    rt.unpause_logger();
    let r = catch_unwind(AssertUnwindSafe(|| l.push(4)));
    ensure!(r.is_err() && l.len() == 3, "PanicLogger lets an entry pass");
    c.count("discarded", 5);
    Ok(())
}

trait MergeAll {
    fn merge_all(&mut self, xs: &[u8]);
}

impl MergeAll for List<u32> {
    fn merge_all(&mut self, xs: &[u8]) {
        use steit::de::{Deserialize, Reader};
        self.merge(&mut Reader::new(xs)).unwrap();
    }
}

/// Hands entries to a shared record.
struct Tap(Arc<Mutex<Vec<LogEntry>>>);

impl Logger for Tap {
    fn log(&mut self, entry: LogEntry) -> io::Result<()> {
        self.0.lock().unwrap().push(entry);
        Ok(())
    }
}

/// Notes entries, and fails at one of them.
struct Faulty {
    tap: Arc<Mutex<Vec<LogEntry>>>,
    at: usize,
    n: usize,
}

impl Logger for Faulty {
    fn log(&mut self, entry: LogEntry) -> io::Result<()> {
        self.n += 1;
        if self.n == self.at {
            return Err(io::Error::new(io::ErrorKind::Other, "full"));
        }
        self.tap.lock().unwrap().push(entry);
        Ok(())
    }
}

/// Several entries at once, given to a logger itself, a boxed one, and one in a runtime.
fn at_once(c: &mut Case) -> Res {
    let n = 1 + c.r.below(5);
    let at = c.r.below(n + 2);
    let rt = Runtime::new();
    let make = |rt: &Runtime| -> Vec<LogEntry> { (0..n).map(|i| rt.nested(i as u32).entry_update(&(i as u8 + 1))).collect() };
    let all = make(&rt);
    let all: Vec<Entry> = all.iter().map(to_entry).collect();
    for way in 0..5 {
        let tap = Arc::new(Mutex::new(vec![]));
        let mut f = Faulty { tap: tap.clone(), at, n: 0 };
        let r = match way {
            0 => f.log_multi(make(&rt)),
            1 => {
                let mut b: Box<dyn Logger> = Box::new(f);
                b.log_multi(make(&rt))
            }
            2 => {
                let mut b = Box::new(Box::new(f));
                Logger::log_multi(&mut b, make(&rt))
            }
            3 => Runtime::with_logger(f).log_multi(make(&rt)),
            _ => {
                let b: Box<dyn Logger> = Box::new(f);
                let (rt, log) = Runtime::with_logger_returned(b);
                let x = log.lock().unwrap().log_multi(make(&rt));
                x
            }
        };
        let got: Vec<Entry> = tap.lock().unwrap().iter().map(to_entry).collect();
        let fails = at >= 1 && at <= n;
        ensure!(r.is_err() == fails, "way {}: {} entries at once, failure at {}: {:?}", way, n, at, r);
        let want = if fails { &all[..at - 1] } else { &all[..] };
        ensure!(got == want, "way {}: {} entries at once, failure at {}: records {:?}", way, n, at, got);
        c.eval(Some(fp(("at once", way, n, at))));
        c.count("entries at once", n as u64);
    }
    Ok(())
}

fn boxed_loggers(c: &mut Case) -> Res {
    at_once(c)?;
    let info = c.state_type();
    let v = c.val((info.node)());
    let mut twin = Ep::new(info, Some(&v));
    let mut tap = Arc::new(Mutex::new(vec![]));
    let first: Box<dyn Logger> = Box::new(Tap(tap.clone()));
    let (rt, log) = Runtime::with_logger_returned(first);
    let mut real = (info.build)(&v, &rt);
    let mut cx = Cx::new();
    let mut live = true;
    for _ in 0..2 + c.r.below(12) {
        if c.r.chance(1, 4) {
            live = c.r.chance(2, 3);
            let old = std::mem::replace(&mut tap, Arc::new(Mutex::new(vec![])));
            let next: Box<dyn Logger> = if live { Box::new(Tap(tap.clone())) } else { Box::new(NoopLogger::new()) };
            log.lock().unwrap().replace(next);
            ensure!(Arc::strong_count(&old) == 1, "a replaced logger is kept");
            c.say(format!("replaced by {}", if live { "a recording one" } else { "a discarding one" }));
            c.count("replacements", 1);
        }
        let (at, op) = twin.gen_op(c, &HOWS);
        c.say(show(&at, &op));
        twin.real.apply(&at, &op, &mut twin.cx);
        real.apply(&at, &op, &mut cx);
        let want = bodies(&twin.fresh_entries());
        let got = bodies(&std::mem::take(&mut *tap.lock().unwrap()));
        if live {
            ensure!(got == want, "{}: {} records {:?} instead of {:?}", info.name, show(&at, &op), got, want);
        } else {
            ensure!(got.is_empty(), "{}: a replaced logger still gets {:?}", info.name, got);
        }
        c.eval(Some(fp((info.name, format!("{:?}", want)))));
    }
    Ok(())
}

// ---------------------------------------------------------------- C26

struct Handle {
    rt: Runtime,
    at: Vec<u32>,
    /// Which logger it belongs to.
    of: usize,
}

struct Book {
    log: LoggerHandle<Rec>,
    paused: u32,
    seen: usize,
}

fn entry_is(e: &LogEntry, want: &Entry) -> bool {
    let g = to_entry(e);
    g.kind == want.kind && g.path == want.path && g.val == want.val && g.key == want.key
}

/// Handles of a runtime stand for the addresses they were made for, and all share its logger.
pub fn c26(c: &mut Case) -> Res {
    let mut books: Vec<Book> = vec![];
    let mut hs: Vec<Handle> = vec![];
    for of in 0..1 + c.r.below(2) {
        let (rt, log) = Runtime::with_logger_returned(Rec::default());
        books.push(Book { log, paused: 0, seen: 0 });
        hs.push(Handle { rt, at: vec![], of });
    }
    let steps = 6 + c.r.below(if c.thorough { 150 } else { 50 });
    let mut hist = 0;
    for _ in 0..steps {
        let i = c.r.below(hs.len());
        let (at, of) = (hs[i].at.clone(), hs[i].of);
        let num = match c.r.below(4) {
            0 => int_u(&mut c.r, 32) as u32,
            1 => *c.r.pick(&[0, 1, 127, 128, FIELD_MAX, FIELD_MAX + 1, u32::MAX]),
            _ => c.r.below(6) as u32,
        };
        // Entries expected at the logger of this handle, and whether one of them is refused.
        let mut want: Vec<Entry> = vec![];
        let mut result: Option<io::Result<()>> = None;
        let mut refuse = None;
        let what;
        match c.r.below(16) {
            0 | 1 | 2 => {
                let levels = if c.r.chance(1, 30) { 400 } else { 1 + c.r.below(3) };
                let (mut rt, mut p) = (hs[i].rt.clone(), at);
                for k in 0..levels as u32 {
                    rt = rt.nested(num.wrapping_add(k));
                    p.push(num.wrapping_add(k));
                }
                what = format!("{} levels below", levels);
                hs.push(Handle { rt, at: p, of });
            }
            3 | 4 if !at.is_empty() => {
                what = "sibling".into();
                let rt = hs[i].rt.sibling(num);
                hs.push(Handle { rt, at: at[..at.len() - 1].iter().copied().chain(Some(num)).collect(), of });
            }
            5 | 6 if !at.is_empty() => {
                what = "parent".into();
                let rt = hs[i].rt.parent();
                hs.push(Handle { rt, at: at[..at.len() - 1].to_vec(), of });
            }
            7 => {
                what = "copy".into();
                let rt = hs[i].rt.clone();
                hs.push(Handle { rt, at, of });
            }
            8 if hs.len() > 1 => {
                // Those made from it live on.
                what = "drop".into();
                if hs.iter().filter(|h| h.of == of).count() > 1 {
                    hs.swap_remove(i);
                }
            }
            9 => {
                let left = if c.r.chance(1, 2) {
                    books[of].paused += 1;
                    what = "pause".to_string();
                    hs[i].rt.pause_logger()
                } else {
                    books[of].paused = books[of].paused.saturating_sub(1);
                    what = "unpause".to_string();
                    hs[i].rt.unpause_logger()
                };
                ensure!(left == books[of].paused, "{}: {} pauses told instead of {}", what, left, books[of].paused);
            }
            10 => {
                // A state living there.
                let info = c.state_type();
                let n = (info.node)();
                let mut x = if c.r.chance(1, 2) {
                    (info.with_rt.unwrap())(hs[i].rt.clone())
                } else {
                    let v = c.val(n);
                    (info.build)(&v, &hs[i].rt)
                };
                addresses_of(c, info.name, n, &*x, &at, "made with a handle")?;
                let mut v = x.to_v();
                let mut exp = vec![];
                let mut cx = Cx::new();
                for _ in 0..2 {
                    let (to, op) = G::new(&mut c.r, 4).op(n, &v, &HOWS);
                    c.say(format!("{} at {:?}: {}", info.name, at, show(&to, &op)));
                    apply_op(n, &mut v, &to, &op, &mut at.clone(), &mut exp);
                    x.apply(&to, &op, &mut cx);
                }
                let mut l = books[of].log.lock().unwrap();
                let got = l.got.split_off(books[of].seen);
                drop(l);
                if books[of].paused > 0 {
                    exp.clear();
                }
                compare_log(&info, "through a handle", &got, &exp)?;
                c.count("states at handles", 1);
                continue;
            }
            _ => {
                // Entries, made and logged.
                let kinds = c.r.below(7);
                let info = c.any_type();
                let v = c.val((info.node)());
                let x = (info.build)(&v, &Runtime::new());
                let val = x.to_bytes();
                let raw = Bytes::from_raw(val.clone());
                let rt = &hs[i].rt;
                let mk = |kind: Kind, path: Vec<u32>, val: Vec<u8>, key: u32| Entry { kind, path, val, key };
                let below: Vec<u32> = at.iter().copied().chain(Some(num)).collect();
                if books[of].paused == 0 && c.r.chance(1, 4) {
                    refuse = Some(1 + c.r.below(if kinds >= 5 { 4 } else { 1 }) as u64);
                    let mut l = books[of].log.lock().unwrap();
                    let at = l.calls + refuse.unwrap();
                    l.fail_at = Some(at);
                }
                let direct = c.r.chance(1, 2);
                let mut log = |e: LogEntry, w: &Entry, d: io::Result<()>| -> Result<(), String> {
                    ensure!(entry_is(&e, w), "at {:?}: made {:?} instead of {:?}", at, e, w);
                    result = Some(if direct { d } else { rt.log(e) });
                    Ok(())
                };
                let ok = || Ok(());
                match kinds {
                    0 => {
                        want.push(mk(Kind::Update, at.clone(), val, 0));
                        log(rt.entry_update(&raw), &want[0], if direct { rt.log_update(&raw) } else { ok() })?;
                    }
                    1 => {
                        want.push(mk(Kind::Update, below, val, 0));
                        log(rt.entry_update_child(num, &raw), &want[0], if direct { rt.log_update_child(num, &raw) } else { ok() })?;
                    }
                    2 => {
                        want.push(mk(Kind::Push, at.clone(), val, 0));
                        log(rt.entry_list_push(&raw), &want[0], if direct { rt.log_list_push(&raw) } else { ok() })?;
                    }
                    3 => {
                        want.push(mk(Kind::Pop, at.clone(), vec![], 0));
                        log(rt.entry_list_pop(), &want[0], if direct { rt.log_list_pop() } else { ok() })?;
                    }
                    4 => {
                        want.push(mk(Kind::Remove, at.clone(), vec![], num));
                        log(rt.entry_map_remove(num), &want[0], if direct { rt.log_map_remove(num) } else { ok() })?;
                    }
                    k => {
                        // Several at once, also of other handles; what counts is the logger they are given to.
                        let mut es = vec![];
                        let many = if c.r.chance(1, 12) { *c.r.pick(&[16, 65, 300]) } else { 0 };
                        for j in 0..many + k + c.r.below(4) - 4 {
                            let h = &hs[c.r.below(hs.len())];
                            let (e, w) = if j % 2 == 0 {
                                (h.rt.entry_update(&raw), mk(Kind::Update, h.at.clone(), val.clone(), 0))
                            } else {
                                (h.rt.entry_map_remove(j as u32), mk(Kind::Remove, h.at.clone(), vec![], j as u32))
                            };
                            es.push(e);
                            want.push(w);
                        }
                        result = Some(rt.log_multi(es));
                    }
                }
                what = format!("{} entries", want.len());
                c.count("entries logged", want.len() as u64);
            }
        }
        hist = fp((hist, &what));
        c.say(format!("{} at {:?}", what, hs.get(i).map(|h| &h.at)));
        let refused = refuse.map_or(false, |k| k <= want.len() as u64);
        if refused {
            want.truncate(refuse.unwrap() as usize - 1);
            c.count("refusals", 1);
        }
        if let Some(r) = result {
            ensure!(r.is_err() == refused, "{}: {:?}, but {}", what, r, if refused { "an entry was refused" } else { "none was refused" });
        }
        if books[of].paused > 0 {
            want.clear();
        }
        // Nothing else was recorded anywhere.
        for (k, b) in books.iter_mut().enumerate() {
            let mut l = b.log.lock().unwrap();
            l.fail_at = None;
            let got: Vec<LogEntry> = l.got.split_off(b.seen);
            let exp: &[Entry] = if k == of { &want } else { &[] };
            ensure!(
                got.len() == exp.len() && got.iter().zip(exp).all(|(g, w)| entry_is(g, w)),
                "{}: logger {} was given {:?} instead of {:?}", what, k, got, exp
            );
        }
        // All handles still stand for what they stood for.
        for h in &hs {
            let p = h.rt.path();
            ensure!(p.collect_values() == h.at, "{}: the handle of {:?} says {:?}", what, h.at, p.collect_values());
            let up = h.at.split_last();
            ensure!(
                h.rt.is_root() == up.is_none()
                    && h.rt.is_child() == up.is_some()
                    && h.rt.get_field_number() == up.map(|x| *x.0)
                    && up.map_or(true, |x| h.rt.field_number() == *x.0 && *p.value() == *x.0)
                    && p.get_value() == up.map(|x| x.0)
                    && p.get_parent().map(|q| q.collect_values()) == up.map(|x| x.1.to_vec()),
                "{}: the handle of {:?} answers wrongly", what, h.at
            );
            ensure!(h.rt == hs[0].rt, "{}: runtimes differ", what);
        }
        c.count("handles looked at", hs.len() as u64);
        let deepest = hs.iter().map(|h| h.at.len()).max().unwrap();
        c.eval(if deepest > 0 { Some(fp((hist, deepest, hs.len()))) } else { None });
        if hs.len() > 24 {
            let k = c.r.below(hs.len());
            if hs.iter().filter(|h| h.of == hs[k].of).count() > 1 {
                hs.swap_remove(k);
            }
        }
    }
    c.sample(|| hs.iter().take(6).map(|h| format!("{:?} of {}", &h.at[..h.at.len().min(6)], h.of)).collect::<Vec<_>>().join(", "));
    Ok(())
}
