//! The server's side of the checks of generated clients.
//!
//! `client episodes SEED TIER FROM TO`: histories, one JSON object per line.
//! `client generate`: runs the generator once for each line of the input and says what it returned.
#![allow(dead_code)]
#[path = "../gen.rs"]
mod gen;
#[path = "../model.rs"]
mod model;
#[path = "../mon.rs"]
mod mon;
#[path = "../real.rs"]
mod real;
#[path = "../rng.rs"]
mod rng;
#[path = "../client_gen.rs"]
mod zoo_gen;

use std::{
    fmt::Write as _,
    io::{BufRead, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    path::Path,
};

use steit::gen::{generators::CSharpSetting, Setting};

use model::*;
use mon::*;
use rng::*;

fn quoted(o: &mut String, s: &str) {
    o.push('"');
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}

fn list<'a, T: 'a>(o: &mut String, xs: impl IntoIterator<Item = T>, mut f: impl FnMut(&mut String, T)) {
    o.push('[');
    for (i, x) in xs.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        f(o, x);
    }
    o.push(']');
}

/// Structs are lists of fields, variants `{"e": [index, fields]}`, maps `{"m": [[key, value]]}`, options `{"o": [value]}`.
fn dump(o: &mut String, v: &V) {
    match v {
        V::U(x) => write!(o, "{}", x).unwrap(),
        V::I(x) => write!(o, "{}", x).unwrap(),
        V::B(x) => write!(o, "{}", x).unwrap(),
        V::S(x) => quoted(o, x),
        V::By(x) => list(o, x, |o, b| write!(o, "{}", b).unwrap()),
        V::Seq(xs) | V::St(xs) => list(o, xs, dump),
        V::Opt(x) => {
            o.push_str("{\"o\":");
            list(o, x.iter(), |o, x| dump(o, x));
            o.push('}');
        }
        V::Map(xs) => {
            o.push_str("{\"m\":");
            list(o, xs, |o, (k, v)| {
                write!(o, "[{},", k).unwrap();
                dump(o, v);
                o.push(']');
            });
            o.push('}');
        }
        V::En(j, xs) => {
            write!(o, "{{\"e\":[{},", j).unwrap();
            list(o, xs, dump);
            o.push_str("]}");
        }
        V::Hm(_) => panic!("HARNESS: hash map in a client's schema"),
    }
}

fn hex(o: &mut String, b: &[u8]) {
    o.push('"');
    for x in b {
        write!(o, "{:02x}", x).unwrap();
    }
    o.push('"');
}

fn episode(types: &[real::TyInfo], roots: &[&'static str], seed: u64, thorough: bool, id: u64) -> String {
    let mut st = Stats::default();
    let mut c = Case { id, r: Rng::new(&[seed, hash_str("C15"), id]), st: &mut st, types, thorough, trace: vec![] };
    // The second visit to every root and some of the later ones have something long.
    if id as usize / roots.len() == 1 || c.r.chance(1, 60) {
        c.r.big = *c.r.pick(&[130, 140, 300, 300, 16400]);
    }
    // Every root in turn.
    let name = roots[id as usize % roots.len()];
    let info = c.named(name);
    let n = (info.node)();
    let mut o = String::new();
    write!(o, "{{\"case\":{},\"type\":", id).unwrap();
    quoted(&mut o, name);
    let v = match c.r.below(4) {
        0 => default_v(n),
        _ => gen::G::new(&mut c.r, [4, 12, 40][id as usize % 3]).val(n),
    };
    let mut ep = Ep::new(info, Some(&v));
    ep.fresh_entries();
    o.push_str(",\"snapshot\":");
    hex(&mut o, &ep.real.to_bytes());
    o.push_str(",\"start\":");
    dump(&mut o, &ep.real.to_v());
    o.push_str(",\"steps\":[");
    let steps = 1 + c.r.below(if thorough { 40 } else { 16 });
    for i in 0..steps {
        let v = ep.real.to_v();
        let b = if weight(&v) > 120 { 2 } else { *c.r.pick(&[2, 5, 14]) };
        let (at, op) = gen::G::new(&mut c.r, b).op(n, &v, &gen::HOWS);
        ep.real.apply(&at, &op, &mut ep.cx);
        if i > 0 {
            o.push(',');
        }
        o.push_str("{\"op\":");
        quoted(&mut o, &clip(&format!("{:?} {:?}", at, op), 300));
        o.push_str(",\"entries\":");
        list(&mut o, ep.fresh_entries(), |o, e| hex(o, &framed(&e)));
        o.push_str(",\"value\":");
        dump(&mut o, &ep.real.to_v());
        o.push('}');
    }
    o.push_str("]}");
    o
}

/// One run of the generator: directory, root, namespace, used namespaces, skipped names, flags; separated by tabs.
fn generate(line: &str) -> String {
    let p: Vec<&str> = line.split('\t').collect();
    let (dir, root, ns, using, skip, flags) = (p[0], p[1], p[2], p[3], p[4], p[5]);
    let words = |s: &str| s.split(',').filter(|s| !s.is_empty()).map(String::from).collect::<Vec<_>>();
    let mut inner = CSharpSetting::new(ns);
    if !using.is_empty() {
        inner = inner.using_namespaces(words(using));
    }
    let mut s = Setting::new(&Path::new(dir), inner);
    for f in words(flags) {
        s = match &f[..] {
            "builtins" => s.skip_builtins(false),
            "no-builtins" => s.skip_builtins(true),
            "rust" => s.get_name_rust(),
            "csharp" => s.get_name_csharp(),
            f => panic!("HARNESS: flag {}", f),
        };
    }
    if !skip.is_empty() {
        s = s.skip_names(words(skip));
    }
    let gens = zoo_gen::gens();
    let g = gens.iter().find(|g| g.0 == root).unwrap_or_else(|| panic!("HARNESS: root {}", root));
    match catch_unwind(AssertUnwindSafe(|| (g.1)(&s))) {
        Ok(Ok(names)) => format!("ok\t{}", names.join(",")),
        Ok(Err(e)) => format!("error\t{}", e.to_string().replace(['\n', '\t'], " ")),
        Err(p) => format!(
            "panic\t{}",
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        ),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut out = std::io::BufWriter::new(std::io::stdout());
        match &a[1][..] {
            "episodes" => {
                let types = zoo_gen::types();
                let roots: Vec<&'static str> = types.iter().map(|t| t.name).collect();
                for id in a[4].parse::<u64>().unwrap()..a[5].parse().unwrap() {
                    let r = catch_unwind(|| episode(&types, &roots, a[2].parse().unwrap(), a[3] == "thorough", id));
                    match r {
                        Ok(s) => writeln!(out, "{}", s).unwrap(),
                        // A server which panics is the business of other checks.
                        Err(_) => writeln!(out, "{{\"case\":{},\"panic\":true}}", id).unwrap(),
                    }
                }
            }
            "generate" => {
                for line in std::io::stdin().lock().lines() {
                    writeln!(out, "{}", generate(&line.unwrap())).unwrap();
                    out.flush().unwrap();
                }
            }
            k => panic!("HARNESS: {}", k),
        }
    });
    std::process::exit(if h.unwrap().join().is_ok() { 0 } else { 2 });
}
