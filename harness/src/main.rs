//! Runs one check: `monitor PROP --seed S --tier T --worker I --of N --cases K --cap SECS --out FILE [--case ID]`.
mod codec;
mod gen;
mod hist;
mod model;
mod mon;
mod real;
mod rng;
mod work;
mod zoo_gen;

use std::{
    cell::RefCell,
    fmt::Write as _,
    io::Write,
    os::unix::fs::FileExt,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::atomic::{AtomicU64, Ordering},
    time::{Duration, Instant},
};

use mon::*;
use rng::*;

#[global_allocator]
static ALLOC: Counting = Counting;

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Number of the case under way, plus one.
static CURRENT: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
}

/// CPU time of the process in seconds.
fn cpu() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(2, &mut ts) };
    ts[0] as f64 + ts[1] as f64 / 1e9
}

struct Args {
    prop: String,
    seed: u64,
    thorough: bool,
    worker: u64,
    of: u64,
    cases: u64,
    cap: f64,
    out: String,
    case: Option<u64>,
    verbose: bool,
}

fn args() -> Args {
    let mut it = std::env::args().skip(1);
    let mut a = Args {
        prop: it.next().expect("HARNESS: property"),
        seed: 1,
        thorough: false,
        worker: 0,
        of: 1,
        cases: 100,
        cap: 60.0,
        out: String::new(),
        case: None,
        verbose: false,
    };
    while let Some(k) = it.next() {
        let mut val = || it.next().expect("HARNESS: argument");
        match &k[..] {
            "--seed" => a.seed = val().parse().unwrap(),
            "--tier" => a.thorough = val() == "thorough",
            "--worker" => a.worker = val().parse().unwrap(),
            "--of" => a.of = val().parse().unwrap(),
            "--cases" => a.cases = val().parse().unwrap(),
            "--cap" => a.cap = val().parse().unwrap(),
            "--out" => a.out = val(),
            "--case" => a.case = Some(val().parse().unwrap()),
            "--verbose" => a.verbose = true,
            k => panic!("HARNESS: {}", k),
        }
    }
    a
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Now and then a case has one big string, byte string or list, so that lengths (also those of
/// everything around it) pass 14, 16, 17 and 21 bits.
fn big(prop: &str, thorough: bool, r: &mut Rng) -> usize {
    let one_in = match prop {
        "C01" | "C03" | "C04" | "C06" | "C07" => 120,
        "C02" | "C08" | "C09" | "C12" | "C14" | "C17" | "C20" => 300,
        _ => return 0,
    };
    // The clone is used for this alone.
    *r = Rng::new(&[r.next(), 0xb19]);
    if !r.chance(1, one_in) {
        return 0;
    }
    match r.below(6) {
        0 => 16300 + r.below(100),
        1 => 16384 + r.below(20),
        2 => 65500 + r.below(60),
        3 => 65530 + r.below(10),
        4 if thorough && r.chance(1, 3) => 2097100 + r.below(100),
        _ => 65536 + r.below(70000),
    }
}

fn run_case(prop: &str, c: &mut Case, ctors: &[hist::Ctor], evo: &[(&'static str, &'static str)]) -> Res {
    match prop {
        "C01" => codec::c01(c),
        "C02" => hist::c02(c),
        "C03" => codec::c03(c),
        "C04" => codec::c04(c),
        "C05" => codec::c05(c),
        "C06" => codec::c06(c, evo),
        "C07" => codec::c07(c),
        "C08" => hist::c08(c),
        "C09" => hist::c09(c),
        "C10" => hist::c10(c),
        "C12" => hist::c12(c),
        "C14" => codec::c14(c),
        "C17" => hist::c17(c, ctors),
        "C18" => codec::c18(c),
        "C19" => codec::c19(c),
        "C20" => hist::c20(c),
        "C24" => work::c24(c),
        "C26" => hist::c26(c),
        p => panic!("HARNESS: no check {}", p),
    }
}

/// Known findings, each shown to be there or not.
fn probe(name: &str) -> bool {
    match name {
        "F13" => {
            let mut m = steit::types::Map::<u32, u8>::new(Default::default());
            m.insert(1 << 29, 1);
            catch_unwind(AssertUnwindSafe(|| steit::ser::Serialize::to_bytes(&m))).is_err()
        }
        "F14" => {
            // Aborts the process if it is there.
            let types = zoo_gen::types();
            let t = *types.iter().find(|t| t.name == "PRec").unwrap();
            let mut b = vec![];
            for _ in 0..60_000 {
                let mut x = vec![18];
                let mut inner = vec![];
                model::put_varint(&mut inner, b.len() as u64);
                inner.extend_from_slice(&b);
                model::put_varint(&mut x, inner.len() as u64);
                x.extend(inner);
                b = x;
                if b.len() > 200_000 {
                    break;
                }
            }
            let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
                let t = t.dflt;
                drop(t().de(&mut &b[..]));
            });
            let _ = h.unwrap().join();
            false
        }
        "F15" => hist::probe_f15(),
        p => panic!("HARNESS: no probe {}", p),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let msg = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        let at = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        PANIC.with(|p| *p.borrow_mut() = format!("{}{}", msg, at));
    }));
    let argv: Vec<String> = std::env::args().collect();
    if argv.get(1).map(|s| &s[..]) == Some("probe") {
        let r = probe(&argv[2]);
        println!("PROBE {} {}", argv[2], if r { "present" } else { "absent" });
        return;
    }
    if argv.get(1).map(|s| &s[..]) == Some("union") {
        // Number of distinct fingerprints in the files.
        let mut all = Vec::new();
        for f in &argv[2..] {
            let b = std::fs::read(f).expect("HARNESS: fingerprints");
            all.extend(b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
        }
        all.sort_unstable();
        all.dedup();
        println!("{}", all.len());
        return;
    }
    let a = args();
    std::thread::spawn(watchdog);
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || work(a)).expect("HARNESS: thread");
    let code = h.join().unwrap_or(2);
    std::process::exit(code);
}

/// Ends the process when a case spins or blocks for good.
fn watchdog() {
    let mut last = (0, cpu(), Instant::now());
    let mut still = (cpu(), Instant::now());
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let (now, used) = (CURRENT.load(Ordering::SeqCst), cpu());
        if now != last.0 || now == 0 {
            last = (now, used, Instant::now());
            still = (used, Instant::now());
            continue;
        }
        if used - last.1 > 60.0 {
            println!("HANG spins case {}", now - 1);
            std::process::exit(97);
        }
        if used - still.0 > 0.3 {
            still = (used, Instant::now());
        } else if still.1.elapsed() > Duration::from_secs(90) {
            println!("HANG blocks case {}", now - 1);
            std::process::exit(97);
        }
    }
}

fn work(a: Args) -> i32 {
    let types = zoo_gen::types();
    let ctors = zoo_gen::ctors();
    let evo = zoo_gen::evolutions();
    let mut st = Stats::default();
    let begin = Instant::now();
    let marker = if a.out.is_empty() { None } else { std::fs::File::create(format!("{}.case", a.out)).ok() };
    let mut id = a.case.unwrap_or(a.worker);
    let mut done = 0u64;
    let mut code = 0;
    let mut failure = None;
    while id < a.cases || a.case.is_some() {
        if begin.elapsed().as_secs_f64() > a.cap && a.case.is_none() {
            break;
        }
        CURRENT.store(id + 1, Ordering::SeqCst);
        if let Some(m) = &marker {
            let _ = m.write_at(format!("{:<20}", id).as_bytes(), 0);
        }
        let mut c = Case {
            id,
            r: Rng::new(&[a.seed, hash_str(&a.prop), id]),
            st: &mut st,
            types: &types,
            thorough: a.thorough,
            trace: vec![],
        };
        c.r.big = big(&a.prop, c.thorough, &mut c.r.clone());
        let r = catch_unwind(AssertUnwindSafe(|| run_case(&a.prop, &mut c, &ctors, &evo)));
        let trace = std::mem::take(&mut c.trace);
        done += 1;
        let msg = match r {
            Ok(Ok(())) => None,
            Ok(Err(m)) => Some(m),
            Err(_) => Some(PANIC.with(|p| format!("panic: {}", p.borrow()))),
        };
        if a.verbose {
            trace.iter().for_each(|t| println!("  {}", t));
        }
        if let Some(m) = msg {
            if m.contains("HARNESS") {
                println!("case {}: {}", id, m);
                trace.iter().for_each(|t| println!("  {}", t));
                code = 2;
            } else {
                code = 1;
            }
            failure = Some((id, m, trace));
            break;
        }
        if a.case.is_some() {
            break;
        }
        id += a.of;
    }
    CURRENT.store(0, Ordering::SeqCst);
    let mut o = String::new();
    write!(o, "{{\"cases\": {}, \"evaluations\": {}, \"wall\": {:.3}", done, st.evaluations, begin.elapsed().as_secs_f64()).unwrap();
    write!(o, ", \"counters\": {{{}}}", st.counters.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect::<Vec<_>>().join(", ")).unwrap();
    write!(o, ", \"known\": {{{}}}", st.known.iter().map(|(k, v)| format!("{}: {}", json(k), json(v))).collect::<Vec<_>>().join(", ")).unwrap();
    write!(o, ", \"samples\": [{}]", st.samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ")).unwrap();
    if let Some((id, m, t)) = &failure {
        write!(o, ", \"failure\": {{\"case\": {}, \"message\": {}, \"trace\": [{}]}}", id, json(m), t.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ")).unwrap();
    }
    o.push_str("}\n");
    if a.out.is_empty() {
        println!("{}", o);
    } else {
        std::fs::write(&a.out, o).expect("HARNESS: output");
        // Fingerprints of distinct cases, for the union over all workers.
        let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{}.fp", a.out)).expect("HARNESS: output"));
        for x in &st.distinct {
            f.write_all(&x.to_le_bytes()).expect("HARNESS: output");
        }
    }
    code
}
