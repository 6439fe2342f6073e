//! Runs the real gift crate under monitors, one property at a time.
//!
//! `monitor PROP --seed N --cases N --threads N --out FILE --replay DIR
//!   [--first IDX] [--time SEC] [--min N] [--tiny] [--bin PATH] [--scratch DIR]`
//!
//! Exit status: 0 nothing was observed, 1 violation (a replay file is written),
//! 2 the harness is at fault, 3 a case used more processor time than allowed.
mod checks;
mod checks2;
mod checks3;
mod r#gen;
mod io;
mod obs;
mod refgif;
mod util;

use checks::*;
use checks2::*;
use checks3::*;
use std::fmt::Write as _;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};
use util::*;

#[global_allocator]
static ALLOC: MonAlloc = MonAlloc;

/// Processor seconds one case may use
const CASE_CPU: f64 = 60.0;

#[derive(Clone, Default)]
struct Args {
    prop: String,
    seed: u64,
    first: u64,
    cases: u64,
    min: u64,
    threads: usize,
    time: f64,
    out: String,
    replay: String,
    tiny: bool,
    bin: String,
    scratch: String,
}

fn args() -> Args {
    let mut a = Args { cases: 100, threads: 8, time: 1e9, ..Args::default() };
    let mut it = std::env::args().skip(1);
    a.prop = it.next().expect("property");
    while let Some(k) = it.next() {
        if k == "--tiny" {
            a.tiny = true;
            continue;
        }
        let v = it.next().expect("value");
        match k.as_str() {
            "--seed" => a.seed = v.parse().expect("seed"),
            "--first" => a.first = v.parse().expect("first"),
            "--cases" => a.cases = v.parse().expect("cases"),
            "--min" => a.min = v.parse().expect("min"),
            "--threads" => a.threads = v.parse().expect("threads"),
            "--time" => a.time = v.parse().expect("time"),
            "--out" => a.out = v,
            "--replay" => a.replay = v,
            "--bin" => a.bin = v,
            "--scratch" => a.scratch = v,
            _ => panic!("unknown option {k}"),
        }
    }
    a
}

type Case = fn(&mut Ctx, &mut Rng, u64) -> Res;

fn find(prop: &str) -> Case {
    let t: [(&str, Case); 23] = [
        ("C01", c01),
        ("C02", c02),
        ("C03", c03),
        ("C04", c04),
        ("C05", c05),
        ("C06", c06),
        ("C07", c07),
        ("C08", c08),
        ("C09", c09),
        ("C10", c10),
        ("C11", c11),
        ("C12", c12),
        ("C13", c13),
        ("C14", c14),
        ("C15", c15),
        ("C16", c16),
        ("C17", c17),
        ("C18", c18),
        ("C19", c19),
        ("C20", c20),
        ("C21", c21),
        ("C22", c22),
        ("C23", c23),
    ];
    t.iter().find(|(n, _)| *n == prop).expect("known property").1
}

fn case_rng(a: &Args, idx: u64) -> Rng {
    Rng::new(mix(a.seed) ^ mix(idx.wrapping_mul(0x5851_F42D)) ^ hash_bytes(a.prop.as_bytes()))
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn merge(into: &mut Ctx, c: Ctx) {
    for (k, v) in c.stats {
        into.add(&k, v);
    }
    for (k, v) in c.maxes {
        into.max(&k, v);
    }
    into.distinct.extend(c.distinct);
    for s in c.samples {
        if into.samples.len() < 6 {
            into.samples.push(s);
        }
    }
    for (k, (n, w)) in c.known {
        let e = into.known.entry(k).or_insert((0, w));
        e.0 += n;
    }
    into.digest ^= c.digest;
}

fn write_out(a: &Args, ctx: &Ctx, done: u64, wall: f64) {
    let mut s = String::from("{");
    write!(s, "\"cases\":{done},\"distinct\":{},\"wall_s\":{wall:.2}", ctx.distinct.len()).unwrap();
    write!(s, ",\"digest\":\"{:016x}\"", ctx.digest).unwrap();
    let obj = |m: &std::collections::BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect();
        format!("{{{}}}", v.join(","))
    };
    write!(s, ",\"stats\":{},\"maxes\":{}", obj(&ctx.stats), obj(&ctx.maxes)).unwrap();
    let v: Vec<String> = ctx.samples.iter().map(|x| jstr(x)).collect();
    write!(s, ",\"samples\":[{}]", v.join(",")).unwrap();
    let v: Vec<String> = ctx
        .known
        .iter()
        .map(|(k, (n, w))| format!("{}:{{\"count\":{n},\"example\":{}}}", jstr(k), jstr(w)))
        .collect();
    write!(s, ",\"known\":{{{}}}}}", v.join(",")).unwrap();
    if a.out.is_empty() {
        println!("{s}");
    } else {
        std::fs::write(&a.out, s).expect("write statistics");
    }
}

fn write_replay(a: &Args, idx: u64, msg: &str, files: &[(String, Vec<u8>)]) -> String {
    let profile = if cfg!(debug_assertions) { "checked" } else { "release" };
    let base = format!("{}/{}-{}-{}-{idx}", a.replay, a.prop, profile, a.seed);
    let mut names = vec![];
    if !a.replay.is_empty() {
        let _ = std::fs::create_dir_all(&a.replay);
        for (n, b) in files {
            let p = format!("{base}-{n}");
            if std::fs::write(&p, b).is_ok() {
                names.push(p);
            }
        }
        let v: Vec<String> = names.iter().map(|x| jstr(x)).collect();
        let s = format!(
            "{{\"property\":{},\"seed\":{},\"index\":{idx},\"profile\":{},\"tiny\":{},\
             \"message\":{},\"files\":[{}]}}\n",
            jstr(&a.prop),
            a.seed,
            jstr(profile),
            a.tiny,
            jstr(msg),
            v.join(",")
        );
        let _ = std::fs::write(format!("{base}.json"), s);
    }
    format!("{base}.json")
}

/// One case; a panic outside the guarded regions is the harness' own
fn one(f: Case, a: &Args, ctx: &mut Ctx, idx: u64) -> Res {
    let mut rng = case_rng(a, idx);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(ctx, &mut rng, idx))) {
        Ok(r) => r,
        Err(_) => Err(Fail::Harness("the harness panicked".into())),
    }
}

fn new_ctx(a: &Args) -> Ctx {
    Ctx { tiny: a.tiny, bin: a.bin.clone(), scratch: a.scratch.clone(), ..Ctx::default() }
}

fn report(a: &Args, fails: &[(u64, Fail)]) -> i32 {
    let mut code = 0;
    for (idx, f) in fails {
        match f {
            Fail::Violation(m, files) => {
                let p = write_replay(a, *idx, m, files);
                println!("FAIL case={idx} replay={p}\n{m}");
                return 1;
            }
            Fail::Harness(m) => {
                println!("HARNESS case={idx} {m}");
                code = 2;
            }
        }
    }
    code
}

fn single(a: &Args, f: Case) -> i32 {
    let start = Instant::now();
    let mut ctx = new_ctx(a);
    let mut fails = vec![];
    let mut done = 0;
    for idx in a.first..a.first + a.cases {
        if start.elapsed().as_secs_f64() > a.time && done >= a.min {
            break;
        }
        if let Err(e) = one(f, a, &mut ctx, idx) {
            fails.push((idx, e));
            break;
        }
        done += 1;
    }
    write_out(a, &ctx, done, start.elapsed().as_secs_f64());
    report(a, &fails)
}

struct Slot {
    tid: AtomicU64,
    idx: AtomicU64,
}

/// Processor time of a thread of this process, in clock ticks
fn ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let s = &s[s.rfind(')')? + 2..];
    let v: Vec<&str> = s.split(' ').collect();
    Some(v.get(11)?.parse::<u64>().ok()? + v.get(12)?.parse::<u64>().ok()?)
}

fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name()?.to_str()?.parse().ok())
        .unwrap_or(0)
}

fn main() {
    let a = args();
    install_panic_monitor();
    install_log_sink();
    let f = find(&a.prop);
    if a.tiny {
        std::process::exit(single(&a, f));
    }
    let start = Instant::now();
    let next = AtomicU64::new(a.first);
    let end = a.first + a.cases;
    let stop = AtomicBool::new(false);
    let done = AtomicU64::new(0);
    let running = AtomicU64::new(a.threads as u64);
    let fails: Mutex<Vec<(u64, Fail)>> = Mutex::new(vec![]);
    let total: Mutex<Ctx> = Mutex::new(new_ctx(&a));
    let slots: Vec<Slot> = (0..a.threads)
        .map(|_| Slot { tid: AtomicU64::new(0), idx: AtomicU64::new(u64::MAX) })
        .collect();
    std::thread::scope(|s| {
        for (t, slot) in slots.iter().enumerate() {
            let (a, next, stop, done, running, fails, total) =
                (&a, &next, &stop, &done, &running, &fails, &total);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    use std::io::{Seek, SeekFrom, Write};
                    slot.tid.store(my_tid(), SeqCst);
                    let mut ctx = new_ctx(a);
                    // which case runs is kept in a file, for when the process dies
                    let mut slotf = if a.replay.is_empty() {
                        None
                    } else {
                        let _ = std::fs::create_dir_all(&a.replay);
                        std::fs::File::create(format!("{}/slot-{}-{t}", a.replay, a.prop)).ok()
                    };
                    loop {
                        let idx = next.fetch_add(1, SeqCst);
                        if idx >= end || stop.load(SeqCst) {
                            break;
                        }
                        if start.elapsed().as_secs_f64() > a.time && done.load(SeqCst) >= a.min {
                            break;
                        }
                        slot.idx.store(idx, SeqCst);
                        if let Some(f) = &mut slotf {
                            let _ = f.seek(SeekFrom::Start(0));
                            let _ = f.write_all(format!("{idx:020}\n").as_bytes());
                        }
                        let c0 = cpu_ns();
                        let r = one(f, a, &mut ctx, idx);
                        ctx.max("case_processor_ms", (cpu_ns() - c0) / 1_000_000);
                        slot.idx.store(u64::MAX, SeqCst);
                        match r {
                            Ok(()) => {
                                done.fetch_add(1, SeqCst);
                            }
                            Err(e) => {
                                fails.lock().unwrap().push((idx, e));
                                stop.store(true, SeqCst);
                            }
                        }
                    }
                    if let Some(f) = &mut slotf {
                        let _ = f.set_len(0);
                    }
                    merge(&mut total.lock().unwrap(), ctx);
                    running.fetch_sub(1, SeqCst);
                })
                .expect("thread");
        }
        // watchdog: processor time of the case each thread is in
        let mut seen: Vec<(u64, u64)> = vec![(u64::MAX, 0); a.threads];
        while running.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            for (i, slot) in slots.iter().enumerate() {
                let idx = slot.idx.load(SeqCst);
                let Some(t) = ticks(slot.tid.load(SeqCst)) else { continue };
                if idx == u64::MAX || seen[i].0 != idx {
                    seen[i] = (idx, t);
                } else if (t - seen[i].1) as f64 / 100.0 > CASE_CPU {
                    println!("HANG case={idx} used more than {CASE_CPU} s of processor time");
                    let m = format!("case used more than {CASE_CPU} s of processor time");
                    let p = write_replay(&a, idx, &m, &[]);
                    println!("replay={p}");
                    std::process::exit(3);
                }
            }
        }
    });
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|(i, _)| *i);
    write_out(
        &a,
        &total.into_inner().unwrap(),
        done.load(SeqCst),
        start.elapsed().as_secs_f64(),
    );
    std::process::exit(report(&a, &fails));
}
