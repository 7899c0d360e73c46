//! Undefined behaviour and data races (C25): the workload is run under Miri, ThreadSanitizer and
//! AddressSanitizer builds of the harness and of the tree under test.
use crate::camp::*;
use crate::camps::guard;
use crate::camps4::{run_cmd_t, Ran};
use crate::exec::*;
use crate::gen::*;
use crate::mon::*;
use crate::ops::*;
use crate::p;
use crate::rng::*;
use crate::targets::*;
use faerie::{Artifact, BinaryFormat};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::Instant;

// ------------------------------------------------------------------ the workload

struct Cnt {
    cases: u64,
    calls: u64,
    emissions: u64,
    bytes: u64,
    queries: u64,
    clones: u64,
    writes: u64,
    inter: std::collections::HashSet<u64>,
}
fn workload(r: &mut Rng, i: u64, small: bool) -> Hist {
    let mut h = match i % 4 {
        0 | 1 => {
            let mx = Mix {
                names: *r.pick(&[1, 3, 6, 12]),
                ops: if small { *r.pick(&[6, 15, 30]) } else { *r.pick(&[10, 40, 120]) },
                w: [6, 3, 2, 2, 4, 2, 2, 4, 3],
                hostile: *r.pick(&[10, 40, 70]),
                complete: 70,
            };
            let t = *r.pick(&[X64, X64_MAC]);
            hostile(r, &mx, t)
        }
        _ => {
            let mut sh = Shape { mach: r.pct(50), budget: if small { 1200 } else { 60_000 }, ..Shape::default() };
            if small {
                sh.max_defs = 10;
                sh.max_links = 14;
            }
            if r.pct(30) {
                sh.sect_pct = 45;
            }
            let t = if sh.mach {
                X64_MAC
            } else if r.pct(25) {
                let t = r.pick(TARGETS);
                sh.is64 = t.is64.unwrap_or(true);
                t.triple
            } else {
                X64
            };
            complete(r, &sh, t)
        }
    };
    let cap = if small { 300 } else { 100_000 };
    for o in &mut h.ops {
        match o {
            Op::Define(_, b) | Op::DeclareWith(_, _, b) | Op::DefineSyms(_, Pay::Blob(b), _) => b.truncate(cap),
            Op::DefineZero(_, z) if small => *z = (*z).min(1 << 20),
            _ => {}
        }
    }
    h
}
fn emit_all(a: &Artifact, k: usize, c: &mut Cnt) {
    let f = [BinaryFormat::Elf, BinaryFormat::Macho, BinaryFormat::Coff][k % 3];
    let r = catch_unwind(AssertUnwindSafe(|| if k % 7 == 6 { a.emit() } else { a.emit_as(f) }));
    c.emissions += 1;
    match r {
        Ok(Ok(b)) => {
            c.bytes += b.len() as u64;
            // read every byte: uninitialised output must not go unnoticed
            let x = hash_bytes(&b);
            std::hint::black_box(if x == 0 { 1 } else { 2 });
        }
        Ok(Err(e)) => {
            std::hint::black_box(format!("{} {:?}", e, e).len());
        }
        Err(_) => {}
    }
}
fn query(a: &Artifact, c: &mut Cnt) {
    let mut n = 0;
    for (s, k) in a.imports() {
        n += s.len() + format!("{:?}", k).len();
    }
    for s in a.undefined_symbols() {
        n += s.len();
    }
    std::hint::black_box(n);
    c.queries += 1;
}
fn write(a: &Artifact, dir: &str, tag: u64, c: &mut Cnt) {
    let p = format!("{}/w{}", dir, tag);
    if let Ok(f) = std::fs::File::create(&p) {
        let _ = catch_unwind(AssertUnwindSafe(|| a.write(f)));
        c.writes += 1;
    }
    if let Ok(f) = std::fs::File::create(&p) {
        let _ = catch_unwind(AssertUnwindSafe(|| a.write_as(f, BinaryFormat::Macho)));
    }
    let _ = std::fs::remove_file(&p);
}
fn single(h: &Hist, r: &mut Rng, dir: &str, c: &mut Cnt) {
    let mut a = h.artifact();
    let early = r.pct(30);
    for (i, o) in h.ops.iter().enumerate() {
        let x = o.run(&mut a);
        std::hint::black_box(&x);
        c.calls += 1;
        if i % 11 == 3 {
            query(&a, c);
        }
        if early && i % 9 == 4 {
            emit_all(&a, r.below(7), c);
        }
        if i % 17 == 9 {
            // go on with a clone, the original gone
            let b = a.clone();
            drop(a);
            a = b;
            c.clones += 1;
        }
    }
    query(&a, c);
    emit_all(&a, 0, c);
    emit_all(&a, 1, c);
    let b = a.clone();
    let d = b.clone();
    c.clones += 2;
    drop(a);
    emit_all(&b, 1, c);
    drop(b);
    let mut d = d;
    let _ = d.declare("after all", faerie::Decl::function().global());
    let _ = d.define("after all", vec![0xc3]);
    emit_all(&d, 0, c);
    query(&d, c);
    write(&d, dir, 0, c);
    std::hint::black_box(format!("{:?}", d).len());
    c.cases += 1;
}
/// Several threads use one artifact (and build their own) at once.
fn shared(h: &Hist, seed: u64, dir: &str, small: bool, c: &mut Cnt) {
    let mut a = h.artifact();
    for o in &h.ops {
        o.run(&mut a);
        c.calls += 1;
    }
    if !shareable() {
        return;
    }
    let n = if small { 3 } else { 8 };
    let per = if small { 2 } else { 6 };
    let gate = std::sync::Barrier::new(n);
    // relaxed tickets only: they order nothing between the threads
    let ticket = AtomicU64::new(0);
    let sh = Shared(&a);
    let res: Vec<(Cnt, Vec<u64>)> = std::thread::scope(|s| {
        let mut v = vec![];
        for t in 0..n as u64 {
            let (sh, gate, ticket) = (&sh, &gate, &ticket);
            v.push(s.spawn(move || {
                let a = sh.get();
                let mut r = Rng::new(seed ^ mix(t + 5));
                let mut c = zero();
                let mut mine = vec![];
                gate.wait();
                for _ in 0..per {
                    mine.push(ticket.fetch_add(1, Relaxed));
                    match r.below(9) {
                        0 => query(a, &mut c),
                        1 => {
                            let b = a.clone();
                            c.clones += 1;
                            emit_all(&b, r.below(7), &mut c);
                        }
                        2 => {
                            let mut b = a.clone();
                            c.clones += 1;
                            let _ = b.declare("extra", faerie::Decl::data());
                            let _ = b.define("extra", vec![1; 9]);
                            query(&b, &mut c);
                            emit_all(&b, 1, &mut c);
                        }
                        3 => write(a, dir, t + 1, &mut c),
                        4 => {
                            // an artifact of one's own
                            let mut b = h.artifact();
                            for o in &h.ops {
                                o.run(&mut b);
                                c.calls += 1;
                            }
                            emit_all(&b, r.below(2), &mut c);
                        }
                        5 => {
                            std::hint::black_box(format!("{:?}", a).len());
                        }
                        _ => emit_all(a, r.below(7), &mut c),
                    }
                }
                (c, mine)
            }));
        }
        v.into_iter().map(|t| t.join().unwrap_or_else(|_| (zero(), vec![]))).collect()
    });
    let mut order = vec![];
    for (t, (x, mine)) in res.iter().enumerate() {
        c.calls += x.calls;
        c.emissions += x.emissions;
        c.bytes += x.bytes;
        c.queries += x.queries;
        c.clones += x.clones;
        c.writes += x.writes;
        order.extend(mine.iter().map(|m| (*m, t as u8)));
    }
    order.sort();
    c.inter.insert(hash_bytes(&order.iter().map(|x| x.1).collect::<Vec<_>>()));
    // hand the artifact over, and clones of it, with the original dropped elsewhere
    let b = Moved(a.clone());
    let a = Moved(a);
    let t = std::thread::spawn(move || {
        let mut c = zero();
        let a = a.take();
        emit_all(&a, 0, &mut c);
        drop(a);
        c.emissions
    });
    emit_all(&b.take(), 1, c);
    c.emissions += t.join().unwrap_or(0);
    c.cases += 1;
}
fn zero() -> Cnt {
    Cnt { cases: 0, calls: 0, emissions: 0, bytes: 0, queries: 0, clones: 0, writes: 0, inter: Default::default() }
}
/// `fmon --sani single|threads|both SEED CASES SECONDS small|large DIR`
pub fn worker(a: &[String]) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let (mode, seed, cases, secs, small, dir) = (
        a[0].as_str(),
        a[1].parse::<u64>().unwrap(),
        a[2].parse::<u64>().unwrap(),
        a[3].parse::<u64>().unwrap(),
        a[4] == "small",
        &a[5],
    );
    let t0 = Instant::now();
    let mut c = zero();
    for i in 0..cases {
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        let s = mix(seed ^ mix(i));
        let mut r = Rng::new(s);
        let h = workload(&mut r, i, small);
        if mode == "single" || (mode == "both" && i % 2 == 0) {
            single(&h, &mut r, dir, &mut c);
        } else {
            shared(&h, s, dir, small, &mut c);
        }
    }
    println!(
        "SANI cases {} calls {} emissions {} emitted-bytes {} queries {} clones {} writes {} interleavings {}",
        c.cases,
        c.calls,
        c.emissions,
        c.bytes,
        c.queries,
        c.clones,
        c.writes,
        c.inter.len()
    );
    0
}

// ------------------------------------------------------------------ the instruments

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tool {
    Asan,
    Tsan,
    Miri,
}
impl Tool {
    fn name(self) -> &'static str {
        match self {
            Tool::Asan => "asan",
            Tool::Tsan => "tsan",
            Tool::Miri => "miri",
        }
    }
    fn what(self) -> &'static str {
        match self {
            Tool::Asan => "AddressSanitizer",
            Tool::Tsan => "ThreadSanitizer",
            Tool::Miri => "Miri",
        }
    }
}
fn base() -> String {
    std::env::var("FMON_VERIF").unwrap_or_else(|_| "/verif".into())
}
fn target_dir(t: Tool) -> String {
    format!("{}/harness/target/{}", base(), t.name())
}
fn bin(t: Tool) -> String {
    format!("{}/x86_64-unknown-linux-gnu/sani/fmon", target_dir(t))
}
fn cargo(args: &[&str], t: Tool) -> Command {
    let mut c = Command::new("cargo");
    c.args(args)
        .current_dir(format!("{}/harness", base()))
        .env("RUSTUP_TOOLCHAIN", "nightly")
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_TARGET_DIR", target_dir(t))
        .env_remove("RUSTFLAGS");
    match t {
        Tool::Asan => {
            c.env("RUSTFLAGS", "-Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer");
        }
        Tool::Tsan => {
            c.env("RUSTFLAGS", "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer");
        }
        Tool::Miri => {}
    }
    c
}
fn build(t: Tool) -> Ran {
    // cargo goes by mtimes; make it look at the tree under test again whatever they say
    let fp = format!("{}/x86_64-unknown-linux-gnu/sani/.fingerprint", target_dir(t));
    for d in [fp, format!("{}/miri/x86_64-unknown-linux-gnu/debug/.fingerprint", target_dir(t))] {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            if e.file_name().to_string_lossy().starts_with("faerie-") {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
    let tri = "x86_64-unknown-linux-gnu";
    match t {
        Tool::Asan => run_cmd_t(cargo(&["build", "--offline", "--quiet", "--profile", "sani", "--target", tri], t), 3600, false, 800),
        Tool::Tsan => run_cmd_t(cargo(&["build", "--offline", "--quiet", "--profile", "sani", "--target", tri, "-Zbuild-std"], t), 3600, false, 800),
        Tool::Miri => {
            let mut c = cargo(&["miri", "run", "--offline", "--quiet", "--", "--sani", "single", "0", "0", "0", "small", "/"], t);
            c.env("MIRIFLAGS", MIRI_FLAGS);
            run_cmd_t(c, 3600, false, 800)
        }
    }
}
const MIRI_FLAGS: &str = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-backtrace=0";

/// Did the instrument report something?
fn verdict(t: Tool, r: &Ran) -> Result<Option<String>, String> {
    let head = |pat: &str| -> Option<String> {
        let i = r.err.find(pat)?;
        Some(r.err[i..].lines().take(14).collect::<Vec<_>>().join(" / "))
    };
    let hit = match t {
        Tool::Asan => head("ERROR: AddressSanitizer: ").filter(|s| !s.contains("AddressSanitizer: allocation-size-too-big") && !s.contains("out-of-memory")),
        Tool::Tsan => head("WARNING: ThreadSanitizer: ").or_else(|| head("ERROR: ThreadSanitizer: ")),
        Tool::Miri => head("error: Undefined Behavior").or_else(|| head("Undefined Behavior:")),
    };
    if let Some(h) = hit {
        return Ok(Some(h));
    }
    match (r.code, r.signal) {
        (Some(0), _) => Ok(None),
        // the process died of a memory fault: only undefined behaviour does that
        (_, Some(s)) if s == libc::SIGSEGV || s == libc::SIGBUS || s == libc::SIGILL => Ok(Some(format!("the process dies of signal {}", s))),
        _ => Err(format!("{:?} {:?} {}", r.code, r.signal, trunc(&r.err, 600))),
    }
}

pub fn sanitizers(c: &mut Camp) {
    let tmp = crate::camps::scratch();
    let dir = tmp.path.clone();
    let tools = [Tool::Asan, Tool::Tsan, Tool::Miri];
    let wanted: Vec<Tool> = tools
        .into_iter()
        .filter(|t| c.replay.as_ref().map_or(true, |x| x.0.starts_with(t.name())))
        .filter(|t| c.only.as_ref().map_or(true, |x| x.0.starts_with(t.name())))
        .collect();
    let t0 = Instant::now();
    let built: Vec<(Tool, Ran)> = std::thread::scope(|s| {
        let v: Vec<_> = wanted.iter().map(|t| (*t, s.spawn(move || build(*t)))).collect();
        v.into_iter().map(|(t, h)| (t, h.join().unwrap())).collect()
    });
    c.st.add("seconds spent building instrumented binaries", t0.elapsed().as_secs());
    let mut ok = vec![];
    for (t, r) in built {
        match (t, verdict(t, &r)) {
            (_, Ok(None)) => ok.push(t),
            (Tool::Miri, Ok(Some(e))) => {
                c.violate("miri-start", "sani.miri", e, "");
                return;
            }
            (_, e) => {
                println!("# {} is not usable here: {:?}", t.what(), e);
                c.inconclusive.push(format!("{} is not usable here: {:?}", t.what(), e));
            }
        }
    }
    let dir = &dir;
    let go = |t: Tool, mode: &str, seed: u64, cases: u64, secs: u64, small: bool, extra: &str, st: &mut Stats| -> Log {
        let mut l = Log::default();
        let d = format!("{}/{:016x}", dir, seed ^ hash_bytes(mode.as_bytes()) ^ t as u64);
        std::fs::create_dir_all(&d).expect("scratch");
        let args: Vec<String> = vec![
            "--sani".into(),
            mode.into(),
            seed.to_string(),
            cases.to_string(),
            secs.to_string(),
            if small { "small" } else { "large" }.into(),
            d.clone(),
        ];
        let mut cmd = match t {
            Tool::Miri => {
                let mut c = cargo(&["miri", "run", "--offline", "--quiet", "--"], t);
                c.env("MIRIFLAGS", format!("{} -Zmiri-seed={} {}", MIRI_FLAGS, seed as u32, extra));
                c
            }
            t => Command::new(bin(t)),
        };
        cmd.args(&args)
            .env("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1")
            .env("TSAN_OPTIONS", "halt_on_error=1:report_thread_leaks=0:second_deadlock_stack=1");
        let r = run_cmd_t(cmd, 1 << 20, false, secs + 400);
        let _ = std::fs::remove_dir_all(&d);
        match verdict(t, &r) {
            Ok(Some(e)) => l.fail(p!(25), "sani.report", format!("{} ({} workload, seed {}): {}", t.what(), mode, seed, e)),
            Ok(None) => {
                let out = String::from_utf8_lossy(&r.out).to_string();
                let w: Vec<&str> = out.lines().find(|x| x.starts_with("SANI ")).unwrap_or("").split_whitespace().skip(1).collect();
                for p in w.chunks(2) {
                    if let [k, v] = p {
                        st.add(&format!("{} {} {}", t.name(), mode, k), v.parse().unwrap_or(0));
                    }
                }
                l.saw("instrumented runs", 1);
            }
            Err(e) if r.timeout => st.add(&format!("{} runs without an answer ({})", t.name(), trunc(&e, 80)), 1),
            Err(e) => {
                eprintln!("# {}: {}", t.what(), e);
                st.add(&format!("{} runs without an answer", t.name()), 1)
            }
        }
        st.case(seed, l.judged.contains_key("instrumented runs"));
        l
    };
    let go = &go;
    let thorough = c.thorough;
    let hist = |_: &mut Rng, _: u64| Hist { triple: X64.into(), name: "t.o".into(), lib: false, ops: vec![] };
    let full = c.threads;
    if ok.contains(&Tool::Miri) {
        // single-threaded semantics under both aliasing models' common ground
        let secs = if thorough { 300 } else { 35 };
        let n = c.n(8, 64);
        c.cases(
            "miri-single",
            "every public call in random legal and illegal histories, clones whose originals are dropped, emission in both formats, writes and formatting, interpreted by Miri (uninitialised reads, bounds, lifetimes, aliasing, validity); one evaluation is one interpreted run of many histories",
            n,
            &hist,
            &|_, seed, st| guard(|| go(Tool::Miri, "single", seed, 1 << 30, secs, true, "", st)),
        );
        let n = c.n(8, 64);
        c.cases(
            "miri-threads",
            "three threads emit, clone, query, write and format one artifact and build their own, under Miri's randomised scheduler with its race detector",
            n,
            &hist,
            &|_, seed, st| {
                let rate = ["0.01", "0.05", "0.2", "0.5"][(seed % 4) as usize];
                guard(|| go(Tool::Miri, "threads", seed, 1 << 30, secs, true, &format!("-Zmiri-preemption-rate={}", rate), st))
            },
        );
    }
    if ok.contains(&Tool::Tsan) {
        c.threads = (full / 4).max(1);
        let secs = if thorough { 300 } else { 20 };
        let n = c.n(2, 16);
        c.cases(
            "tsan-threads",
            "eight threads emit, clone, query, write and format one artifact and build their own, under ThreadSanitizer with an instrumented standard library",
            n,
            &hist,
            &|_, seed, st| guard(|| go(Tool::Tsan, "threads", seed, 1 << 30, secs, false, "", st)),
        );
        c.threads = full;
    }
    if ok.contains(&Tool::Asan) {
        let secs = if thorough { 240 } else { 20 };
        let n = c.n(8, 64);
        c.cases(
            "asan-both",
            "the single-threaded and the threaded workload with full-size payloads under AddressSanitizer",
            n,
            &hist,
            &|_, seed, st| guard(|| go(Tool::Asan, "both", seed, 1 << 30, secs, false, "", st)),
        );
    }
}
