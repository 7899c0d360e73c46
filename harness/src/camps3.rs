//! Campaigns for determinism (C21), sinks (C22), formats and builders (C27), declarations (C28).
use crate::camp::*;
use crate::camps::*;
use crate::camps2::bulk;
use crate::exec::*;
use crate::gen::*;
use crate::mon::*;
use crate::ops::*;
use crate::p;
use crate::rng::*;
use crate::targets::*;
use faerie::{Artifact, ArtifactBuilder, BinaryFormat};
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd, RawFd};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

const FMTS: [BinaryFormat; 2] = [BinaryFormat::Elf, BinaryFormat::Macho];

/// A logger that formats every record and counts what it saw.
pub struct CountLog;
pub static LOGGED: AtomicU64 = AtomicU64::new(0);
pub static LOG_BYTES: AtomicU64 = AtomicU64::new(0);
struct Null(u64);
impl std::fmt::Write for Null {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
impl log::Log for CountLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let mut n = Null(0);
        let _ = std::fmt::write(&mut n, *r.args());
        LOGGED.fetch_add(1, SeqCst);
        LOG_BYTES.fetch_add(n.0, SeqCst);
    }
    fn flush(&self) {}
}
static COUNT_LOG: CountLog = CountLog;
const LEVELS: [log::LevelFilter; 6] = [
    log::LevelFilter::Off,
    log::LevelFilter::Error,
    log::LevelFilter::Warn,
    log::LevelFilter::Info,
    log::LevelFilter::Debug,
    log::LevelFilter::Trace,
];

fn build(h: &Hist) -> Artifact {
    let mut a = h.artifact();
    for o in &h.ops {
        o.run(&mut a);
    }
    a
}
/// What a caller gets from an emission: bytes, an error or a panic.
#[derive(Clone, PartialEq, Eq)]
pub enum Em {
    Bytes(Vec<u8>),
    Err(String),
    Panic(String),
}
impl Em {
    fn short(&self) -> String {
        match self {
            Em::Bytes(b) => format!("{} bytes (hash {:016x})", b.len(), hash_bytes(b)),
            Em::Err(e) => format!("error {}", trunc(e, 200)),
            Em::Panic(e) => format!("panic {}", trunc(e, 200)),
        }
    }
    fn diff(&self, o: &Em) -> String {
        match (self, o) {
            (Em::Bytes(a), Em::Bytes(b)) => format!(
                "{} and {} bytes, first difference at {:?}",
                a.len(),
                b.len(),
                a.iter().zip(b.iter()).position(|(x, y)| x != y)
            ),
            _ => format!("{} and {}", self.short(), o.short()),
        }
    }
}
pub fn emit(a: &Artifact, f: Option<BinaryFormat>) -> Em {
    match catch_unwind(AssertUnwindSafe(|| match f {
        None => a.emit(),
        Some(f) => a.emit_as(f),
    })) {
        Ok(Ok(b)) => Em::Bytes(b),
        Ok(Err(e)) => Em::Err(format!("{:?}", out_err(e))),
        Err(p) => Em::Panic(panic_text(p)),
    }
}

// ------------------------------------------------------------------ C21

pub fn determinism(c: &mut Camp) {
    let _ = log::set_logger(&COUNT_LOG);
    let n = c.n(8_000, 250_000);
    c.cases(
        "repeats",
        "the bytes of one emission are compared with those of repeated emissions, of clones, of rebuilds with fresh hash seeds, of emissions after the other format and after queries, with a formatting logger at every level (toggled by all workers at random), of histories with emissions attempted in the middle, and of artifacts driven further after a clone; non-trivial: at least one object was emitted and compared",
        n,
        &|r, i| det_hist(r, i),
        &|h, seed, st| guard(|| det_case(h, seed, st)),
    );
    let n = c.n(400, 12_000);
    let threads = c.threads;
    c.threads = 2;
    c.cases(
        "threads",
        "one shared artifact is emitted, cloned, queried and written from eight threads at once, both formats mixed, with the logger at changing levels; every result must be the bytes of the single-threaded emission",
        n,
        &|r, i| det_hist(r, i),
        &|h, seed, st| guard(|| thread_case(h, seed, st)),
    );
    c.threads = threads;
    if !c.stop() && c.only.is_none() && c.replay.is_none() {
        processes(c);
    }
    c.st.add("log records formatted", LOGGED.load(SeqCst));
    c.st.add("log bytes formatted", LOG_BYTES.load(SeqCst));
    log::set_max_level(log::LevelFilter::Off);
}
fn det_hist(r: &mut Rng, i: u64) -> Hist {
    if i % 5 == 4 {
        let mx = Mix { names: *r.pick(&[2, 6, 12]), ops: 40, w: [6, 3, 2, 2, 4, 2, 2, 4, 3], hostile: 40, complete: 90 };
        let t = hist_triple(r);
        return hostile(r, &mx, t);
    }
    let mut sh = Shape { mach: r.pct(60), budget: 12_000, ..Shape::default() };
    if i % 50 == 7 {
        sh.max_defs = 120;
        sh.max_links = 200;
    }
    if r.pct(30) {
        sh.sect_pct = 45;
    }
    complete(r, &sh, if sh.mach { X64_MAC } else { X64 })
}
/// The same calls with something about them changed, and whether both objects must differ.
fn sibling(h: &Hist, r: &mut Rng) -> (Hist, bool) {
    let mut s = h.clone();
    let how = r.below(4);
    let mut differs = false;
    // a name defined by the first call that may do so has these contents for certain
    let mut defined: std::collections::HashSet<String> = Default::default();
    let mut art = h.artifact();
    for o in s.ops.iter_mut() {
        let ok = matches!(o.run(&mut art), Out::Ok);
        match (how, o) {
            (0 | 3, Op::Define(n, b) | Op::DeclareWith(n, _, b) | Op::DefineSyms(n, Pay::Blob(b), _)) => {
                if !b.is_empty() && r.pct(60) {
                    let i = r.below(b.len());
                    let old = b[i];
                    b[i] = if old == 0 { 0 } else { 1 + (old % 255) };
                    differs |= ok && b[i] != old && defined.insert(n.clone());
                }
            }
            (1, Op::Link(_, _, at) | Op::LinkWith(_, _, at, _)) => *at ^= 1,
            (2, Op::DefineZero(_, n)) => *n ^= 1,
            (3, Op::LinkWith(_, _, _, Rl::Debug(_, a) | Rl::Raw(_, a))) => *a ^= 2,
            _ => {}
        }
    }
    (s, differs)
}
fn unrelated(r: &mut Rng) -> Artifact {
    let mut a = Artifact::new(std::str::FromStr::from_str(if r.pct(50) { X64 } else { X64_MAC }).unwrap(), "other".into());
    let _ = a.declare_with("q", faerie::Decl::data(), r.bytes(24));
    a
}
fn det_case(h: &Hist, seed: u64, st: &mut Stats) -> Log {
    let mut r = Rng::new(seed ^ 21);
    let mut l = Log::default();
    let set = |r: &mut Rng| log::set_max_level(*r.pick(&LEVELS));
    set(&mut r);
    let a = build(h);
    let imports = imports_of(&a);
    let undef = a.undefined_symbols();
    let want: Vec<Em> = FMTS.iter().map(|f| emit(&a, Some(*f))).collect();
    let bytes = want.iter().any(|w| matches!(w, Em::Bytes(_)));
    let cmp = |l: &mut Log, how: &str, k: usize, got: Em| {
        l.saw("emissions compared", 1);
        // a panic is compared as such; its text may mention addresses of nothing
        let same = match (&got, &want[k]) {
            (Em::Panic(_), Em::Panic(_)) => true,
            (x, y) => x == y,
        };
        if !same {
            l.fail(p!(21), "det.bytes", format!("{:?} emission {}: {}", FMTS[k], how, want[k].diff(&got)));
        }
    };
    // repeats in all orders
    for _ in 0..3 {
        set(&mut r);
        let k = r.below(2);
        cmp(&mut l, "repeated", k, emit(&a, Some(FMTS[k])));
    }
    cmp(&mut l, "repeated", 0, emit(&a, Some(FMTS[0])));
    cmp(&mut l, "repeated", 1, emit(&a, Some(FMTS[1])));
    if let Some(k) = FMTS.iter().position(|f| *f == a.target.binary_format) {
        cmp(&mut l, "by emit()", k, emit(&a, None));
    }
    let _ = emit(&a, Some(BinaryFormat::Coff));
    if r.below(200) == 0 && h.ops.len() < 60 {
        for j in 0..300 {
            let k = r.below(2);
            cmp(&mut l, "over and over", k, emit(&a, Some(FMTS[k])));
            if j % 50 == 0 {
                let _ = imports_of(&a);
            }
        }
    }
    for k in 0..2 {
        let b = a.clone();
        set(&mut r);
        cmp(&mut l, "of a clone", k, emit(&b, Some(FMTS[k])));
        let b2 = b.clone();
        drop(b);
        cmp(&mut l, "of a clone of a dropped clone", k, emit(&b2, Some(FMTS[k])));
    }
    set(&mut r);
    let b = build(h);
    for k in [1, 0] {
        cmp(&mut l, "of a rebuilt artifact", k, emit(&b, Some(FMTS[k])));
    }
    // emissions and clones in the middle of the history
    let mut m = h.artifact();
    let step = *r.pick(&[1, 1, 2, 5]);
    let mut ref_art = h.artifact();
    for (i, o) in h.ops.iter().enumerate() {
        let x = o.run(&mut m);
        let y = o.run(&mut ref_art);
        if x != y {
            l.fail(p!(21), "det.outcome", format!("call {} ({}) gives {:?} after an emission, otherwise {:?}", i, trunc(&o.text(), 200), x, y));
            break;
        }
        if i % step == 0 {
            let f = FMTS[r.below(2)];
            let _ = emit(&m, Some(f));
            let _ = imports_of(&m);
            let _ = m.undefined_symbols();
            if r.pct(10) {
                // continue on a clone
                m = m.clone();
                l.saw("histories continued on a clone", 1);
            }
            l.saw("emissions in mid-history", 1);
        }
    }
    for k in 0..2 {
        cmp(&mut l, "after emissions in mid-history", k, emit(&m, Some(FMTS[k])));
    }
    // an artifact of the same shape must not get in the way, nor be given the other's bytes
    for _ in 0..2 {
        let (h2, differs) = sibling(h, &mut r);
        let b = build(&h2);
        let other = unrelated(&mut r);
        for k in 0..2 {
            let _ = emit(&other, Some(FMTS[k]));
            let s1 = emit(&b, Some(FMTS[k]));
            cmp(&mut l, "after an artifact of the same shape", k, emit(&a, Some(FMTS[k])));
            let s2 = emit(&b, Some(FMTS[k]));
            l.saw("emissions next to an artifact of the same shape", 1);
            let same = match (&s1, &s2) {
                (Em::Panic(_), Em::Panic(_)) => true,
                (x, y) => x == y,
            };
            if !same {
                l.fail(p!(21), "det.sibling", format!("{:?} emission changes after an artifact of the same shape was emitted: {}", FMTS[k], s1.diff(&s2)));
            }
            if let (true, Em::Bytes(x), Em::Bytes(y)) = (differs, &s2, &want[k]) {
                if x == y {
                    l.fail(p!(21), "det.other", format!("{:?} emission gives the bytes of another artifact of the same shape", FMTS[k]));
                }
            }
        }
    }
    if imports_of(&a) != imports || a.undefined_symbols() != undef {
        l.fail(p!(21), "det.changed", "emission changed what the artifact reports".into());
    }
    if imports_of(&m) != imports || m.undefined_symbols() != undef {
        l.fail(p!(21), "det.changed", "emission in mid-history changed what the artifact reports".into());
    }
    // a clone driven further must not affect its origin, nor the other way round
    let mut d = a.clone();
    let _ = d.declare("zz_new", faerie::Decl::function().global());
    let _ = d.define("zz_new", vec![1, 2, 3]);
    let _ = d.import("zz_imp", faerie::ImportKind::Data);
    for k in 0..2 {
        let _ = emit(&d, Some(FMTS[k]));
        cmp(&mut l, "after a clone was changed", k, emit(&a, Some(FMTS[k])));
    }
    st.case(hash_bytes(h.text().as_bytes()), bytes);
    l
}
fn thread_case(h: &Hist, seed: u64, st: &mut Stats) -> Log {
    let mut l = Log::default();
    let mut r = Rng::new(seed ^ 210);
    log::set_max_level(*r.pick(&LEVELS));
    let a = build(h);
    let want: Vec<Em> = FMTS.iter().map(|f| emit(&a, Some(*f))).collect();
    let imports = imports_of(&a);
    let undef = a.undefined_symbols();
    let bytes = want.iter().any(|w| matches!(w, Em::Bytes(_)));
    let bad: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);
    let gate = std::sync::Barrier::new(8);
    let done = AtomicU64::new(0);
    if !crate::exec::shareable() {
        l.fail(p!(21), "det.share", "an artifact cannot be emitted from several threads: the type is not Send and Sync".into());
        return l;
    }
    let sh = crate::exec::Shared(&a);
    std::thread::scope(|s| {
        for t in 0..8u64 {
            let (sh, want, imports, undef, bad, gate, done) = (&sh, &want, &imports, &undef, &bad, &gate, &done);
            s.spawn(move || {
                let a = sh.get();
                let mut r = Rng::new(seed ^ mix(t));
                gate.wait();
                for _ in 0..6 {
                    let k = r.below(2);
                    let got = match r.below(8) {
                        0 => {
                            let c = a.clone();
                            emit(&c, Some(FMTS[k]))
                        }
                        1 => {
                            if imports_of(a) != *imports || a.undefined_symbols() != *undef {
                                bad.lock().unwrap().push("queries differ under concurrent emission".into());
                            }
                            want[k].clone()
                        }
                        2 => {
                            log::set_max_level(*r.pick(&LEVELS));
                            emit(a, Some(FMTS[k]))
                        }
                        3 => match memfd(0) {
                            Some(mut f) => {
                                let res = catch_unwind(AssertUnwindSafe(|| a.write_as(f.try_clone().unwrap(), FMTS[k])));
                                match res {
                                    Ok(Ok(())) => {
                                        let mut v = vec![];
                                        f.seek(SeekFrom::Start(0)).unwrap();
                                        f.read_to_end(&mut v).unwrap();
                                        Em::Bytes(v)
                                    }
                                    Ok(Err(e)) => Em::Err(format!("{:?}", out_err(e))),
                                    Err(p) => Em::Panic(panic_text(p)),
                                }
                            }
                            None => want[k].clone(),
                        },
                        _ => emit(a, Some(FMTS[k])),
                    };
                    done.fetch_add(1, SeqCst);
                    let same = match (&got, &want[k]) {
                        (Em::Panic(_), Em::Panic(_)) => true,
                        (x, y) => x == y,
                    };
                    if !same {
                        bad.lock().unwrap().push(format!("{:?}: {}", FMTS[k], want[k].diff(&got)));
                    }
                }
            });
        }
    });
    l.saw("concurrent emissions compared", done.load(SeqCst));
    for b in bad.into_inner().unwrap() {
        l.fail(p!(21, 25), "det.threads", format!("concurrent emission: {}", b));
    }
    st.case(hash_bytes(h.text().as_bytes()), bytes);
    l
}
/// `fmon --hash FILE`: build each history of the file and print what it emits.
pub fn hash_worker(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("history file");
    if std::env::var_os("FMON_LOG").is_some() {
        let _ = log::set_logger(&COUNT_LOG);
        log::set_max_level(log::LevelFilter::Trace);
    }
    let mut out = String::new();
    for part in t.split("=====\n") {
        if part.trim().is_empty() {
            continue;
        }
        let h = Hist::parse(part).expect("history");
        let a = build(&h);
        for f in [None, Some(BinaryFormat::Elf), Some(BinaryFormat::Macho)] {
            match emit(&a, f) {
                Em::Bytes(b) => out.push_str(&format!("{}:{:016x} ", b.len(), hash_bytes(&b))),
                Em::Err(e) => out.push_str(&format!("err{:016x} ", hash_bytes(e.as_bytes()))),
                Em::Panic(_) => out.push_str("panic "),
            }
        }
        out.push('\n');
    }
    print!("{}", out);
    0
}
fn processes(c: &mut Camp) {
    c.rules.push("processes: the same histories are built and emitted in separate processes with different environment, locale, working directory, log level, allocator fill, stack limit and start time (more than one second apart); digests must agree line by line".into());
    let n = c.n(300, 4000);
    let mut r = Rng::new(c.case_seed("processes", 0));
    let hs: Vec<Hist> = (0..n)
        .map(|i| if i % 100 == 50 { bulk(&mut r, i / 100, i % 200 == 50) } else { det_hist(&mut r, i) })
        .collect();
    let dir = scratch();
    let file = format!("{}/h", dir.path);
    std::fs::write(&file, hs.iter().map(|h| h.text()).collect::<Vec<_>>().join("=====\n")).expect("scratch");
    let exe = std::env::current_exe().expect("exe");
    let rounds = if c.thorough { 14 } else { 7 };
    let mut base: Option<Vec<String>> = None;
    for k in 0..rounds {
        let mut cmd = std::process::Command::new(&exe);
        cmd.args(["--hash", &file]);
        match k % 7 {
            0 => {}
            1 => {
                cmd.env_clear();
            }
            2 => {
                cmd.env("FMON_LOG", "1").env("RUST_LOG", "trace").env("RUST_BACKTRACE", "full");
            }
            3 => {
                cmd.current_dir(&dir.path).env("LANG", "tr_TR.UTF-8").env("LC_ALL", "tr_TR.UTF-8").env("TZ", "Asia/Kathmandu").env("HOME", "/nonexistent");
            }
            4 => {
                cmd.env("SOURCE_DATE_EPOCH", "1").env("USER", "x").env("HOSTNAME", "y").env("MALLOC_PERTURB_", "165").env("MALLOC_ARENA_MAX", "1");
            }
            5 => {
                // unlike addresses
                cmd.env("FILLER", "x".repeat(50_000)).env("MALLOC_MMAP_THRESHOLD_", "1");
                std::thread::sleep(std::time::Duration::from_millis(1100));
            }
            _ => {
                cmd.current_dir("/").env("MALLOC_PERTURB_", "90").env("PWD", "/elsewhere").env("TERM", "dumb");
            }
        }
        let out = cmd.output().expect("worker");
        if !out.status.success() {
            c.inconclusive.push(format!("hash worker {} ended with {:?}", k, out.status));
            return;
        }
        let lines: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|s| s.to_string()).collect();
        if lines.len() != hs.len() {
            c.inconclusive.push(format!("hash worker {} printed {} lines", k, lines.len()));
            return;
        }
        c.st.add("objects compared across processes", lines.len() as u64 * 3);
        c.st.evaluations += lines.len() as u64;
        match &base {
            None => base = Some(lines),
            Some(b) => {
                if let Some(i) = (0..b.len()).find(|i| b[*i] != lines[*i]) {
                    c.violate(
                        "repeats",
                        "det.process",
                        format!("process {} emits {} where the first one emitted {}", k, lines[i], b[i]),
                        &hs[i].text(),
                    );
                    return;
                }
            }
        }
    }
    // and with this process
    for (h, want) in hs.iter().zip(base.unwrap()) {
        let a = build(h);
        let f = emit(&a, None);
        if let Em::Bytes(b) = f {
            if !want.starts_with(&format!("{}:{:016x} ", b.len(), hash_bytes(&b))) {
                c.violate("repeats", "det.process", format!("this process emits {} bytes, another process {}", b.len(), want), &h.text());
                return;
            }
        }
    }
}

// ------------------------------------------------------------------ C22

fn memfd(size: u64) -> Option<File> {
    unsafe {
        let fd = libc::memfd_create(b"fmon\0".as_ptr() as *const libc::c_char, libc::MFD_ALLOW_SEALING | libc::MFD_CLOEXEC);
        if fd < 0 {
            return None;
        }
        let f = File::from_raw_fd(fd);
        if size > 0 && f.set_len(size).is_err() {
            return None;
        }
        Some(f)
    }
}
fn pipe() -> (File, File) {
    let mut p = [0; 2];
    unsafe {
        assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0, "pipe");
        (File::from_raw_fd(p[0]), File::from_raw_fd(p[1]))
    }
}
fn pipe_cap(fd: RawFd, want: i32) -> usize {
    unsafe {
        libc::fcntl(fd, libc::F_SETPIPE_SZ, want);
        libc::fcntl(fd, libc::F_GETPIPE_SZ) as usize
    }
}
extern "C" fn on_usr1(_: i32) {}

pub fn sinks(c: &mut Camp) {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_usr1 as usize;
        sa.sa_flags = 0; // no SA_RESTART: writes see EINTR
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
        // what happens at a size limit is an error, not a signal
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
    let dir = scratch();
    let d = dir.path.clone();
    let n = c.n(6_000, 150_000);
    c.cases(
        "sinks",
        "complete artifacts of sizes around buffer and page boundaries are written with write and write_as to positioned and appended files with prior contents, slow, small, interrupted and early-closing pipes and sockets, full and null devices, read-only handles, would-block handles and size-sealed memory files; what arrived is compared with what emission returns and with the reported result; non-trivial: bytes were delivered or an injected failure was reported",
        n,
        &|r, i| sink_hist(r, i),
        &|h, seed, st| guard(|| sink_case(h, seed, st, &d)),
    );
    let n = c.n(300, 5_000);
    let exe = std::env::current_exe().expect("exe");
    c.cases(
        "size-limit",
        "the artifact is written to a file in a process whose file size limit (RLIMIT_FSIZE) is below, at or above what is needed; the call must fail exactly if the limit cuts the object, leaving a prefix",
        n,
        &|r, i| sink_hist(r, i),
        &|h, seed, st| guard(|| fsize_case(h, seed, st, &d, &exe)),
    );
}
/// Artifacts whose object has about a wanted size.
fn sink_hist(r: &mut Rng, i: u64) -> Hist {
    let mach = r.pct(40);
    let t = if mach { X64_MAC } else { X64 };
    if i % 3 == 0 {
        let sh = Shape { mach: true, max_defs: 8, budget: 3000, ..Shape::default() };
        return complete(r, &sh, t);
    }
    let want = match r.below(10) {
        0 if r.below(40) == 0 => *r.pick(&[(1 << 24) + 4096, 20_000_000, 33_554_432]),
        0 => 0,
        1 | 2 => r.below(8000),
        3..=5 => *r.pick(&[4096usize, 8192, 12288, 16384, 65536, 131072]),
        6 => 1 << 20,
        _ => r.range(1, 200_000),
    };
    let mut h = Hist { triple: t.into(), name: "t.o".into(), lib: false, ops: vec![] };
    h.ops.push(Op::Declare("f".into(), D::Func { sc: Sc::G, vi: Vi::D, al: None }));
    h.ops.push(Op::Import("x".into(), true));
    h.ops.push(Op::Define("f".into(), vec![0x90; 8]));
    h.ops.push(Op::Link("f".into(), "x".into(), 1));
    // measure, then fill up to the wanted size give or take a few bytes
    let fmt = if mach { BinaryFormat::Macho } else { BinaryFormat::Elf };
    let base = match emit(&build(&h), Some(fmt)) {
        Em::Bytes(b) => b.len(),
        _ => 500,
    };
    let fill = (want + 8).saturating_sub(base + r.below(17));
    h.ops[2] = Op::Define("f".into(), r.bytes(8 + fill));
    if r.pct(10) {
        // leave something undefined: refused
        h.ops.push(Op::Declare("u".into(), D::Func { sc: Sc::L, vi: Vi::D, al: None }));
    }
    h
}
fn do_write(a: &Artifact, f: File, how: usize) -> Out {
    match catch_unwind(AssertUnwindSafe(|| match how {
        0 => a.write(f),
        1 => a.write_as(f, BinaryFormat::Elf),
        _ => a.write_as(f, BinaryFormat::Macho),
    })) {
        Ok(r) => out_of(r),
        Err(e) => Out::Other(format!("panic: {}", panic_text(e))),
    }
}
fn how_fmt(a: &Artifact, how: usize) -> Option<BinaryFormat> {
    match how {
        0 => Some(a.target.binary_format),
        1 => Some(BinaryFormat::Elf),
        _ => Some(BinaryFormat::Macho),
    }
}
/// judge a delivery: `must`: Some(true) the sink could take everything, Some(false) it could not
fn judge_delivery(l: &mut Log, sink: &str, res: &Out, got: &[u8], want: &[u8], must: Option<bool>) {
    let prefix = got.len() <= want.len() && got == &want[..got.len()];
    match res {
        Out::Ok => {
            if got != want {
                l.fail(
                    p!(22),
                    "sink.incomplete",
                    format!("{}: the write reports success, {} bytes arrived, the object has {} (prefix: {})", sink, got.len(), want.len(), prefix),
                );
            }
            if must == Some(false) {
                l.fail(p!(22), "sink.unreported", format!("{}: success reported although the sink cannot take {} bytes", sink, want.len()));
            }
            l.saw("complete deliveries", 1);
        }
        Out::Io(e) => {
            if must == Some(true) {
                l.fail(p!(22), "sink.spurious", format!("{}: error {:?} although the sink takes everything", sink, e));
            }
            if !prefix {
                l.fail(p!(22), "sink.garbage", format!("{}: after error {:?} the sink holds {} bytes that are not a prefix of the object", sink, e, got.len()));
            }
            l.saw("failures reported", 1);
        }
        o => l.fail(p!(22), "sink.result", format!("{}: the write returned {:?}", sink, o)),
    }
}
fn drain(mut f: File, slow: usize, limit: usize, chunk: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut buf = vec![0u8; chunk.max(1)];
    let mut k = 0;
    while v.len() < limit {
        let m = buf.len().min(limit - v.len());
        match f.read(&mut buf[..m]) {
            Ok(0) => break,
            Ok(n) => v.extend_from_slice(&buf[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(_) => break,
        }
        k += 1;
        if slow > 0 && k % slow == 0 && k < 400 {
            std::thread::sleep(std::time::Duration::from_micros(200));
        }
    }
    v
}
fn sink_case(h: &Hist, seed: u64, st: &mut Stats, dir: &str) -> Log {
    let mut l = Log::default();
    let mut r = Rng::new(seed ^ 22);
    let a = build(h);
    let how = r.below(3);
    let fmt = how_fmt(&a, how);
    let want = match emit(&a, fmt) {
        Em::Bytes(b) => b,
        e => {
            // refused: nothing may reach the sink
            let (rd, wr) = pipe();
            let res = do_write(&a, wr, how);
            let got = drain(rd, 0, usize::MAX, 4096);
            if res == Out::Ok || !got.is_empty() {
                l.fail(p!(22), "sink.refused", format!("emission gives {}, the write {:?} and {} bytes", e.short(), res, got.len()));
            }
            l.saw("refused writes", 1);
            st.case(hash_bytes(h.text().as_bytes()), true);
            return l;
        }
    };
    let path = format!("{}/w{:016x}", dir, seed);
    let open = || std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("scratch");
    let kind = r.below(16);
    let n = want.len();
    let label;
    match kind {
        0 | 1 => {
            label = "positioned file";
            let plen = *r.pick(&[0, 10, n / 2, n, n + 1, 2 * n + 7]);
            let prior = r.bytes(plen);
            let pos = match r.below(4) {
                0 => 0,
                1 => plen,
                2 => plen + r.below(100), // leaves a hole
                _ => r.below(plen + 1),
            };
            let mut f = open();
            f.write_all(&prior).unwrap();
            f.seek(SeekFrom::Start(pos as u64)).unwrap();
            let res = do_write(&a, f.try_clone().unwrap(), how);
            let now = f.stream_position().unwrap();
            let all = std::fs::read(&path).unwrap();
            let mut expect = prior.clone();
            if expect.len() < pos + n {
                expect.resize(pos + n, 0);
            }
            expect[pos..pos + n].copy_from_slice(&want);
            if res != Out::Ok {
                l.fail(p!(22), "sink.spurious", format!("regular file: {:?}", res));
            } else if all != expect {
                l.fail(
                    p!(22),
                    "sink.file",
                    format!(
                        "regular file with {} bytes, position {}: {} bytes afterwards instead of {}, first difference at {:?}",
                        plen,
                        pos,
                        all.len(),
                        expect.len(),
                        all.iter().zip(expect.iter()).position(|(x, y)| x != y)
                    ),
                );
            } else if now != (pos + n) as u64 {
                l.fail(p!(22), "sink.position", format!("position {} after writing {} bytes at {}", now, n, pos));
            }
            l.saw("complete deliveries", 1);
        }
        2 => {
            label = "appended file";
            let prior = {
                let k = r.below(5000);
                r.bytes(k)
            };
            open().write_all(&prior).unwrap();
            let f = std::fs::OpenOptions::new().append(true).open(&path).unwrap();
            let twice = r.pct(30);
            let mut res = do_write(&a, f.try_clone().unwrap(), how);
            let mut expect = prior.clone();
            expect.extend_from_slice(&want);
            if twice {
                res = do_write(&a, f, how);
                expect.extend_from_slice(&want);
            }
            let all = std::fs::read(&path).unwrap();
            if res != Out::Ok || all != expect {
                l.fail(p!(22), "sink.append", format!("appending: {:?}, {} bytes instead of {}", res, all.len(), expect.len()));
            }
            l.saw("complete deliveries", 1);
        }
        3 => {
            label = "write-only file";
            let f = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(&path).unwrap();
            let res = do_write(&a, f, how);
            let all = std::fs::read(&path).unwrap();
            judge_delivery(&mut l, label, &res, &all, &want, Some(true));
        }
        4 | 5 => {
            label = "slow pipe";
            let (rd, wr) = pipe();
            if r.pct(70) {
                pipe_cap(wr.as_raw_fd(), 4096);
            }
            let chunk = *r.pick(&[1usize, 100, 1000, 4096, 70_000]);
            let chunk = chunk.max(n / 2000);
            let t = std::thread::spawn(move || drain(rd, 3, usize::MAX, chunk));
            let res = do_write(&a, wr, how);
            let got = t.join().unwrap();
            judge_delivery(&mut l, label, &res, &got, &want, Some(true));
        }
        6 => {
            label = "stream socket";
            let mut p = [0; 2];
            unsafe {
                assert_eq!(libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()), 0);
                let v: i32 = 4096;
                libc::setsockopt(p[1], libc::SOL_SOCKET, libc::SO_SNDBUF, &v as *const i32 as *const libc::c_void, 4);
            }
            let (rd, wr) = unsafe { (File::from_raw_fd(p[0]), File::from_raw_fd(p[1])) };
            let chunk = (*r.pick(&[7usize, 1000, 9000])).max(n / 2000);
            let t = std::thread::spawn(move || drain(rd, 5, usize::MAX, chunk));
            let res = do_write(&a, wr, how);
            let got = t.join().unwrap();
            judge_delivery(&mut l, label, &res, &got, &want, Some(true));
        }
        7 => {
            label = "full device";
            let f = std::fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full");
            let res = do_write(&a, f, how);
            judge_delivery(&mut l, label, &res, &[], &want, if n > 0 { Some(false) } else { None });
        }
        8 => {
            label = "null device";
            let f = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
            let res = do_write(&a, f, how);
            if res != Out::Ok {
                l.fail(p!(22), "sink.spurious", format!("/dev/null: {:?}", res));
            }
            l.saw("complete deliveries", 1);
        }
        9 => {
            label = "read-only handle";
            let prior = r.bytes(100);
            open().write_all(&prior).unwrap();
            let f = File::open(&path).unwrap();
            let res = do_write(&a, f, how);
            judge_delivery(&mut l, label, &res, &[], &want, if n > 0 { Some(false) } else { None });
            if std::fs::read(&path).unwrap() != prior {
                l.fail(p!(22), "sink.file", "a read-only file changed".into());
            }
        }
        10 | 11 => {
            label = "pipe closed by its reader";
            let (rd, wr) = pipe();
            let cap = pipe_cap(wr.as_raw_fd(), 4096);
            let k = match r.below(4) {
                0 => 0,
                1 => n.saturating_sub(cap + 1),
                2 => n,
                _ => r.below(n + 1),
            };
            let chunk = (*r.pick(&[100usize, 4096])).max(n / 2000);
            let t = std::thread::spawn(move || drain(rd, 0, k, chunk));
            let res = do_write(&a, wr, how);
            let got = t.join().unwrap();
            let must = if k + cap < n { Some(false) } else { None };
            let prefix = got.len() <= n && got == want[..got.len()];
            if !prefix {
                l.fail(p!(22), "sink.garbage", format!("{}: received {} bytes that are no prefix", label, got.len()));
            }
            match &res {
                Out::Ok if must == Some(false) => l.fail(
                    p!(22),
                    "sink.unreported",
                    format!("{}: success reported, the reader took {} of {} bytes, the pipe holds {}", label, k, n, cap),
                ),
                Out::Ok => l.saw("complete deliveries", 1),
                Out::Io(_) => l.saw("failures reported", 1),
                o => l.fail(p!(22), "sink.result", format!("{}: {:?}", label, o)),
            }
        }
        12 => {
            label = "would-block pipe";
            let (rd, wr) = pipe();
            let cap = pipe_cap(wr.as_raw_fd(), *r.pick(&[4096, 8192, 65536]));
            unsafe {
                let fl = libc::fcntl(wr.as_raw_fd(), libc::F_GETFL);
                libc::fcntl(wr.as_raw_fd(), libc::F_SETFL, fl | libc::O_NONBLOCK);
            }
            let res = do_write(&a, wr, how);
            let got = drain(rd, 0, usize::MAX, 65536);
            judge_delivery(&mut l, label, &res, &got, &want, Some(n <= cap).filter(|ok| !*ok || n <= 4096));
        }
        13 => {
            label = "interrupted pipe";
            let (rd, wr) = pipe();
            pipe_cap(wr.as_raw_fd(), 4096);
            let chunk = (*r.pick(&[100usize, 1000])).max(n / 300);
            let me = unsafe { libc::pthread_self() } as usize;
            let stop = std::sync::Arc::new(AtomicBool::new(false));
            let s2 = stop.clone();
            let t = std::thread::spawn(move || drain(rd, 1, usize::MAX, chunk));
            let k = std::thread::spawn(move || {
                let mut n = 0;
                while !s2.load(SeqCst) {
                    unsafe {
                        libc::pthread_kill(me as libc::pthread_t, libc::SIGUSR1);
                    }
                    n += 1;
                    std::thread::sleep(std::time::Duration::from_micros(150));
                }
                n
            });
            let res = do_write(&a, wr, how);
            stop.store(true, SeqCst);
            l.saw("signals delivered during writes", k.join().unwrap());
            let got = t.join().unwrap();
            judge_delivery(&mut l, label, &res, &got, &want, Some(true));
        }
        _ => {
            label = "size-sealed memory file";
            let size = match r.below(6) {
                0 => 1,
                1 => n,
                2 => n + 10,
                3 => n.saturating_sub(1).max(1),
                4 => (n / 4096 * 4096).max(1),
                _ => r.range(1, n.max(1)),
            };
            if let Some(mut f) = memfd(size as u64) {
                unsafe {
                    libc::fcntl(f.as_raw_fd(), libc::F_ADD_SEALS, libc::F_SEAL_GROW | libc::F_SEAL_SHRINK);
                }
                // fill with something to see what was written
                f.write_all(&vec![0xEEu8; size]).unwrap();
                f.seek(SeekFrom::Start(0)).unwrap();
                let res = do_write(&a, f.try_clone().unwrap(), how);
                let pos = f.stream_position().unwrap() as usize;
                let mut all = vec![];
                f.seek(SeekFrom::Start(0)).unwrap();
                f.read_to_end(&mut all).unwrap();
                let got = &all[..pos.min(all.len())];
                judge_delivery(&mut l, label, &res, got, &want, Some(size >= n));
                if all[pos.min(all.len())..].iter().any(|x| *x != 0xEE) {
                    l.fail(p!(22), "sink.garbage", format!("{}: bytes after the write position were touched", label));
                }
            }
        }
    }
    let _ = std::fs::remove_file(&path);
    st.add(label, 1);
    // a failed write must not spoil the artifact
    if emit(&a, fmt) != Em::Bytes(want) {
        l.fail(p!(22), "sink.after", format!("after the write to a {} the artifact emits something else", label));
    }
    st.case(hash_bytes(h.text().as_bytes()) ^ kind as u64, true);
    l
}
/// `fmon --fsize HISTFILE OUT LIMIT HOW`
pub fn fsize_worker(a: &[String]) -> i32 {
    let h = Hist::parse(&std::fs::read_to_string(&a[0]).expect("history")).expect("history");
    let lim: u64 = a[2].parse().unwrap();
    let how: usize = a[3].parse().unwrap();
    let art = build(&h);
    let f = File::create(&a[1]).expect("out");
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let l = libc::rlimit { rlim_cur: lim, rlim_max: libc::RLIM_INFINITY };
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &l), 0);
    }
    let r = do_write(&art, f, how);
    unsafe {
        let l = libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY };
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
    }
    match r {
        Out::Ok => println!("ok"),
        Out::Io(e) => println!("io {}", e),
        o => println!("other {:?}", o),
    }
    0
}
fn fsize_case(h: &Hist, seed: u64, st: &mut Stats, dir: &str, exe: &std::path::Path) -> Log {
    let mut l = Log::default();
    let mut r = Rng::new(seed ^ 220);
    let a = build(h);
    let how = r.below(3);
    let want = match emit(&a, how_fmt(&a, how)) {
        Em::Bytes(b) => b,
        _ => {
            st.case(0, false);
            return l;
        }
    };
    let n = want.len();
    let lim = match r.below(6) {
        0 => 0,
        1 => n - 1,
        2 => n,
        3 => n + 1,
        4 => n / 8192 * 8192,
        _ => r.below(n),
    };
    let (hf, of) = (format!("{}/h{:016x}", dir, seed), format!("{}/o{:016x}", dir, seed));
    std::fs::write(&hf, h.text()).expect("scratch");
    let out = std::process::Command::new(exe)
        .args(["--fsize", &hf, &of, &lim.to_string(), &how.to_string()])
        .output()
        .expect("worker");
    let s = String::from_utf8_lossy(&out.stdout).to_string();
    let got = std::fs::read(&of).unwrap_or_default();
    let _ = std::fs::remove_file(&hf);
    let _ = std::fs::remove_file(&of);
    let res = if s.starts_with("ok") {
        Out::Ok
    } else if let Some(e) = s.strip_prefix("io ") {
        Out::Io(e.trim().into())
    } else {
        Out::Other(format!("{} {:?}", s, out.status))
    };
    judge_delivery(&mut l, &format!("file limited to {} bytes", lim), &res, &got, &want, Some(lim >= n));
    st.case(hash_bytes(h.text().as_bytes()) ^ lim as u64, true);
    l
}

// ------------------------------------------------------------------ C27

const ALL_FMTS: [BinaryFormat; 6] =
    [BinaryFormat::Unknown, BinaryFormat::Coff, BinaryFormat::Elf, BinaryFormat::Macho, BinaryFormat::Wasm, BinaryFormat::Xcoff];

/// (triple, the entry of the machine table that describes its objects)
const FMT_TRIPLES: &[(&str, &str)] = &[
    ("x86_64-unknown-unknown-unknown-elf", X64),
    ("x86_64-unknown-linux-gnu", X64),
    ("x86_64-apple-darwin", X64),
    ("x86_64-apple-macosx10.7.0", X64),
    ("x86_64-pc-windows-msvc", X64),
    ("x86_64-pc-windows-gnu", X64),
    ("x86_64-unknown-uefi", X64),
    ("x86_64-unknown-unknown", X64),
    ("x86_64-unknown-unknown-unknown-macho", X64),
    ("x86_64-unknown-unknown-unknown-coff", X64),
    ("x86_64-unknown-unknown-unknown-wasm", X64),
    ("aarch64-apple-ios", "aarch64-apple-darwin"),
    ("aarch64-unknown-linux-gnu", "aarch64-unknown-linux-gnu"),
    ("aarch64-pc-windows-msvc", "aarch64-apple-darwin"),
    ("i686-pc-windows-msvc", "i686-unknown-linux-gnu"),
    ("i686-unknown-linux-gnu", "i686-unknown-linux-gnu"),
    ("armv7-unknown-linux-gnueabihf", "armv7-unknown-linux-gnueabihf"),
    ("powerpc-unknown-linux-gnu", "powerpc-unknown-linux-gnu"),
    ("riscv64gc-unknown-linux-gnu", "riscv64gc-unknown-linux-gnu"),
    ("wasm32-unknown-unknown", ""),
    ("wasm32-wasi", ""),
];

pub fn formats(c: &mut Camp) {
    let n = c.n(60_000, 300_000);
    let dir = scratch();
    let d = dir.path.clone();
    c.cases(
        "formats-and-builders",
        "artifacts are made by Artifact::new and by ArtifactBuilder with settings repeated and in any order, for targets of every binary format, then emitted and written with emit, emit_as, write and write_as in random sequences over all six binary formats; result magic, machine, file symbol, refusals (which must name the requested format) and fields are compared with a small model; non-trivial: at least one supported and one unsupported format was requested",
        n,
        &|r, _| {
            let sh = Shape { mach: true, is64: false, max_defs: 4, max_links: 3, relocs: r.pct(30), budget: 500, zero_max: 1 << 20, ..Shape::default() };
            complete(r, &sh, X64)
        },
        &|h, seed, st| guard(|| fmt_case(h, seed, st, &d)),
    );
}
fn fmt_case(h: &Hist, seed: u64, st: &mut Stats, dir: &str) -> Log {
    let mut l = Log::default();
    let mut r = Rng::new(seed ^ 27);
    let (ts, like) = *r.pick(FMT_TRIPLES);
    let triple = match faerie::Triple::from_str(ts) {
        Ok(t) => t,
        Err(_) => {
            st.add("triples not understood", 1);
            st.case(0, false);
            return l;
        }
    };
    // ---- construction
    let mut name = h.name.clone();
    let mut lib = false;
    let mut a = if r.pct(30) {
        Artifact::new(triple.clone(), name.clone())
    } else {
        let mut b = ArtifactBuilder::new(triple.clone());
        let mut named = false;
        for _ in 0..r.below(6) {
            if r.pct(50) {
                name = match r.below(5) {
                    0 => h.name.clone(),
                    1 => String::new(),
                    2 => "faerie.o".into(),
                    3 => format!("other{}.o", r.below(100)),
                    _ => h.name.clone() + ".x",
                };
                named = true;
                b = b.name(name.clone());
            } else {
                lib = r.pct(50);
                b = b.library(lib);
            }
        }
        if !named {
            name = "faerie.o".into();
        }
        b.finish()
    };
    if a.name != name || a.target != triple || a.is_library != lib {
        l.fail(
            p!(27),
            "builder",
            format!(
                "built artifact has name {:?} target {} library {}; set were {:?} {} {}",
                trunc(&a.name, 80),
                a.target,
                a.is_library,
                trunc(&name, 80),
                triple,
                lib
            ),
        );
    }
    l.saw("constructions", 1);
    let mut m = crate::model::Model::default();
    for o in &h.ops {
        m.apply(o);
        o.run(&mut a);
    }
    if r.pct(15) {
        // the name is a public field
        name = format!("renamed{}.o", r.below(100));
        a.name = name.clone();
    }
    let tgt = if like.is_empty() { None } else { Some(find(like)) };
    let own = triple.binary_format;
    let path = format!("{}/f{:016x}", dir, seed);
    let (mut good, mut bad) = (0, 0);
    for _ in 0..r.range(4, 10) {
        let f = *r.pick(&ALL_FMTS);
        let by = r.below(4);
        let eff = if by % 2 == 0 { own } else { f };
        let what = format!("{} ({:?}) for {}", ["emit", "emit_as", "write", "write_as"][by], eff, ts);
        let supported = match eff {
            BinaryFormat::Elf => match tgt {
                None => None, // no such machine: outside the domain
                Some(t) => domain(&m, Fmt::Elf, t).ok().map(|_| true),
            },
            BinaryFormat::Macho => match tgt {
                None => None,
                Some(t) => domain(&m, Fmt::Mach, t).ok().map(|_| true),
            },
            _ => Some(false),
        };
        let supported = match supported {
            None => continue,
            Some(s) => s,
        };
        let mut sunk: Option<Vec<u8>> = None;
        let res = catch_unwind(AssertUnwindSafe(|| match by {
            0 => a.emit(),
            1 => a.emit_as(f),
            _ => {
                let file = File::create(&path).expect("scratch");
                let r = if by == 2 { a.write(file) } else { a.write_as(file, f) };
                sunk = Some(std::fs::read(&path).expect("scratch"));
                r.map(|_| sunk.clone().unwrap())
            }
        }));
        let res = match res {
            Ok(Ok(b)) => Em::Bytes(b),
            Ok(Err(e)) => Em::Err(match e {
                faerie::ArtifactError::UnsupportedBinaryFormat(x) => format!("unsupported {:?}", x),
                e => format!("{:?}", out_err(e)),
            }),
            Err(p) => Em::Panic(panic_text(p)),
        };
        if !supported {
            bad += 1;
            l.saw("unsupported formats requested", 1);
            if res != Em::Err(format!("unsupported {:?}", eff)) {
                l.fail(p!(27), "fmt.unsupported", format!("{}: {}", what, res.short()));
            }
            if sunk.map_or(false, |s| !s.is_empty()) {
                l.fail(p!(27), "fmt.unsupported", format!("{}: bytes were written", what));
            }
            continue;
        }
        good += 1;
        let b = match &res {
            Em::Bytes(b) => b,
            e => {
                l.fail(p!(27), "fmt.fails", format!("{}: {}", what, e.short()));
                continue;
            }
        };
        let magic: [u8; 4] = b.get(..4).and_then(|x| x.try_into().ok()).unwrap_or([0; 4]);
        let is_elf = magic == *b"\x7fELF";
        let w = u32::from_le_bytes(magic);
        let is_mach = [0xfeedfacf, 0xfeedface].contains(&w) || [0xfeedfacf, 0xfeedface].contains(&w.swap_bytes());
        if is_elf != (eff == BinaryFormat::Elf) || is_mach != (eff == BinaryFormat::Macho) {
            l.fail(p!(27), "fmt.magic", format!("{}: the object starts with {:x?}", what, magic));
            continue;
        }
        l.saw("objects of the requested format", 1);
        let mut l2 = Log::default();
        let none = Default::default();
        let c = crate::mon_elf::Ctx { name: &name, tgt: tgt.unwrap(), m: &m, redecl: &none, refused: &none };
        if is_elf {
            crate::mon_elf::check(&c, b, &mut l2);
        } else {
            crate::mon_mach::check(&c, b, &mut l2);
        }
        l.fails.extend(l2.fails.into_iter().filter(|f| f.props & p!(27, 14) != 0).map(|f| Fail {
            props: f.props | p!(27),
            msg: format!("{}: {}", what, f.msg),
            ..f
        }));
    }
    let _ = std::fs::remove_file(&path);
    // the undefined gate comes before or after the format test, but one of them applies
    if r.pct(20) {
        let mut u = a.clone();
        let _ = u.declare("zz undefined", faerie::Decl::function());
        let f = *r.pick(&ALL_FMTS);
        let ok = match u.emit_as(f) {
            Ok(_) => false,
            Err(faerie::ArtifactError::UndefinedSymbols(v)) => v == ["zz undefined"],
            Err(faerie::ArtifactError::UnsupportedBinaryFormat(x)) => x == f && !matches!(f, BinaryFormat::Elf | BinaryFormat::Macho),
            Err(_) => false,
        };
        if !ok {
            l.fail(p!(27), "fmt.gate", format!("emit_as({:?}) of an incomplete artifact: wrong result", f));
        }
    }
    st.case(hash_bytes(h.text().as_bytes()) ^ hash_bytes(ts.as_bytes()), good > 0 && bad > 0);
    l
}

// ------------------------------------------------------------------ C28

use faerie::artifact::{DataType, DefinedDecl, ImportKind, SectionKind};
use faerie::{DataDecl, Decl, FunctionDecl, Scope, SectionDecl, Visibility};

#[derive(Clone, Copy, Debug, PartialEq)]
struct Mirror {
    kind: u8, // 0 function import, 1 data import, 2 function, 3 data, 4.. section data/debug/text
    sc: Scope,
    vi: Visibility,
    wr: bool,
    dt: DataType,
    al: Option<u64>,
}
fn aligns(r: &mut Rng) -> Option<u64> {
    match r.below(5) {
        0 => None,
        1 => Some(1),
        2 => Some(1 << r.below(8)),
        3 => Some(16),
        _ => Some(1 << r.below(64)),
    }
}
fn rscope(r: &mut Rng) -> Scope {
    *r.pick(&[Scope::Local, Scope::Global, Scope::Weak])
}
fn rvis(r: &mut Rng) -> Visibility {
    *r.pick(&[Visibility::Default, Visibility::Protected, Visibility::Hidden])
}
fn rdt(r: &mut Rng) -> DataType {
    *r.pick(&[DataType::Bytes, DataType::String])
}

macro_rules! chk {
    ($l:expr, $chain:expr, $what:expr, $got:expr, $want:expr) => {{
        let (g, w) = ($got, $want);
        $l.saw("attributes read back", 1);
        if g != w {
            $l.fail(p!(28), "decl.attr", format!("after {}: {} is {:?} instead of {:?}", $chain.join(" "), $what, g, w));
        }
    }};
}
macro_rules! step_scope {
    ($d:ident, $m:ident, $r:ident, $ch:ident) => {{
        let s = rscope($r);
        match $r.below(3) {
            0 => {
                $d = match s {
                    Scope::Local => $d.local(),
                    Scope::Global => $d.global(),
                    Scope::Weak => $d.weak(),
                };
            }
            1 => $d = $d.with_scope(s),
            _ => $d.set_scope(s),
        }
        $m.sc = s;
        $ch.push(format!("scope={:?}", s));
    }};
}
macro_rules! step_vis {
    ($d:ident, $m:ident, $r:ident, $ch:ident) => {{
        let s = rvis($r);
        match $r.below(3) {
            0 => {
                $d = match s {
                    Visibility::Default => $d.default_visibility(),
                    Visibility::Protected => $d.protected(),
                    Visibility::Hidden => $d.hidden(),
                };
            }
            1 => $d = $d.with_visibility(s),
            _ => $d.set_visibility(s),
        }
        $m.vi = s;
        $ch.push(format!("visibility={:?}", s));
    }};
}
macro_rules! step_align {
    ($d:ident, $m:ident, $r:ident, $ch:ident) => {{
        let s = aligns($r);
        if $r.pct(50) {
            $d = $d.with_align(s);
        } else {
            $d.set_align(s);
        }
        $m.al = s;
        $ch.push(format!("align={:?}", s));
    }};
}
macro_rules! step_dt {
    ($d:ident, $m:ident, $r:ident, $ch:ident) => {{
        let s = rdt($r);
        if $r.pct(50) {
            $d = $d.with_datatype(s);
        } else {
            $d.set_datatype(s);
        }
        $m.dt = s;
        $ch.push(format!("datatype={:?}", s));
    }};
}

/// Run one chain, checking every attribute after every step.
fn chain(r: &mut Rng, l: &mut Log) -> (Decl, Mirror, Vec<String>) {
    let mut m = Mirror { kind: 0, sc: Scope::Local, vi: Visibility::Default, wr: false, dt: DataType::Bytes, al: None };
    let mut ch: Vec<String> = vec![];
    let steps = *r.pick(&[0, 1, 2, 3, 5, 9, 20]);
    match r.below(9) {
        0 => {
            m.kind = 0;
            ch.push("function_import".into());
            let d: Decl = if r.pct(50) { Decl::function_import().into() } else { Decl::Import(ImportKind::Function) };
            chk!(l, ch, "from_decl", ImportKind::from_decl(&d), Some(ImportKind::Function));
            (d, m, ch)
        }
        1 => {
            m.kind = 1;
            ch.push("data_import".into());
            let d: Decl = if r.pct(50) { Decl::data_import().into() } else { Decl::Import(ImportKind::Data) };
            chk!(l, ch, "from_decl", ImportKind::from_decl(&d), Some(ImportKind::Data));
            (d, m, ch)
        }
        2 | 3 => {
            m.kind = 2;
            ch.push("function".into());
            let mut d = if r.pct(50) { Decl::function() } else { FunctionDecl::default() };
            for k in 0..=steps {
                chk!(l, ch, "scope", d.get_scope(), m.sc);
                chk!(l, ch, "visibility", d.get_visibility(), m.vi);
                chk!(l, ch, "alignment", d.get_align(), m.al);
                chk!(l, ch, "is_global", d.is_global(), m.sc == Scope::Global);
                if k < steps {
                    match r.below(3) {
                        0 => step_scope!(d, m, r, ch),
                        1 => step_vis!(d, m, r, ch),
                        _ => step_align!(d, m, r, ch),
                    }
                }
            }
            (d.into(), m, ch)
        }
        4..=6 => {
            m.kind = 3;
            ch.push("data".into());
            let mut d = match r.below(3) {
                0 => Decl::data(),
                1 => DataDecl::default(),
                _ => {
                    m.dt = DataType::String;
                    ch[0] = "cstring".into();
                    Decl::cstring()
                }
            };
            for k in 0..=steps {
                chk!(l, ch, "scope", d.get_scope(), m.sc);
                chk!(l, ch, "visibility", d.get_visibility(), m.vi);
                chk!(l, ch, "alignment", d.get_align(), m.al);
                chk!(l, ch, "datatype", d.get_datatype(), m.dt);
                chk!(l, ch, "writability", d.is_writable(), m.wr);
                chk!(l, ch, "is_global", d.is_global(), m.sc == Scope::Global);
                if k < steps {
                    match r.below(5) {
                        0 => step_scope!(d, m, r, ch),
                        1 => step_vis!(d, m, r, ch),
                        2 => step_dt!(d, m, r, ch),
                        3 => {
                            let w = r.pct(50);
                            match r.below(3) {
                                0 => d = if w { d.writable() } else { d.read_only() },
                                1 => d = d.with_writable(w),
                                _ => d.set_writable(w),
                            }
                            m.wr = w;
                            ch.push(format!("writable={}", w));
                        }
                        _ => step_align!(d, m, r, ch),
                    }
                }
            }
            (d.into(), m, ch)
        }
        _ => {
            let k = r.below(3);
            let kind = [SectionKind::Data, SectionKind::Debug, SectionKind::Text][k];
            m.kind = 4 + k as u8;
            m.wr = k == 0;
            ch.push(format!("section({:?})", kind));
            let mut d = if r.pct(50) { Decl::section(kind) } else { SectionDecl::new(kind) };
            for k in 0..=steps {
                chk!(l, ch, "kind", d.kind(), kind);
                chk!(l, ch, "alignment", d.get_align(), m.al);
                chk!(l, ch, "datatype", d.get_datatype(), m.dt);
                chk!(l, ch, "is_writable", d.is_writable(), m.wr);
                chk!(l, ch, "is_global", d.is_global(), false);
                if k < steps {
                    if r.pct(50) {
                        step_dt!(d, m, r, ch);
                    } else {
                        step_align!(d, m, r, ch);
                    }
                }
            }
            (d.into(), m, ch)
        }
    }
}
/// the attributes that exist for the kind
fn relevant(m: &Mirror) -> Mirror {
    let mut x = *m;
    if m.kind < 2 {
        x = Mirror { kind: m.kind, sc: Scope::Local, vi: Visibility::Default, wr: false, dt: DataType::Bytes, al: None };
    }
    x
}
pub fn declarations(c: &mut Camp) {
    let n = c.n(1_000_000, 6_000_000);
    c.cases(
        "builder-chains",
        "random chains of builder and setter calls on all declaration kinds; every attribute is read back after every step, the resulting declaration's predicates are compared with the attributes, and pairs of declarations are compared for equality in both directions; pairs are biased to differ in at most one attribute; non-trivial: chains with at least one call",
        n,
        &|_, _| Hist { triple: X64.into(), name: "t.o".into(), lib: false, ops: vec![] },
        &|_, seed, st| guard(|| decl_case(seed, st)),
    );
}
fn decl_case(seed: u64, st: &mut Stats) -> Log {
    let mut l = Log::default();
    let mut r = Rng::new(seed ^ 28);
    let (d, m, ch) = chain(&mut r, &mut l);
    // predicates of the finished declaration
    chk!(l, ch, "Decl::is_import", d.is_import(), m.kind < 2);
    chk!(l, ch, "Decl::is_section", d.is_section(), m.kind >= 4);
    match d {
        Decl::Import(k) => {
            chk!(l, ch, "import kind", Some(k), [Some(ImportKind::Function), Some(ImportKind::Data)].get(m.kind as usize).copied().flatten());
        }
        Decl::Defined(x) => {
            chk!(l, ch, "is_function", x.is_function(), m.kind == 2);
            chk!(l, ch, "is_data", x.is_data(), m.kind == 3);
            chk!(l, ch, "DefinedDecl::is_section", x.is_section(), m.kind >= 4);
            chk!(l, ch, "DefinedDecl::is_global", x.is_global(), (m.kind == 2 || m.kind == 3) && m.sc == Scope::Global);
            chk!(l, ch, "DefinedDecl::is_writable", x.is_writable(), m.wr);
            chk!(l, ch, "DefinedDecl::get_align", x.get_align(), m.al);
            chk!(l, ch, "from_decl", ImportKind::from_decl(&d), None);
            match x {
                DefinedDecl::Function(f) => {
                    chk!(l, ch, "wrapped scope", f.get_scope(), m.sc);
                    chk!(l, ch, "wrapped visibility", f.get_visibility(), m.vi);
                }
                DefinedDecl::Data(f) => {
                    chk!(l, ch, "wrapped scope", f.get_scope(), m.sc);
                    chk!(l, ch, "wrapped visibility", f.get_visibility(), m.vi);
                    chk!(l, ch, "wrapped datatype", f.get_datatype(), m.dt);
                    chk!(l, ch, "wrapped writability", f.is_writable(), m.wr);
                }
                DefinedDecl::Section(f) => {
                    chk!(l, ch, "wrapped datatype", f.get_datatype(), m.dt);
                }
            }
        }
    }
    // equality, against a second chain and against a one-attribute variation
    let (e, m2, ch2) = chain(&mut r, &mut l);
    let eq = relevant(&m) == relevant(&m2);
    let mut pairs = vec![(d, e, eq, format!("{} / {}", ch.join(" "), ch2.join(" ")))];
    // rebuild d by another route, then vary one attribute
    let rebuild = |m: &Mirror, r: &mut Rng| -> Decl {
        match m.kind {
            0 => Decl::Import(ImportKind::Function),
            1 => Decl::Import(ImportKind::Data),
            2 => {
                let mut f = Decl::function().with_visibility(m.vi).with_align(Some(64)).with_scope(m.sc);
                f.set_align(m.al);
                f.into()
            }
            3 => {
                let mut f = DataDecl::default().with_align(m.al).with_datatype(m.dt).with_scope(m.sc).with_writable(!m.wr);
                f.set_visibility(m.vi);
                f.set_writable(m.wr);
                f.into()
            }
            _ => {
                let k = [SectionKind::Data, SectionKind::Debug, SectionKind::Text][m.kind as usize - 4];
                let mut s = SectionDecl::new(k).with_align(m.al);
                if r.pct(50) {
                    s.set_datatype(DataType::String);
                }
                s.set_datatype(m.dt);
                s.into()
            }
        }
    };
    pairs.push((d, rebuild(&m, &mut r), true, format!("{} / the same attributes", ch.join(" "))));
    let mut v = m;
    match r.below(6) {
        0 => v.sc = rscope(&mut r),
        1 => v.vi = rvis(&mut r),
        2 if v.kind == 3 => v.wr = !v.wr,
        3 => v.dt = rdt(&mut r),
        4 => v.al = aligns(&mut r),
        _ => {
            v.kind = r.below(7) as u8;
            v.wr = if v.kind >= 4 { v.kind == 4 } else { v.kind == 3 && m.wr };
        }
    }
    let norm = |m: &Mirror| -> Mirror {
        let mut m = relevant(m);
        if m.kind == 2 {
            m.dt = DataType::Bytes;
            m.wr = false;
        }
        if m.kind >= 4 {
            m.sc = Scope::Local;
            m.vi = Visibility::Default;
        }
        m
    };
    pairs.push((d, rebuild(&v, &mut r), norm(&v) == norm(&m), format!("{} / {:?}", ch.join(" "), v)));
    pairs[0].2 = norm(&m) == norm(&m2);
    for (x, y, want, how) in pairs {
        l.saw("pairs compared", 1);
        if (x == y) != want || (y == x) != want || (x != y) == want || (x.cmp(&y) == std::cmp::Ordering::Equal) != want {
            l.fail(p!(28), "decl.eq", format!("{:?} == {:?} is {}, the attributes say {} ({})", x, y, x == y, want, trunc(&how, 400)));
        }
        let (c1, c2) = (x, x.clone());
        if c1 != c2 {
            l.fail(p!(28), "decl.clone", format!("a copy of {:?} differs from it", x));
        }
    }
    contents(&mut r, &mut l);
    st.case(hash_bytes(format!("{:?}{:?}", ch, ch2).as_bytes()), ch.len() + ch2.len() > 2);
    l
}
/// What a `Data` says of itself.
fn contents(r: &mut Rng, l: &mut Log) {
    use faerie::Data;
    let mut one = |r: &mut Rng| -> (Data, Option<Vec<u8>>, usize) {
        if r.pct(50) {
            let n = *r.pick(&[0usize, 0, 1, 1, 2, 3, 16, 4096]);
            let b = if r.pct(50) { vec![0; n] } else { r.bytes(n) };
            let d = if r.pct(50) { b.clone().into() } else { Data::Blob(b.clone()) };
            (d, Some(b), n)
        } else {
            let n = *r.pick(&[0usize, 0, 1, 1, 2, 3, 16, 4096, 1 << 40, usize::MAX]);
            (Data::ZeroInit(n), None, n)
        }
    };
    let (d, b, n) = one(r);
    let (d2, b2, n2) = one(r);
    let ch = [format!("{:?}", b.as_ref().map(|x| x.len())), n.to_string()];
    chk!(l, ch, "Data::is_zero_init", d.is_zero_init(), b.is_none());
    chk!(l, ch, "Data::is_empty", d.is_empty(), n == 0);
    chk!(l, ch, "Data::file_size", d.file_size(), if b.is_none() { 0 } else { n });
    chk!(l, ch, "Data equality", d == d2, (b.is_none(), n, &b) == (b2.is_none(), n2, &b2));
    chk!(l, ch, "Data copy", d.clone() == d, true);
    match (&d, &b) {
        (Data::Blob(x), Some(y)) => chk!(l, ch, "Data::Blob", x, y),
        (Data::ZeroInit(x), None) => chk!(l, ch, "Data::ZeroInit", *x, n),
        _ => l.fail(p!(28), "decl.attr", format!("{:?} is contents of another kind", b)),
    }
}
