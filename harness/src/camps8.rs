//! The machine that emits (C30): histories are run on hosts of another word size and byte order
//! (the worker in far/, interpreted by Miri for those targets) and must yield what they yield here.
use crate::camp::*;
use crate::camps::guard;
use crate::camps4::{run_cmd_t, Ran};
use crate::exec::*;
use crate::gen::*;
use crate::mon::*;
use crate::ops::*;
use crate::p;
use crate::rng::*;
use crate::targets::*;
use std::process::Command;

/// (label, host triple, what it has to call itself)
const HOSTS: [(&str, &str, &str); 3] = [
    ("host-s390x", "s390x-unknown-linux-gnu", "64 big"),
    ("host-i686", "i686-unknown-linux-gnu", "32 little"),
    ("host-powerpc", "powerpc-unknown-linux-gnu", "32 big"),
];
// undefined behaviour is C25's; here the interpreter is only a host
const FLAGS: &str = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-backtrace=0 -Zmiri-disable-stacked-borrows -Zmiri-disable-validation";

fn base() -> String {
    std::env::var("FMON_VERIF").unwrap_or_else(|_| "/verif".into())
}
/// sysroot and build output of one host
fn dir(host: &str) -> String {
    format!("{}/harness/target/far-{}", base(), host)
}
fn worker(host: &str, file: &str, secs: u64, seed: u64) -> Command {
    let mut c = Command::new("cargo");
    c.args(["miri", "run", "--offline", "--quiet", "--target", host, "--", file, &secs.to_string()])
        .current_dir(format!("{}/harness/far", base()))
        .env("RUSTUP_TOOLCHAIN", "nightly")
        .env("CARGO_NET_OFFLINE", "true")
        .env("XDG_CACHE_HOME", format!("{}/sysroot", dir(host)))
        .env("CARGO_TARGET_DIR", dir(host))
        .env("MIRIFLAGS", format!("{} -Zmiri-seed={}", FLAGS, seed as u32))
        .env_remove("MIRI_SYSROOT")
        .env_remove("RUSTFLAGS");
    c
}
fn build(host: &str) -> Ran {
    // cargo goes by mtimes; make it look at the tree under test again whatever they say
    for e in std::fs::read_dir(format!("{}/miri/{}/debug/.fingerprint", dir(host), host)).into_iter().flatten().flatten() {
        if e.file_name().to_string_lossy().starts_with("faerie-") {
            let _ = std::fs::remove_dir_all(e.path());
        }
    }
    run_cmd_t(worker(host, "/", 0, 0), 3600, false, 800)
}

/// A target whose architecture fixes word size and byte order (the others take them from the host
/// by definition).
fn target(r: &mut Rng) -> &'static Tgt {
    loop {
        let t = r.pick(TARGETS);
        if t.is64.is_some() && t.le.is_some() {
            return t;
        }
    }
}
/// Histories small enough for an interpreter, of every kind.
fn history(r: &mut Rng, i: u64) -> Hist {
    let mut h = match i % 5 {
        0 => {
            let mx = Mix {
                names: *r.pick(&[1, 3, 6, 12]),
                ops: *r.pick(&[6, 15, 30]),
                w: [6, 3, 2, 2, 4, 2, 2, 4, 3],
                hostile: *r.pick(&[10, 40, 70]),
                complete: 70,
            };
            let t = target(r).triple;
            hostile(r, &mx, t)
        }
        k => {
            let mut sh = Shape { mach: k == 1 || r.pct(30), budget: *r.pick(&[100, 600, 2500]), max_defs: 10, max_links: 16, zero_max: 1 << 20, ..Shape::default() };
            if r.pct(30) {
                sh.sect_pct = 45;
            }
            let t = if sh.mach && r.pct(70) { find(X64_MAC) } else { target(r) };
            sh.is64 = t.is64 == Some(true);
            if sh.is64 && r.pct(15) {
                // what a target has room for need not fit into a word of the host
                sh.max_align = 45;
            }
            if r.pct(10) {
                // sizes that only just fit into a pointer of a small host
                sh.zero_max = 0x7fff_ffff;
            }
            complete(r, &sh, t.triple)
        }
    };
    for o in &mut h.ops {
        match o {
            Op::Define(_, b) | Op::DeclareWith(_, _, b) | Op::DefineSyms(_, Pay::Blob(b), _) => b.truncate(1500),
            // the call takes a usize: the size has to exist on both hosts
            Op::DefineZero(_, z) | Op::DefineSyms(_, Pay::Zero(z), _) => *z = (*z).min(0x7fff_ffff),
            _ => {}
        }
    }
    h
}
fn batch(seed: u64, n: u64) -> Vec<Hist> {
    (0..n).map(|i| history(&mut Rng::new(mix(seed ^ mix(i))), i)).collect()
}
/// The fields in which two observations differ.
fn differing(a: &str, b: &str) -> Vec<String> {
    let f = |s: &str| -> Vec<(String, String)> {
        s.split(' ').map(|w| w.split_once('=').map_or((w.to_string(), String::new()), |x| (x.0.to_string(), x.1.to_string()))).collect()
    };
    let (a, b) = (f(a), f(b));
    let mut v = vec![];
    for (k, x) in &a {
        match b.iter().find(|y| y.0 == *k) {
            Some(y) if y.1 == *x => {}
            Some(y) => v.push(format!("{}: {} here, {} there", k, x, y.1)),
            None => v.push(format!("{}: {} here, nothing there", k, x)),
        }
    }
    v
}

pub fn hosts(c: &mut Camp) {
    let tmp = crate::camps::scratch();
    let here = format!("{} {}", usize::BITS, if cfg!(target_endian = "big") { "big" } else { "little" });
    let wanted: Vec<_> = HOSTS
        .into_iter()
        .filter(|t| c.replay.as_ref().map_or(true, |x| x.0.starts_with(t.0)))
        .filter(|t| c.only.as_ref().map_or(true, |x| x.0.starts_with(t.0)))
        .collect();
    let t0 = std::time::Instant::now();
    let built: Vec<Ran> = std::thread::scope(|s| {
        let v: Vec<_> = wanted.iter().map(|t| s.spawn(move || build(t.1))).collect();
        v.into_iter().map(|h| h.join().unwrap()).collect()
    });
    c.st.add("seconds spent building for other hosts", t0.elapsed().as_secs());
    let mut ok = vec![];
    for (t, r) in wanted.into_iter().zip(built) {
        let out = String::from_utf8_lossy(&r.out).to_string();
        if r.code == Some(0) && out.lines().any(|l| l.starts_with("HOST ") && l.ends_with(t.2)) && !t.2.starts_with(&here) {
            ok.push(t);
        } else {
            let e = format!("{:?} {:?} {}", r.code, r.signal, trunc(&r.err, 600));
            println!("# {} is not usable here: {}", t.1, e);
            c.inconclusive.push(format!("{} is not usable here: {}", t.1, e));
        }
    }
    let thorough = c.thorough;
    let (size, secs) = if thorough { (4000, 300) } else { (400, 50) };
    let only = c.replay.is_some() || c.only.is_some();
    let path = &tmp.path;
    let go = |host: (&str, &str, &str), seed: u64, st: &mut Stats| -> Log {
        let mut l = Log::default();
        let hs = batch(seed, size);
        let f = format!("{}/{}-{:016x}", path, host.0, seed);
        std::fs::write(&f, hs.iter().map(|h| h.text()).collect::<Vec<_>>().join("%%\n")).expect("scratch");
        // what a violation took to show up, it may take again on a slower machine
        let secs = if only { secs * 2 } else { secs };
        let r = run_cmd_t(worker(host.1, &f, secs, seed), 1 << 20, false, secs + 400);
        let _ = std::fs::remove_file(&f);
        let out = String::from_utf8_lossy(&r.out).to_string();
        let mut seen = 0;
        for line in out.lines().filter_map(|l| l.strip_prefix("FAR ")) {
            let Some((i, obs)) = line.split_once(' ') else { break };
            let Some(h) = i.parse::<usize>().ok().and_then(|i| hs.get(i)) else { break };
            let native = crate::far::observe(h);
            if native != obs {
                // the worker's last line may be cut off when it is stopped
                if r.code != Some(0) && out.ends_with(line) {
                    break;
                }
                l.fail(
                    p!(30),
                    "host.differs",
                    format!("{} does not yield what this host yields: {}; history {}: {}", host.1, differing(&native, obs).join("; "), i, h.text().replace('\n', " | ")),
                );
                break;
            }
            seen += 1;
            for (k, what) in [("elf=", "ELF objects"), ("mach=", "Mach-O objects")] {
                if let Some(w) = obs.split(' ').find_map(|w| w.strip_prefix(k)) {
                    if w.starts_with("error") || w == "panic" {
                        st.add("refusals compared across hosts", 1);
                    } else {
                        st.add(&format!("{} compared across hosts", what), 1);
                        st.add("bytes compared across hosts", w.split(':').next().and_then(|x| x.parse().ok()).unwrap_or(0));
                    }
                }
            }
            st.add("calls compared across hosts", h.ops.len() as u64);
            st.add(&format!("histories compared with {}", host.1), 1);
        }
        if let Some(i) = r.err.find("Undefined Behavior") {
            l.fail(p!(30), "host.ub", format!("Miri ({}), after {} histories of seed {}: {}", host.1, seen, seed, trunc(&r.err[i..], 900)));
        } else if r.code != Some(0) && l.fails.is_empty() {
            eprintln!("# {}: {:?} {:?} {}", host.1, r.code, r.signal, trunc(&r.err, 600));
            st.add("runs without a complete answer", 1);
        }
        if seen > 0 {
            l.saw("hosts compared", seen);
        }
        st.case(seed, seen > 0);
        l
    };
    let go = &go;
    let hist = |_: &mut Rng, _: u64| Hist { triple: X64.into(), name: "t.o".into(), lib: false, ops: vec![] };
    for t in ok {
        let n = c.n(8, 24);
        c.cases(
            t.0,
            "the same random legal and illegal histories for all targets are run here and on a host of another word size or byte order (interpreted by Miri): outcomes of calls, imports, undefined symbols and the bytes of both formats must be identical; one evaluation is one run of many histories",
            n,
            &hist,
            &|_, seed, st| guard(|| go(t, seed, st)),
        );
    }
}
