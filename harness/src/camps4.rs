//! Linked programs (C23): emitted ELF objects through the real linkers, run in a child process.
use crate::camp::*;
use crate::camps::{guard, scratch};
use crate::mon::*;
use crate::ops::*;
use crate::p;
use crate::prog::*;
use crate::rng::*;
use crate::targets::X64;
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

pub struct Ran {
    pub out: Vec<u8>,
    pub err: String,
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timeout: bool,
}
/// Run a command with limits; `nobody` drops privileges first.
pub fn run_cmd(c: Command, cpu_s: u64, nobody: bool) -> Ran {
    run_cmd_t(c, cpu_s, nobody, 100)
}
pub fn run_cmd_t(mut c: Command, cpu_s: u64, nobody: bool, wall_s: u64) -> Ran {
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(move || {
            let lim = |r, v| {
                let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                libc::setrlimit(r, &l);
            };
            if cpu_s < 1000 {
                lim(libc::RLIMIT_CPU, cpu_s);
            }
            lim(libc::RLIMIT_CORE, 0);
            libc::setpgid(0, 0);
            if nobody {
                lim(libc::RLIMIT_FSIZE, 0);
                libc::setgroups(0, std::ptr::null());
                libc::setgid(65534);
                libc::setuid(65534);
            }
            Ok(())
        });
    }
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => return Ran { out: vec![], err: format!("spawn: {}", e), code: None, signal: None, timeout: true },
    };
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let pid = ch.id() as i32;
    let done = std::sync::atomic::AtomicBool::new(false);
    let mut out = vec![];
    let mut err = vec![];
    let mut timeout = false;
    let st = std::thread::scope(|s| {
        let done = &done;
        let killer = s.spawn(move || {
            let t0 = std::time::Instant::now();
            while !done.load(std::sync::atomic::Ordering::SeqCst) {
                std::thread::park_timeout(std::time::Duration::from_secs(2));
                if t0.elapsed().as_secs() > wall_s && !done.load(std::sync::atomic::Ordering::SeqCst) {
                    unsafe { libc::kill(-pid, libc::SIGKILL) };
                    return true;
                }
            }
            false
        });
        let e = s.spawn(|| {
            let _ = se.read_to_end(&mut err);
        });
        let _ = so.read_to_end(&mut out);
        let _ = e.join();
        let st = ch.wait();
        done.store(true, std::sync::atomic::Ordering::SeqCst);
        killer.thread().unpark();
        timeout = killer.join().unwrap_or(false);
        st
    });
    let st = st.ok();
    Ran {
        out,
        err: String::from_utf8_lossy(&err).to_string(),
        code: st.and_then(|s| s.code()),
        signal: st.and_then(|s| s.signal()),
        timeout,
    }
}
fn cmd(prog: &str, args: &[&str]) -> Command {
    let mut c = Command::new(prog);
    c.args(args).env("LC_ALL", "C");
    c
}

/// what a run reported
pub struct Answer {
    pub maps: Vec<(u64, u64, String, String)>,
    pub ehdr: u64,
    pub root: u64,
    pub stack: u64,
    pub tables: Vec<u64>,
    /// per unit, per slot
    pub ptr: Vec<Vec<u64>>,
    pub before: Vec<Vec<Vec<u8>>>,
    pub results: Vec<u64>,
    pub after: Vec<Vec<Vec<u8>>>,
}
pub fn answer(w: &World, salt: u64, b: &[u8]) -> Result<Answer, String> {
    let mut at = 0usize;
    let mut num = |what: &str| -> Result<u64, String> {
        let r = b.get(at..at + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap()));
        at += 8;
        r.ok_or_else(|| format!("the run ends before {}", what))
    };
    if num("the start")? != 0x464d4f4e {
        return Err("bad start".into());
    }
    let n = num("the memory map")? as usize;
    let text = String::from_utf8_lossy(b.get(at..at + n).ok_or("short map")?).to_string();
    at += n;
    let mut num = |at: &mut usize, what: &dyn Fn() -> String| -> Result<u64, String> {
        let r = b.get(*at..*at + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap()));
        *at += 8;
        r.ok_or_else(|| format!("the run ends before {}", what()))
    };
    let mut a = Answer {
        maps: vec![],
        ehdr: num(&mut at, &|| "the header address".into())?,
        root: num(&mut at, &|| "the root".into())?,
        stack: num(&mut at, &|| "the stack".into())?,
        tables: vec![],
        ptr: vec![],
        before: vec![],
        results: vec![],
        after: vec![],
    };
    for l in text.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if let Some((lo, hi)) = f.first().and_then(|r| r.split_once('-')) {
            let h = |s| u64::from_str_radix(s, 16).unwrap_or(0);
            a.maps.push((h(lo), h(hi), f.get(1).unwrap_or(&"").to_string(), f.get(5).unwrap_or(&"").to_string()));
        }
    }
    for pass in 0..2 {
        for (u, t) in w.tables.iter().enumerate() {
            if pass == 0 {
                let v = num(&mut at, &|| format!("the table of unit {}", u))?;
                a.tables.push(v);
                a.ptr.push(vec![]);
                a.before.push(vec![]);
            } else {
                a.after.push(vec![]);
            }
            for s in w.objs[*t].slots() {
                let what = || format!("the pointer to {}", nm(&w.objs[s.to].name));
                let v = num(&mut at, &what)?;
                let n = dump_len(w, s.to, salt);
                let d = b.get(at..at + n).ok_or_else(|| format!("the run ends in the memory of {} at {:#x}", nm(&w.objs[s.to].name), v))?;
                at += n;
                if pass == 0 {
                    a.ptr[u].push(v);
                    a.before[u].push(d.to_vec());
                } else {
                    a.after[u].push(d.to_vec());
                }
            }
        }
        if pass == 0 {
            if num(&mut at, &|| "the calls".into())? != 0x50524f42 {
                return Err("bad marker".into());
            }
            for p in probe_list(w) {
                let v = num(&mut at, &|| format!("the return of {} (unit {})", nm(&w.objs[p.f].name), p.unit))?;
                a.results.push(v);
            }
            if num(&mut at, &|| "the final dump".into())? != 0x41465452 {
                return Err("bad marker".into());
            }
        }
    }
    if num(&mut at, &|| "the end".into())? != 0x454e44 {
        return Err("bad end".into());
    }
    Ok(a)
}

#[derive(Clone, Copy)]
pub struct View {
    /// properties to blame
    pub tags: Props,
    /// read-only data must not be executable
    pub rodata_nx: bool,
    /// mapped protections are meaningful
    pub perms: bool,
    /// read-only data must not be writable
    pub rodata_ro: bool,
}

/// Judge one run against the world's meaning. Returns object addresses.
pub fn judge_run(w: &World, salt: u64, a: &Answer, v: View, what: &str, l: &mut Log) -> Vec<u64> {
    let tags = v.tags;
    let mut fail = |l: &mut Log, sig: &'static str, m: String| l.fail(tags, sig, format!("{}: {}", what, m));
    let mut addr = vec![0u64; w.objs.len()];
    addr[w.root] = a.root;
    for (u, t) in w.tables.iter().enumerate() {
        addr[*t] = a.tables[u];
        for (k, s) in w.objs[*t].slots().iter().enumerate() {
            addr[s.to] = a.ptr[u][k];
        }
    }
    let desc = |o: usize| format!("{} of unit {}", nm(&w.objs[o].name), w.objs[o].unit);
    // a beaten weak definition: its own unit's pointer may reach either
    for (o, x) in w.objs.iter().enumerate() {
        if let Some(b) = x.beaten_by {
            if addr[o] == addr[b] {
                addr[o] = 0;
            }
        }
    }
    let live = |o: usize| addr[o] != 0;
    let mut codes: Vec<Option<Code>> = vec![];
    for (o, x) in w.objs.iter().enumerate() {
        codes.push(if x.is_func() && x.unit < w.units { Some(code(w, o, salt)) } else { None });
    }
    let len = |o: usize| -> u64 {
        match &codes[o] {
            Some(c) => c.bytes.len() as u64,
            None => w.objs[o].size() as u64,
        }
    };
    // placement: alignment, extents apart
    let mut spans = vec![];
    for (o, x) in w.objs.iter().enumerate() {
        if !live(o) || x.unit == w.units {
            continue;
        }
        if let Some(al) = x.al {
            if addr[o] % al != 0 {
                fail(l, "run.align", format!("{} at {:#x} is not aligned to {}", desc(o), addr[o], al));
            }
            l.saw("run-time alignments", 1);
        }
        if len(o) > 0 && !x.string() {
            spans.push((addr[o], addr[o] + len(o), o));
        }
    }
    spans.sort();
    for p in spans.windows(2) {
        if p[1].0 < p[0].1 {
            fail(
                l,
                "run.overlap",
                format!("{} [{:#x}..{:#x}) overlaps {} at {:#x}", desc(p[0].2), p[0].0, p[0].1, desc(p[1].2), p[1].0),
            );
        }
    }
    l.saw("run-time extents", spans.len() as u64);
    // permissions
    if v.perms {
        for (o, x) in w.objs.iter().enumerate() {
            if !live(o) || len(o) == 0 || x.unit == w.units {
                continue;
            }
            for at in [addr[o], addr[o] + len(o) - 1] {
                let m = match a.maps.iter().find(|m| m.0 <= at && at < m.1) {
                    Some(m) => m,
                    None => {
                        fail(l, "run.unmapped", format!("{} at {:#x} is not mapped", desc(o), at));
                        continue;
                    }
                };
                let (wr, ex) = (m.2.contains('w'), m.2.contains('x'));
                let bad = if x.is_func() {
                    !ex || wr
                } else if x.writable() {
                    !wr || ex
                } else {
                    // tables of pointers relocated at load time may sit anywhere readable
                    (wr && v.rodata_ro) || (ex && v.rodata_nx)
                };
                if bad {
                    fail(l, "run.perm", format!("{} ({:?}...) is mapped {}", desc(o), kind_of(x), m.2));
                }
                l.saw("run-time permissions", 1);
            }
        }
        match a.maps.iter().find(|m| m.0 <= a.stack && a.stack < m.1) {
            Some(m) if m.2.contains('x') => fail(l, "run.stack", format!("the stack is mapped {}", m.2)),
            _ => {}
        }
    }
    // memory, before and after
    let mut mach = Machine::new(w);
    let pl = probe_list(w);
    for pass in 0..2 {
        for (u, t) in w.tables.iter().enumerate() {
            for (k, s) in w.objs[*t].slots().iter().enumerate() {
                let o = s.to;
                if !live(o) || w.objs[o].beaten_by.is_some() {
                    continue;
                }
                let x = &w.objs[o];
                let got = if pass == 0 { &a.before[u][k] } else { &a.after[u][k] };
                let mut mask = vec![true; got.len()];
                match &codes[o] {
                    Some(c) => {
                        for (at, to, _) in &c.links {
                            mask[*at..*at + 4].fill(false);
                            let _ = to;
                        }
                        for at in &c.soft {
                            mask[*at] = false;
                        }
                        if let Some(i) = (0..got.len()).find(|i| mask[*i] && got[*i] != c.bytes[*i]) {
                            fail(l, "run.code", format!("code of {} differs at byte {}: {:#x} instead of {:#x}", desc(o), i, got[i], c.bytes[i]));
                        }
                    }
                    None if x.is_func() => {}
                    None => {
                        for s in x.slots() {
                            mask[s.off..s.off + 8].fill(false);
                            let have = u64::from_le_bytes(got[s.off..s.off + 8].try_into().unwrap());
                            if !live(s.to) {
                                continue;
                            }
                            let want = addr[s.to].wrapping_add(s.add as u64);
                            if have != want {
                                fail(
                                    l,
                                    "run.pointer",
                                    format!(
                                        "pointer in {} at {:#x} is {:#x}; linked to {} ({:#x}) plus {}",
                                        desc(o),
                                        s.off,
                                        have,
                                        desc(s.to),
                                        addr[s.to],
                                        s.add
                                    ),
                                );
                            }
                            l.saw("run-time pointers", 1);
                        }
                        let want = &mach.mem[o];
                        if let Some(i) = (0..got.len()).find(|i| mask[*i] && got[*i] != want[*i]) {
                            fail(
                                l,
                                "run.memory",
                                format!(
                                    "memory of {} {} differs at byte {}: {:#x} instead of {:#x}",
                                    desc(o),
                                    ["initially", "after the calls"][pass],
                                    i,
                                    got[i],
                                    want[i]
                                ),
                            );
                        }
                    }
                }
                l.saw("memory bytes compared", got.len() as u64);
            }
        }
        if pass == 0 {
            for (i, p) in pl.iter().enumerate() {
                let want = mach.call(p.f).unwrap_or(0);
                if a.results[i] != want {
                    fail(l, "run.result", format!("{} returned {:#x} instead of {:#x}", desc(p.f), a.results[i], want));
                }
                l.saw("calls executed", 1);
            }
            l.saw("program steps", mach.steps);
        }
    }
    addr
}
fn kind_of(x: &Obj) -> &'static str {
    match &x.body {
        Body::Func { .. } => "function",
        Body::Blob { wr: true, .. } => "writable data",
        Body::Blob { .. } => "read-only data",
        Body::Zero { .. } => "zero-initialised data",
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Static,
    NoPie,
    Pie,
    Partial,
    Archive,
    Gc,
    Shared,
}
const MODES: [Mode; 7] = [Mode::Static, Mode::NoPie, Mode::Pie, Mode::Partial, Mode::Archive, Mode::Gc, Mode::Shared];
const LINKERS: [&str; 3] = ["bfd", "gold", "lld"];

fn gcc_link(linker: &str, mode: Mode) -> Vec<String> {
    let mut v: Vec<String> = vec![
        format!("-fuse-ld={}", linker),
        "-B/usr/lib/llvm-18/bin".into(),
        "-Wl,--fatal-warnings".into(),
        "-Wl,-z,text".into(),
    ];
    match mode {
        Mode::Static => v.push("-static".into()),
        Mode::NoPie | Mode::Archive => v.push("-no-pie".into()),
        _ => v.push("-pie".into()),
    }
    if mode == Mode::Gc {
        v.push("-Wl,--gc-sections".into());
    }
    if mode == Mode::Shared {
        v.push("-rdynamic".into());
    }
    v
}
fn pic(m: Mode) -> bool {
    !matches!(m, Mode::Static | Mode::NoPie | Mode::Archive)
}
/// Build one program. Err(tool output) when a step fails.
fn build(dir: &str, linker: &str, mode: Mode, exe: &[String], so: &[String], driver: &str) -> Result<String, String> {
    let go = |prog: &str, args: &[String]| -> Result<(), String> {
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let r = run_cmd(cmd(prog, &a), 60, false);
        if r.code == Some(0) {
            Ok(())
        } else if r.timeout || r.code.is_none() {
            Err(format!("TOOL {} ended abnormally: {:?} {}", prog, r.signal, r.err))
        } else {
            Err(format!("{} {}: {}", prog, args.join(" "), r.err))
        }
    };
    let out = format!("{}/prog", dir);
    let mut args = gcc_link(linker, mode);
    args.push("-o".into());
    args.push(out.clone());
    args.push(driver.into());
    match mode {
        Mode::Partial => {
            let part = format!("{}/part.o", dir);
            let ld = match linker {
                "lld" => "/usr/lib/llvm-18/bin/ld.lld".to_string(),
                l => format!("/usr/bin/ld.{}", l),
            };
            let mut a: Vec<String> = vec!["-r".into(), "-o".into(), part.clone()];
            a.extend(exe.iter().cloned());
            go(&ld, &a)?;
            args.push(part);
        }
        Mode::Archive => {
            let ar = format!("{}/lib.a", dir);
            let mut a: Vec<String> = vec!["rcs".into(), ar.clone()];
            a.extend(exe.iter().cloned());
            go("ar", &a)?;
            args.push(ar);
        }
        _ => args.extend(exe.iter().cloned()),
    }
    if mode == Mode::Shared {
        let lib = format!("{}/libfm.so", dir);
        let mut a: Vec<String> = vec![
            format!("-fuse-ld={}", linker),
            "-B/usr/lib/llvm-18/bin".into(),
            "-Wl,--fatal-warnings".into(),
            "-Wl,-z,text".into(),
            "-shared".into(),
            "-o".into(),
            lib.clone(),
        ];
        a.extend(so.iter().cloned());
        go("gcc", &a)?;
        args.push(lib);
        args.push(format!("-Wl,-rpath,{}", dir));
    }
    go("gcc", &args)?;
    Ok(out)
}

/// find a section of a linked 64-bit ELF file
fn exe_section<'a>(b: &'a [u8], name: &str) -> Option<&'a [u8]> {
    let g = |o: usize, n: usize| -> Option<usize> {
        b.get(o..o + n).map(|x| x.iter().rev().fold(0usize, |a, v| a << 8 | *v as usize))
    };
    let shoff = g(40, 8)?;
    let n = g(60, 2)?;
    let sx = g(62, 2)?;
    let so = g(shoff + sx * 64 + 24, 8)?;
    for i in 0..n {
        let s = shoff + i * 64;
        let nm = so + g(s, 4)?;
        let e = b[nm..].iter().position(|x| *x == 0)? + nm;
        if &b[nm..e] == name.as_bytes() {
            let off = g(s + 24, 8)?;
            return b.get(off..off + g(s + 32, 8)?);
        }
    }
    None
}

pub fn linked(c: &mut Camp) {
    let tmp = scratch();
    // the drivers, and which linker handles which mode without any emitted object
    let d = tmp.path.clone();
    std::fs::write(format!("{}/driver.c", d), include_str!("driver.c")).expect("scratch");
    std::fs::write(format!("{}/root.c", d), "unsigned char fm_root[8];\n").expect("scratch");
    std::fs::write(format!("{}/leaf.c", d), "int fm_leaf;\n").expect("scratch");
    let mut tools = vec![];
    for (src, o, f) in [
        ("driver", "driver_pic.o", "-fPIE"),
        ("driver", "driver_abs.o", "-fno-pie"),
        ("root", "root.o", "-fPIC"),
        ("leaf", "leaf.o", "-fPIC"),
    ] {
        let r = run_cmd(cmd("gcc", &["-O1", "-c", f, "-o", &format!("{}/{}", d, o), &format!("{}/{}.c", d, src)]), 60, false);
        if r.code != Some(0) {
            c.inconclusive.push(format!("gcc does not compile the driver: {}", r.err));
            return;
        }
    }
    let driver = |m: Mode| format!("{}/driver_{}.o", d, if pic(m) { "pic" } else { "abs" });
    for m in MODES {
        for (i, ld) in LINKERS.iter().enumerate() {
            let sub = format!("{}/t{}{:?}", d, i, m);
            std::fs::create_dir_all(&sub).expect("scratch");
            let r = build(&sub, ld, m, &[format!("{}/root.o", d)], &[format!("{}/leaf.o", d)], &driver(m));
            match r {
                Ok(_) => tools.push((m, *ld)),
                Err(e) => c.st.add(&format!("not usable here: {} {:?} ({})", ld, m, crate::exec::trunc(&e, 200)), 1),
            }
            let _ = std::fs::remove_dir_all(&sub);
        }
    }
    if tools.is_empty() {
        c.inconclusive.push("no usable linker".into());
        return;
    }
    let n = c.n(1500, 60_000);
    let (tools, d, driver) = (&tools, &d, &driver);
    c.cases(
        "linked-programs",
        "random programs of 1-4 emitted objects, half of them with a compiled C companion, linked by bfd, gold or lld as static, fixed-address, PIE, partial (ld -r), archive, section-collected or shared-library programs and run as an unprivileged child; a fixed driver dumps addresses, memory map, memory and call results, judged against an interpreter of the program; non-trivial: the program calls or loads something across a link",
        n,
        &|_, _| Hist { triple: X64.into(), name: "t.o".into(), lib: false, ops: vec![] },
        &|_, seed, st| guard(|| linked_case(seed, st, tools, d, driver)),
    );
}

fn linked_case(seed: u64, st: &mut Stats, tools: &[(Mode, &'static str)], d: &str, driver: &(dyn Fn(Mode) -> String + Sync)) -> Log {
    let mut l = Log::default();
    let mut r = Rng::new(seed ^ 23);
    let (mode, linker) = *r.pick(tools);
    let cfg = Cfg {
        mach: false,
        pic: pic(mode),
        comp: r.pct(50),
        host: false,
        shared: mode == Mode::Shared,
        weak_dups: !matches!(mode, Mode::Shared | Mode::Archive),
        max_align: 12,
    };
    let w = gen(&mut r, &cfg);
    let salt = r.u64();
    let dir = format!("{}/c{:016x}", d, seed);
    std::fs::create_dir_all(&dir).expect("scratch");
    // emit
    let (mut exe, mut so) = (vec![], vec![]);
    let mut nlinks = 0;
    for u in 0..w.units {
        let ops = unit_ops(&w, u, salt);
        let h = Hist { triple: X64.into(), name: format!("unit{}.o", u), lib: hash_bytes(ops.iter().map(|o| o.text()).collect::<String>().as_bytes()) % 4 == 0, ops };
        let mut a = h.artifact();
        for o in &h.ops {
            nlinks += matches!(o, Op::Link(..) | Op::LinkWith(..)) as u64;
            let x = o.run(&mut a);
            if x != Out::Ok {
                l.fail(p!(23, 3, 6), "run.refused", format!("{}: legal call refused: {:?}", o.text(), x));
            }
        }
        let b = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.emit())) {
            Ok(Ok(b)) => b,
            other => {
                l.fail(p!(23, 26), "run.emit", format!("a complete artifact is not emitted: {:?}", other.map(|x| x.err()).ok()));
                let _ = std::fs::remove_dir_all(&dir);
                return l;
            }
        };
        let path = format!("{}/unit{}.o", dir, u);
        std::fs::write(&path, b).expect("scratch");
        if w.in_so[u] { &mut so } else { &mut exe }.push(path);
    }
    if w.comp {
        let src = format!("{}/comp.c", dir);
        let obj = format!("{}/comp.o", dir);
        std::fs::write(&src, c_text(&w)).expect("scratch");
        let f = if cfg.pic { "-fPIC" } else { "-fno-pie" };
        let rr = run_cmd(cmd("gcc", &["-O1", "-w", "-fno-builtin", f, "-c", "-o", &obj, &src]), 60, false);
        if rr.code != Some(0) {
            panic!("companion does not compile: {}", rr.err);
        }
        exe.push(obj);
    }
    let what = format!("{} {:?}", linker, mode);
    match build(&dir, linker, mode, &exe, &so, &driver(mode)) {
        Err(e) if e.starts_with("TOOL") => st.add("link steps without an answer", 1),
        Err(e) => l.fail(p!(23), "run.link", format!("{}: does not link: {}", what, e)),
        Ok(out) => {
            let req = format!("{}/request", dir);
            std::fs::write(&req, request(&w, salt)).expect("scratch");
            let rr = run_cmd(cmd(&out, &[&req]), 10, true);
            if rr.timeout {
                st.add("runs without an answer", 1);
            } else {
                match answer(&w, salt, &rr.out) {
                    Ok(a) if rr.code == Some(0) => {
                        let v = View { tags: p!(23), rodata_nx: linker == "lld", perms: true, rodata_ro: true };
                        let addr = judge_run(&w, salt, &a, v, &what, &mut l);
                        // debug references in the linked file
                        let file = std::fs::read(&out).unwrap_or_default();
                        // (linkers leave out what is empty)
                        for g in w.dbg.iter().filter(|g| !g.bytes.is_empty()) {
                            let base = if cfg.pic { a.ehdr } else { 0 };
                            let sec = match exe_section(&file, &g.name) {
                                Some(s) => s,
                                None => {
                                    l.fail(p!(23), "run.debug", format!("{}: section {} is gone", what, g.name));
                                    continue;
                                }
                            };
                            let mut rest: Vec<(usize, u8)> = g.bytes.iter().copied().enumerate().collect();
                            rest.retain(|(i, _)| !g.refs.iter().any(|f| (f.0..f.0 + f.1 as usize).contains(i)));
                            if sec.len() != g.bytes.len() || rest.iter().any(|(i, b)| sec[*i] != *b) {
                                l.fail(p!(23), "run.debug", format!("{}: contents of {} ({} bytes) changed", what, g.name, sec.len()));
                            }
                            for (at, wd, to, add) in &g.refs {
                                let wd = *wd as usize;
                                let want = addr[*to].wrapping_sub(base).wrapping_add(*add as u64);
                                let got = sec.get(*at..at + wd).map(|x| x.iter().rev().fold(0u64, |a, v| a << 8 | *v as u64));
                                if got != Some(want) {
                                    l.fail(
                                        p!(23),
                                        "run.debug",
                                        format!("{}: {} at {:#x} is {:x?} instead of {:#x}", what, g.name, at, got, want),
                                    );
                                }
                                l.saw("debug references resolved", 1);
                            }
                        }
                        l.saw("programs run", 1);
                    }
                    other => {
                        l.fail(
                            p!(23),
                            "run.dies",
                            format!("{}: the program ends with {:?}/signal {:?}: {}", what, rr.code, rr.signal, other.err().unwrap_or_default()),
                        );
                    }
                }
            }
        }
    }
    st.add(&format!("programs {}", what), 1);
    if w.weak_dups {
        st.add("programs with competing weak definitions", 1);
    }
    if w.comp {
        st.add("programs with a C companion", 1);
    }
    if std::env::var_os("FMON_KEEP").is_none() {
        let _ = std::fs::remove_dir_all(&dir);
    }
    st.case(seed, nlinks > 2);
    l
}
