//! Linked Mach-O programs (C24): a small linker following the format's rules, and ld64.lld.
use crate::camp::*;
use crate::camps::{guard, scratch};
use crate::camps4::*;
use crate::macho::{self, *};
use crate::mon::*;
use crate::ops::*;
use crate::p;
use crate::prog::*;
use crate::rng::*;
use crate::targets::X64_MAC;
use std::collections::HashMap;
use std::process::Command;

/// a mapped range of a program image
pub struct Region {
    pub addr: u64,
    pub prot: u32, // 1 read 2 write 4 execute
    pub bytes: Vec<u8>,
    pub len: u64,
}
const LLD: &str = "/usr/lib/llvm-18/bin/ld64.lld";
const CLANG: &str = "/usr/lib/llvm-18/bin/clang";

// ------------------------------------------------------------------ the child that runs an image

/// Image file: count, then (addr, prot, len, nbytes, bytes)*, then root; run the request.
pub fn image_worker(img: &str, req: &str) -> i32 {
    let b = match std::fs::read(img) {
        Ok(b) => b,
        Err(_) => return 93,
    };
    let req: Vec<u64> = match std::fs::read(req) {
        Ok(b) => b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect(),
        Err(_) => return 93,
    };
    let mut at = 0;
    let mut num = |at: &mut usize| {
        let v = u64::from_le_bytes(b[*at..*at + 8].try_into().unwrap());
        *at += 8;
        v
    };
    let n = num(&mut at);
    let mut prots = vec![];
    for _ in 0..n {
        let (addr, prot, len, nb) = (num(&mut at), num(&mut at), num(&mut at), num(&mut at));
        let len = (len.max(1) + 4095) & !4095;
        unsafe {
            let p = libc::mmap(
                addr as *mut libc::c_void,
                len as usize,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            );
            if p as u64 != addr {
                return 95;
            }
            std::ptr::copy_nonoverlapping(b[at..].as_ptr(), addr as *mut u8, nb as usize);
        }
        at += nb as usize;
        prots.push((addr, len, prot));
    }
    let root = num(&mut at);
    for (a, l, p) in prots {
        unsafe {
            if libc::mprotect(a as *mut libc::c_void, l as usize, p as i32) != 0 {
                return 96;
            }
        }
    }
    let mut out: Vec<u8> = vec![];
    fn flush(out: &mut Vec<u8>) {
        use std::io::Write;
        let mut s = std::io::stdout().lock();
        if s.write_all(out).and_then(|_| s.flush()).is_err() {
            std::process::exit(90);
        }
        out.clear();
    }
    let put = |out: &mut Vec<u8>, v: u64| out.extend(v.to_le_bytes());
    put(&mut out, 0x464d4f4e);
    let maps = std::fs::read("/proc/self/maps").unwrap_or_default();
    put(&mut out, maps.len() as u64);
    out.extend(maps);
    put(&mut out, 0);
    put(&mut out, root);
    put(&mut out, &root as *const u64 as u64);
    flush(&mut out);
    // every read below is of the loaded program; a bad address ends this process
    let rd = |a: u64| unsafe { (a as *const u64).read_unaligned() };
    let walk = |out: &mut Vec<u8>, first: bool| -> usize {
        let mut q = 1;
        for u in 0..req[0] {
            let t = rd(root + 8 * u);
            if first {
                out.extend(t.to_le_bytes());
                flush(out);
            }
            let n = req[q];
            q += 1;
            for k in 0..n {
                let o = rd(t + 8 * k);
                out.extend(o.to_le_bytes());
                flush(out);
                let len = req[q] as usize;
                q += 1;
                unsafe {
                    let mut v = vec![0u8; len];
                    std::ptr::copy_nonoverlapping(o as *const u8, v.as_mut_ptr(), len);
                    out.extend(v);
                }
            }
        }
        flush(out);
        q
    };
    let mut q = walk(&mut out, true);
    put(&mut out, 0x50524f42);
    flush(&mut out);
    let np = req[q];
    q += 1;
    for _ in 0..np {
        let f = rd(rd(root + 8 * req[q]) + 8 * req[q + 1]);
        q += 2;
        let f: extern "C" fn() -> u64 = unsafe { std::mem::transmute(f as *const u8) };
        put(&mut out, f());
        flush(&mut out);
    }
    put(&mut out, 0x41465452);
    walk(&mut out, false);
    put(&mut out, 0x454e44);
    flush(&mut out);
    0
}
fn image_file(regions: &[Region], root: u64) -> Vec<u8> {
    let mut b = vec![];
    b.extend((regions.len() as u64).to_le_bytes());
    for r in regions {
        for v in [r.addr, r.prot as u64, r.len, r.bytes.len() as u64] {
            b.extend(v.to_le_bytes());
        }
        b.extend(&r.bytes);
    }
    b.extend(root.to_le_bytes());
    b
}

// ------------------------------------------------------------------ a linker by the book

/// Place the sections of the objects anywhere their alignment allows and resolve every relocation
/// by the rules of the format. `host` are symbols with fixed addresses.
fn link(objs: &[(Macho, &[u8])], host: &HashMap<String, u64>, r: &mut Rng, next: &mut u64) -> Result<(Vec<Region>, HashMap<String, u64>), String> {
    let mut regions: Vec<Region> = vec![];
    let mut place: Vec<Vec<u64>> = vec![];
    let mut whole: Vec<Vec<usize>> = vec![];
    for (m, b) in objs {
        let mut v = vec![];
        let mut w = vec![];
        for (i, s) in m.secs.iter().enumerate() {
            let al = 1u64 << s.align;
            let page = (*next + 0xffff) & !0xffff;
            let page = (page + al - 1) & !(al - 1);
            // no more alignment than asked for
            let shift = if al >= 4096 { al * r.below(2) as u64 } else { al * (r.below(4096 / al as usize) as u64 | 1) };
            let at = page + shift;
            let base = at & !4095;
            let mut bytes = vec![0xeeu8; (at - base) as usize];
            bytes.extend(macho::content(m, i, b));
            let prot = if s.flags & (ATTR_PURE | ATTR_SOME) != 0 {
                5
            } else if s.segname == "__TEXT" {
                1
            } else {
                3
            };
            let len = at - base + s.size;
            if !s.zerofill() {
                // nothing but what was asked for follows the section
                bytes.resize(((len + 4095) & !4095) as usize, 0xee);
            }
            *next = base + len + 4096;
            w.push(regions.len());
            regions.push(Region { addr: base, prot, bytes, len: len.max(1) });
            v.push(at);
        }
        place.push(v);
        whole.push(w);
    }
    // symbols: strong over weak, the first among weak
    let mut global: HashMap<String, (u64, bool)> = HashMap::new();
    let at = |k: usize, s: &Nl| -> u64 {
        let (m, _) = &objs[k];
        let x = s.sect as usize - 1;
        if x >= m.secs.len() {
            // a reader would not know where this is; nothing is there
            return 0;
        }
        place[k][x].wrapping_add(s.value.wrapping_sub(m.secs[x].addr))
    };
    for (k, (m, _)) in objs.iter().enumerate() {
        for s in &m.syms {
            if s.typ & 0xe == N_SECT && s.typ & N_EXT != 0 {
                let weak = s.desc & N_WEAK_DEF != 0;
                match global.get(&s.name) {
                    Some((_, true)) if !weak => {}
                    Some((_, _)) if weak => continue,
                    Some(_) => return Err(format!("duplicate symbol {}", s.name)),
                    None => {}
                }
                global.insert(s.name.clone(), (at(k, s), weak));
            }
        }
    }
    for (n, a) in host {
        match global.get(n) {
            Some((_, false)) => return Err(format!("duplicate symbol {}", n)),
            _ => {
                global.insert(n.clone(), (*a, false));
            }
        }
    }
    let got_page = (*next + 0xffff) & !0xffff;
    let mut got: HashMap<u64, u64> = HashMap::new();
    let mut got_bytes: Vec<u8> = vec![];
    for (k, (m, b)) in objs.iter().enumerate() {
        for (i, s) in m.secs.iter().enumerate() {
            let _ = b;
            for x in &s.relocs {
                if s.zerofill() {
                    return Err("relocation in a zero-fill section".into());
                }
                let w = 1usize << x.len;
                let reg = whole[k][i];
                let base = regions[reg].addr;
                let pos = (place[k][i] - base) as usize + x.addr as usize;
                if x.addr < 0 || x.addr as u64 + w as u64 > s.size {
                    return Err(format!("relocation at {:#x} outside section {}", x.addr, s.sectname));
                }
                let mut addend = regions[reg].bytes[pos..pos + w].iter().rev().fold(0u64, |a, v| a << 8 | *v as u64);
                if w == 4 {
                    addend = addend as u32 as i32 as i64 as u64;
                }
                let p = place[k][i] + x.addr as u64;
                let target = if x.ext {
                    let y = m.syms.get(x.sym as usize).ok_or("relocation against a symbol out of range")?;
                    if y.typ & 0xe == N_SECT {
                        if y.typ & N_EXT != 0 {
                            global[&y.name].0
                        } else {
                            at(k, y)
                        }
                    } else {
                        global.get(&y.name).ok_or_else(|| format!("undefined symbol {}", y.name))?.0
                    }
                } else {
                    // section-relative: the field holds an address of the object's own layout
                    let t = (x.sym as usize).checked_sub(1).filter(|t| *t < m.secs.len()).ok_or("relocation against section 0")?;
                    let d = place[k][t].wrapping_sub(m.secs[t].addr);
                    if x.pcrel {
                        d.wrapping_add(s.addr + x.addr as u64 + 4)
                    } else {
                        d
                    }
                };
                let val = match (x.typ, x.pcrel, w) {
                    (0, false, 8) => target.wrapping_add(addend),
                    (0, false, 4) => {
                        let v = target.wrapping_add(addend);
                        if v >> 32 != 0 {
                            return Err("32-bit absolute address out of range".into());
                        }
                        v
                    }
                    (1 | 2, true, 4) => target.wrapping_add(addend).wrapping_sub(p + 4),
                    (3 | 4, true, 4) => {
                        let slot = *got.entry(target).or_insert_with(|| {
                            got_bytes.extend(target.to_le_bytes());
                            got_page + got_bytes.len() as u64 - 8
                        });
                        slot.wrapping_add(addend).wrapping_sub(p + 4)
                    }
                    (t, c, w) => return Err(format!("relocation type {} pcrel {} width {}", t, c, w)),
                };
                if x.pcrel && val as i64 != val as i32 as i64 {
                    return Err("displacement out of range".into());
                }
                regions[reg].bytes[pos..pos + w].copy_from_slice(&val.to_le_bytes()[..w]);
            }
        }
    }
    if !got_bytes.is_empty() {
        regions.push(Region { addr: got_page, prot: 1, len: got_bytes.len() as u64, bytes: got_bytes });
    }
    Ok((regions, global.into_iter().map(|(k, v)| (k, v.0)).collect()))
}

/// Map a linked Mach-O executable at the addresses it was linked for.
fn executable(b: &[u8]) -> Result<(Vec<Region>, HashMap<String, u64>), String> {
    let g = |o: usize, n: usize| -> Result<u64, String> {
        b.get(o..o + n).map(|x| x.iter().rev().fold(0u64, |a, v| a << 8 | *v as u64)).ok_or_else(|| "short file".to_string())
    };
    if g(0, 4)? != 0xfeedfacf {
        return Err("no Mach-O magic".into());
    }
    let n = g(16, 4)?;
    let mut o = 32;
    let mut regions = vec![];
    let mut syms = HashMap::new();
    for _ in 0..n {
        let (c, sz) = (g(o, 4)?, g(o + 4, 4)? as usize);
        if c == 0x19 {
            let name = String::from_utf8_lossy(&b[o + 8..o + 24]).trim_end_matches('\0').to_string();
            let (va, vs, fo, fs) = (g(o + 24, 8)?, g(o + 32, 8)?, g(o + 40, 8)? as usize, g(o + 48, 8)? as usize);
            let prot = g(o + 60, 4)? as u32;
            if name != "__PAGEZERO" && vs > 0 {
                let bytes = b.get(fo..fo + fs).ok_or("segment outside the file")?.to_vec();
                regions.push(Region { addr: va, prot, bytes, len: vs });
            }
        } else if c == 2 {
            let (so, ns, st) = (g(o + 8, 4)? as usize, g(o + 12, 4)? as usize, g(o + 16, 4)? as usize);
            for i in 0..ns {
                let q = so + 16 * i;
                let x = st + g(q, 4)? as usize;
                let e = b.get(x..).and_then(|t| t.iter().position(|c| *c == 0)).ok_or("name")? + x;
                if g(q + 4, 1)? & N_EXT as u64 != 0 && g(q + 4, 1)? & 0xe0 == 0 {
                    syms.insert(String::from_utf8_lossy(&b[x..e]).to_string(), g(q + 8, 8)?);
                }
            }
        }
        o += sz;
    }
    Ok((regions, syms))
}

pub fn linked(c: &mut Camp) {
    let tmp = scratch();
    let d = tmp.path.clone();
    // is ld64.lld usable here?
    std::fs::write(format!("{}/t.c", d), "unsigned char fm_root[8]; int f(void){return 0;}\n").expect("scratch");
    let usable = |c: &mut Camp, what: &str, r: Ran| -> bool {
        if r.code != Some(0) {
            c.st.add(&format!("not usable here: {} ({})", what, crate::exec::trunc(&r.err, 200)), 1);
        }
        r.code == Some(0)
    };
    let clang = usable(c, "clang for darwin", clang_c(&format!("{}/t.c", d), &format!("{}/t.o", d)));
    let lld = clang && usable(c, "ld64.lld", lld_link(&[format!("{}/t.o", d)], &format!("{}/t", d)));
    let d = &d;
    let n = c.n(4000, 200_000);
    c.cases(
        "by-the-book",
        "random programs of 1-4 emitted Mach-O objects and host imports; an independent linker places every section at a random address that has just the alignment asked for, fills the gaps with junk, resolves relocations by the format's rules, and a child process maps and runs the image; addresses, memory and call results are judged against an interpreter of the program; non-trivial: the program has links",
        n,
        &|_, _| Hist { triple: X64_MAC.into(), name: "t.o".into(), lib: false, ops: vec![] },
        &|_, seed, st| guard(|| mach_case(seed, st, d, false)),
    );
    if lld {
        let n = c.n(1500, 60_000);
        c.cases(
            "ld64.lld",
            "the same kind of programs, half of them with a companion compiled by clang for darwin, linked by ld64.lld; the executable's segments are mapped at their addresses and run; judged in the same way, and the two linkers' resolutions of every reference are thereby compared",
            n,
            &|_, _| Hist { triple: X64_MAC.into(), name: "t.o".into(), lib: false, ops: vec![] },
            &|_, seed, st| guard(|| mach_case(seed, st, d, true)),
        );
    }
}
fn clang_c(src: &str, obj: &str) -> Ran {
    let mut c = Command::new(CLANG);
    c.args(["-target", "x86_64-apple-macos11", "-O1", "-w", "-ffreestanding", "-fno-builtin", "-fno-asynchronous-unwind-tables", "-fno-stack-protector", "-c", "-o", obj, src]);
    run_cmd(c, 60, false)
}
fn lld_link(objs: &[String], out: &str) -> Ran {
    let mut c = Command::new(LLD);
    c.args(["-arch", "x86_64", "-platform_version", "macos", "11.0", "11.0", "-no_fixup_chains", "-pagezero_size", "2000000000", "-e", "_fm_root", "-adhoc_codesign", "-o", out]);
    c.args(objs);
    run_cmd(c, 60, false)
}

fn mach_case(seed: u64, st: &mut Stats, d: &str, lld: bool) -> Log {
    let mut l = Log::default();
    let mut r = Rng::new(seed ^ 24);
    let cfg = Cfg { mach: true, pic: false, comp: r.pct(50), host: !lld, shared: false, weak_dups: true, max_align: if lld { 12 } else { 14 } };
    let w = gen(&mut r, &cfg);
    let salt = r.u64();
    let dir = format!("{}/c{:016x}", d, seed);
    std::fs::create_dir_all(&dir).expect("scratch");
    let clean = || {
        if std::env::var_os("FMON_KEEP").is_none() {
            let _ = std::fs::remove_dir_all(&dir);
        }
    };
    let mut objs = vec![];
    let mut nlinks = 0;
    for u in 0..w.units {
        let h = Hist { triple: X64_MAC.into(), name: format!("unit{}.o", u), lib: salt.rotate_left(7) % 4 == 0, ops: unit_ops(&w, u, salt) };
        let mut a = h.artifact();
        for o in &h.ops {
            nlinks += matches!(o, Op::Link(..) | Op::LinkWith(..)) as u64;
            let x = o.run(&mut a);
            if x != Out::Ok {
                l.fail(p!(24, 3, 6), "run.refused", format!("{}: legal call refused: {:?}", o.text(), x));
            }
        }
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.emit())) {
            Ok(Ok(b)) => objs.push(b),
            other => {
                l.fail(p!(24, 26), "run.emit", format!("a complete artifact is not emitted: {:?}", other.map(|x| x.err()).ok()));
                clean();
                return l;
            }
        }
    }
    let what = if lld { "ld64.lld" } else { "by the book" };
    let linked = if lld {
        let mut files = vec![];
        for (u, b) in objs.iter().enumerate() {
            let f = format!("{}/unit{}.o", dir, u);
            std::fs::write(&f, b).expect("scratch");
            files.push(f);
        }
        if w.comp {
            let src = format!("{}/comp.c", dir);
            let obj = format!("{}/comp.o", dir);
            std::fs::write(&src, c_text(&w)).expect("scratch");
            let rr = clang_c(&src, &obj);
            if rr.code != Some(0) {
                panic!("companion does not compile: {}", rr.err);
            }
            files.push(obj);
        }
        let out = format!("{}/prog", dir);
        let rr = lld_link(&files, &out);
        if rr.timeout || rr.code.is_none() && rr.signal == Some(libc::SIGKILL) {
            st.add("link steps without an answer", 1);
            clean();
            return l;
        }
        if rr.code != Some(0) || !rr.err.is_empty() {
            Err(format!("ld64.lld: {:?} {}", rr.code, rr.err))
        } else {
            executable(&std::fs::read(&out).expect("linked file"))
        }
    } else {
        let mut next = 0x10_0000_0000u64 + ((r.below(1 << 20) as u64) << 16);
        let parsed: Result<Vec<_>, String> = objs.iter().map(|b| macho::parse(b).map(|m| (m, &b[..]))).collect();
        match parsed {
            Err(e) => Err(e),
            Ok(v) => {
                let mut hr = vec![];
                let mut host = HashMap::new();
                if w.comp {
                    host_unit(&w, &mut next, &mut hr, &mut host);
                }
                link(&v, &host, &mut r, &mut next).map(|(mut rg, sy)| {
                    // the host's own pointers
                    for (o, x) in w.objs.iter().enumerate().filter(|x| x.1.unit == w.units) {
                        let _ = o;
                        for s in x.slots() {
                            let a = host[&format!("_{}", x.name)] + s.off as u64;
                            let v = sy.get(&format!("_{}", w.objs[s.to].name)).copied().unwrap_or(0).wrapping_add(s.add as u64);
                            if let Some(g) = hr.iter_mut().find(|g: &&mut Region| g.addr <= a && a + 8 <= g.addr + g.bytes.len() as u64) {
                                let p = (a - g.addr) as usize;
                                g.bytes[p..p + 8].copy_from_slice(&v.to_le_bytes());
                            }
                        }
                    }
                    rg.append(&mut hr);
                    (rg, sy)
                })
            }
        }
    };
    match linked {
        Err(e) => l.fail(p!(24), "run.link", format!("{}: does not link: {}", what, e)),
        Ok((regions, syms)) => match syms.get("_fm_root") {
            None => l.fail(p!(24), "run.link", format!("{}: no root symbol", what)),
            Some(root) => {
                let (img, req) = (format!("{}/image", dir), format!("{}/request", dir));
                std::fs::write(&img, image_file(&regions, *root)).expect("scratch");
                std::fs::write(&req, request(&w, salt)).expect("scratch");
                let mut c = Command::new(std::env::current_exe().expect("exe"));
                c.args(["--image", &img, &req]);
                let rr = run_cmd(c, 10, true);
                if rr.timeout || rr.code == Some(95) || rr.code == Some(126) {
                    st.add("runs without an answer", 1);
                } else {
                    match answer(&w, salt, &rr.out) {
                        Ok(a) if rr.code == Some(0) => {
                            let v = View { tags: p!(24), rodata_nx: false, perms: true, rodata_ro: false };
                            judge_run(&w, salt, &a, v, what, &mut l);
                            l.saw("programs run", 1);
                        }
                        other => l.fail(
                            p!(24),
                            "run.dies",
                            format!("{}: the program ends with {:?}/signal {:?}: {}", what, rr.code, rr.signal, other.err().unwrap_or_default()),
                        ),
                    }
                }
            }
        },
    }
    st.add(&format!("programs {}", what), 1);
    clean();
    st.case(seed, nlinks > 2);
    l
}

/// lay out the host's functions and data
fn host_unit(w: &World, next: &mut u64, regions: &mut Vec<Region>, syms: &mut HashMap<String, u64>) {
    for func in [true, false] {
        let base = (*next + 0xffff) & !0xffff;
        let mut bytes = vec![];
        for x in w.objs.iter().filter(|x| x.unit == w.units && x.is_func() == func) {
            while bytes.len() % 16 != 0 {
                bytes.push(0xcc);
            }
            syms.insert(format!("_{}", x.name), base + bytes.len() as u64);
            match &x.body {
                Body::Func { seed, .. } => {
                    bytes.extend([0x48, 0xb8]);
                    bytes.extend(seed.to_le_bytes());
                    bytes.push(0xc3);
                }
                Body::Blob { bytes: b, .. } => bytes.extend(b),
                Body::Zero { size, .. } => bytes.resize(bytes.len() + size, 0),
            }
            bytes.push(0xcc);
        }
        *next = base + bytes.len() as u64 + 4096;
        regions.push(Region { addr: base, prot: if func { 5 } else { 3 }, len: bytes.len().max(1) as u64, bytes });
    }
}
