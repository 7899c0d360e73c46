//! Monitor for emitted Mach-O objects.
use crate::macho::{self, *};
use crate::model::*;
use crate::mon::*;
use crate::mon_elf::Ctx;
use crate::ops::*;
use crate::p;
use std::collections::{HashMap, HashSet};

fn auto_rel(from: &D, to: &D) -> Option<(u8, bool, u8)> {
    // (type, pcrel, length)
    Some(match (from, to) {
        (D::Func { .. }, D::Func { .. }) | (D::Func { .. }, D::ImpF) => (2, true, 2),
        (D::Func { .. }, D::Data { .. }) => (1, true, 2),
        (D::Func { .. }, D::ImpD) => (3, true, 2),
        (D::Data { .. }, t) if !t.is_sect() => (0, false, 3),
        _ => return None,
    })
}
pub fn mapped(n: &str) -> String {
    match n.strip_prefix(".debug") {
        Some(r) => format!("__debug{}", r),
        None => n.to_string(),
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum K {
    Text,
    Data,
    Cstr,
    Bss,
}
fn kind(d: &D, p: &Pay) -> K {
    match d {
        D::Func { .. } => K::Text,
        D::Data { .. } if p.is_zero() => K::Bss,
        D::Data { st: true, wr: false, .. } => K::Cstr,
        _ => K::Data,
    }
}

pub fn check(c: &Ctx, b: &[u8], log: &mut Log) {
    let m = c.m;
    let o = match macho::parse(b) {
        Ok(o) => o,
        Err(x) => {
            log.fail(MACH_ALL | p!(14, 26), "mach.parse", format!("emitted Mach-O object cannot be read: {}", x));
            return;
        }
    };
    for s in macho::structure(&o, b) {
        let mut t = p!(15);
        if s.contains("relocation in") {
            t |= p!(19);
        }
        if s.contains("overlap in the address space") || s.contains("address range") {
            t |= p!(16);
        }
        log.fail(t, "mach.structure", format!("Mach-O structure: {}", s));
    }
    if Some(o.cputype) != c.tgt.cpu {
        log.fail(p!(14), "mach.cpu", format!("{}: cputype {:#x} instead of {:x?}", c.tgt.triple, o.cputype, c.tgt.cpu));
    }
    if c.tgt.em == 62 && (o.cpusub != 3 || o.flags != 0x2000) {
        log.fail(p!(14, 15), "mach.sub", format!("cpusubtype {} flags {:#x}", o.cpusub, o.flags));
    }
    if c.tgt.is64.map_or(false, |w| w != o.is64) || c.tgt.le.map_or(false, |w| w != o.le) {
        log.fail(p!(14), "mach.magic", format!("{}: 64-bit {} little endian {}", c.tgt.triple, o.is64, o.le));
    }
    log.saw("headers", 1);
    // ---- sections
    let find = |sect: &str, seg: &str| -> Vec<usize> {
        (0..o.secs.len()).filter(|i| o.secs[*i].sectname == sect && o.secs[*i].segname == seg).collect()
    };
    let mut std_sec: HashMap<K, usize> = HashMap::new();
    let mut claimed: HashSet<usize> = HashSet::new();
    for (k, sect, seg, flags) in [
        (K::Text, "__text", "__TEXT", ATTR_PURE | ATTR_SOME),
        (K::Data, "__data", "__DATA", 0),
        (K::Cstr, "__cstring", "__TEXT", S_CSTRING),
        (K::Bss, "__bss", "__DATA", S_ZEROFILL),
    ] {
        let v = find(sect, seg);
        let need = m.defs().any(|(_, d, def)| !d.is_sect() && kind(d, &def.data) == k);
        if v.len() > 1 || (v.is_empty() && need) {
            log.fail(p!(15, 16), "mach.std.count", format!("{} sections {},{}", v.len(), seg, sect));
        }
        if let Some(i) = v.first() {
            std_sec.insert(k, *i);
            claimed.insert(*i);
            if o.secs[*i].flags != flags {
                log.fail(
                    p!(15, 16),
                    "mach.std.flags",
                    format!("section {},{} flags {:#x} instead of {:#x}", seg, sect, o.secs[*i].flags, flags),
                );
            }
        }
    }
    let mut custom: HashMap<&str, usize> = HashMap::new();
    let mut by_sect: HashMap<&str, Vec<usize>> = HashMap::new();
    for i in 0..o.secs.len() {
        if !claimed.contains(&i) {
            by_sect.entry(&o.secs[i].sectname).or_default().push(i);
        }
    }
    for (n, d, def) in m.defs().filter(|x| x.1.is_sect()) {
        let want = mapped(n);
        let k = match d {
            D::Sect { k, .. } => *k,
            _ => unreachable!(),
        };
        let seg = match k {
            Sk::Data => "__DATA",
            Sk::Debug => "__DWARF",
            Sk::Text => "__TEXT",
        };
        // two names can map to one section name (".debug_x" and "__debug_x"): tell them apart by contents
        let v: Vec<usize> = by_sect
            .get(want.as_str())
            .map(|v| v.iter().copied().filter(|i| !claimed.contains(i)).collect())
            .unwrap_or_default();
        let same = |i: &usize| Some(content(&o, *i, b)) == blob(&def.data);
        let pick = v
            .iter()
            .copied()
            .find(|i| o.secs[*i].segname == seg && same(i))
            .or_else(|| v.iter().copied().find(|i| o.secs[*i].segname == seg))
            .or_else(|| v.first().copied());
        let i = match pick {
            Some(i) => i,
            None => {
                log.fail(p!(20), "mach.custom.missing", format!("no section {} for custom section {}", nm(&want), nm(n)));
                continue;
            }
        };
        claimed.insert(i);
        custom.insert(n, i);
        let s = &o.secs[i];
        if s.segname != seg {
            log.fail(p!(20), "mach.custom.seg", format!("custom section {} in segment {}", nm(n), s.segname));
        }
        let wf = if k == Sk::Debug { ATTR_DEBUG } else { 0 };
        if s.flags != wf {
            log.fail(p!(20), "mach.custom.flags", format!("custom section {} flags {:#x}", nm(n), s.flags));
        }
        if Some(content(&o, i, b)) != blob(&def.data) {
            log.fail(
                p!(20, 16),
                "mach.custom.bytes",
                format!(
                    "contents of custom section {}: {} bytes defined, {} found{}",
                    nm(n),
                    def.data.mem_size(),
                    s.size,
                    if s.size == def.data.mem_size() { " (different)" } else { "" }
                ),
            );
        }
        log.saw("custom sections", 1);
    }
    for i in 0..o.secs.len() {
        if !claimed.contains(&i) {
            log.fail(
                p!(15, 16, 20),
                "mach.sec.extra",
                format!("section {},{} corresponds to nothing", o.secs[i].segname, nm(&o.secs[i].sectname)),
            );
        }
    }
    // ---- symbols
    let mut by_name: HashMap<&str, Vec<usize>> = HashMap::new();
    for (i, s) in o.syms.iter().enumerate() {
        by_name.entry(&s.name).or_default().push(i);
    }
    let mut expected: HashSet<String> = HashSet::new();
    let get = |n: &str, log: &mut Log, tags: Props| -> Option<usize> {
        let u = format!("_{}", n);
        let v = by_name.get(u.as_str()).map(|v| &v[..]).unwrap_or(&[]);
        if v.len() != 1 {
            log.fail(tags, "mach.sym.count", format!("{} symbols named _{}", v.len(), nm(n)));
        }
        v.first().copied()
    };
    let rtag = |n: &str| if c.redecl.contains(n) { p!(1) } else { 0 };
    // name -> (section index, offset in section)
    let mut place: HashMap<&str, (usize, u64)> = HashMap::new();
    let mut ext: Vec<(usize, u64, u64, &str)> = vec![];
    for (n, d, def) in m.defs() {
        if d.is_sect() {
            for (k, off) in &def.syms {
                expected.insert(format!("_{}", k));
                let i = match get(k, log, p!(17, 20)) {
                    Some(i) => i,
                    None => continue,
                };
                let s = &o.syms[i];
                if s.typ != N_SECT | N_EXT || s.desc != 0 {
                    log.fail(p!(17, 20), "mach.csym.type", format!("custom symbol {} type {:#x} desc {:#x}", nm(k), s.typ, s.desc));
                }
                if let Some(ci) = custom.get(n.as_str()) {
                    let want = o.secs[*ci].addr.wrapping_add(*off);
                    if s.sect as usize != ci + 1 || s.value != want {
                        log.fail(
                            p!(20),
                            "mach.csym.place",
                            format!(
                                "custom symbol {} at {} in {}: section {} value {:#x} instead of {} / {:#x}",
                                nm(k),
                                off,
                                nm(n),
                                s.sect,
                                s.value,
                                ci + 1,
                                want
                            ),
                        );
                    }
                }
                log.saw("custom symbols", 1);
            }
            if let Some(ci) = custom.get(n.as_str()) {
                place.insert(n, (*ci, 0));
                let a = d.align().unwrap_or(1);
                let s = &o.secs[*ci];
                if (1u64 << s.align.min(63)) < a || s.addr % a != 0 || s.addr % (1 << s.align.min(63)) != 0 {
                    log.fail(
                        p!(18),
                        "mach.custom.align",
                        format!("custom section {} aligned {} is at {:#x} with section alignment 2^{}", nm(n), a, s.addr, s.align),
                    );
                }
            }
            continue;
        }
        expected.insert(format!("_{}", n));
        let i = match get(n, log, p!(16, 17)) {
            Some(i) => i,
            None => continue,
        };
        let s = &o.syms[i];
        let (mut wt, mut wd) = (N_SECT, 0);
        if d.scope() != Sc::L {
            wt |= N_EXT;
            if d.vis() == Vi::H {
                wt |= N_PEXT;
            }
        }
        if d.scope() == Sc::W {
            wd |= N_WEAK_DEF;
        }
        if s.typ != wt || s.desc != wd {
            log.fail(
                p!(17) | rtag(n),
                "mach.sym.attr",
                format!("symbol {} ({:?}): type {:#x} desc {:#x} instead of {:#x} / {:#x}", nm(n), d, s.typ, s.desc, wt, wd),
            );
        }
        let k = kind(d, &def.data);
        let si = match std_sec.get(&k) {
            Some(i) => *i,
            None => continue,
        };
        let sec = &o.secs[si];
        if s.sect as usize != si + 1 {
            log.fail(p!(16, 17) | rtag(n), "mach.sym.sect", format!("{} ({:?}) is in section {} instead of {}", nm(n), d, s.sect, si + 1));
            continue;
        }
        let len = def.data.mem_size();
        let off = s.value.wrapping_sub(sec.addr);
        if s.value < sec.addr || off.checked_add(len).map_or(true, |x| x > sec.size) {
            log.fail(
                p!(16),
                "mach.sym.range",
                format!(
                    "{} ({:?}, {:#x} bytes) at {:#x} outside its section {:#x}+{:#x}",
                    nm(n),
                    k,
                    len,
                    s.value,
                    sec.addr,
                    sec.size
                ),
            );
            continue;
        }
        place.insert(n, (si, off));
        if len > 0 {
            ext.push((si, off, off + len, n));
        }
        if let Pay::Blob(want) = &def.data {
            if sec.zerofill() {
                log.fail(p!(16), "mach.sym.zerofill", format!("{} has contents but sits in zero-fill", nm(n)));
            } else {
                let got = &content(&o, si, b)[off as usize..(off + len) as usize];
                if got != &want[..] {
                    log.fail(
                        p!(16) | if c.refused.contains(n) { p!(3, 4) } else { 0 },
                        "mach.bytes",
                        format!(
                            "{} bytes at symbol {} differ from the definition at {:?}",
                            len,
                            nm(n),
                            got.iter().zip(want).position(|(a, b)| a != b)
                        ),
                    );
                }
                log.saw("content bytes", len);
            }
        }
        // C18
        let min: u64 = match k {
            K::Text => 16,
            K::Data => 8,
            _ => 1,
        };
        let a = d.align().unwrap_or(1).max(min);
        let sa = 1u64 << sec.align.min(63);
        if s.value % a != 0 || sa < a || sec.addr % sa != 0 {
            log.fail(
                p!(18) | rtag(n),
                "mach.align",
                format!(
                    "{} ({:?}) must be aligned to {}: address {:#x}, section at {:#x} aligned 2^{}",
                    nm(n),
                    d,
                    a,
                    s.value,
                    sec.addr,
                    sec.align
                ),
            );
        }
        log.saw("definition symbols", 1);
    }
    ext.sort();
    for w in ext.windows(2) {
        if w[0].0 == w[1].0 && w[0].2 > w[1].1 {
            log.fail(p!(16), "mach.overlap", format!("{} and {} share bytes", nm(w[0].3), nm(w[1].3)));
        }
    }
    // linkers cut this section into strings after each NUL: any other padding would belong to the
    // following string, whose address then is not where the string begins
    if let Some(si) = std_sec.get(&K::Cstr) {
        let bytes = content(&o, *si, b);
        let mut at = 0;
        let gap = |lo: u64, hi: u64, log: &mut Log| {
            if lo < hi && hi <= bytes.len() as u64 && bytes[lo as usize..hi as usize].iter().any(|x| *x != 0) {
                log.fail(p!(18, 15), "mach.cstr.pad", format!("padding {:#x}..{:#x} of the string section is not NUL", lo, hi));
            }
            log.saw("string gaps", (lo < hi) as u64);
        };
        for x in ext.iter().filter(|x| x.0 == *si) {
            gap(at, x.1, log);
            at = at.max(x.2);
        }
        gap(at, bytes.len() as u64, log);
    }
    for (n, _) in m.imports() {
        expected.insert(format!("_{}", n));
        let i = match get(&n, log, p!(2, 17)) {
            Some(i) => i,
            None => continue,
        };
        let s = &o.syms[i];
        if s.typ != N_EXT || s.sect != 0 || s.value != 0 || s.desc != 0 {
            log.fail(p!(2, 17), "mach.import", format!("import {}: {:?}", nm(&n), s));
        }
        log.saw("import symbols", 1);
    }
    for s in &o.syms {
        if !expected.contains(&s.name) {
            let un = s.name.strip_prefix('_').unwrap_or(&s.name);
            log.fail(
                p!(17) | if s.typ & 0xe == 0 { p!(2) } else { 0 } | if c.refused.contains(un) { p!(4) } else { 0 },
                "mach.sym.extra",
                format!("symbol {} belongs to nothing", nm(&s.name)),
            );
        }
    }
    // ---- relocations, per section in link order
    let mut want: HashMap<usize, Vec<(u64, u8, bool, u8, &str, &LinkM)>> = HashMap::new();
    let mut unplaced = false;
    for l in &m.links {
        let (fd, td) = (&m.ents[&l.from].decl, &m.ents[&l.to].decl);
        let (t, pc, len) = match l.rl {
            Rl::Auto => match auto_rel(fd, td) {
                Some(x) => x,
                None => continue,
            },
            Rl::Raw(0, _) => (0, false, 3),
            Rl::Raw(t, _) => (t as u8, true, 2),
            Rl::Debug(..) if td.is_sect() => continue,
            Rl::Debug(sz, _) => (0, false, if sz == 4 { 2 } else { 3 }),
        };
        match place.get(l.from.as_str()) {
            Some((si, off)) => want.entry(*si).or_default().push((off + l.at, t, pc, len, &l.to, l)),
            None => unplaced = true,
        }
    }
    if !unplaced {
        let none = vec![];
        for (si, s) in o.secs.iter().enumerate() {
            let w = want.get(&si).unwrap_or(&none);
            if w.len() != s.relocs.len() {
                log.fail(
                    p!(19, 6),
                    "mach.rel.count",
                    format!("section {}: {} links, {} relocations", nm(&s.sectname), w.len(), s.relocs.len()),
                );
                continue;
            }
            for (x, r) in w.iter().zip(&s.relocs) {
                let sym = o.syms.get(r.sym as usize).map(|s| s.name.as_str()).unwrap_or("?");
                if r.addr as u64 != x.0 {
                    log.fail(
                        p!(19, 6),
                        "mach.rel.addr",
                        format!("link {} -> {} at {:#x}: relocation at {:#x} of the section instead of {:#x}", nm(&x.5.from), nm(x.4), x.5.at, r.addr, x.0),
                    );
                }
                if (r.typ & 15, r.pcrel, r.len) != (x.1 & 15, x.2, x.3) {
                    log.fail(
                        p!(19) | rtag(&x.5.from) | rtag(x.4),
                        "mach.rel.type",
                        format!(
                            "link {} -> {} ({:?}): type {} pcrel {} length {} instead of {} / {} / {}",
                            nm(&x.5.from),
                            nm(x.4),
                            x.5.rl,
                            r.typ,
                            r.pcrel,
                            r.len,
                            x.1,
                            x.2,
                            x.3
                        ),
                    );
                }
                if !r.ext || sym.strip_prefix('_') != Some(x.4) {
                    log.fail(p!(19, 6), "mach.rel.sym", format!("link {} -> {}: against {}", nm(&x.5.from), nm(x.4), nm(sym)));
                }
            }
            log.saw("relocations", w.len() as u64);
        }
    }
    // ---- observed facts
    let mut rels: HashMap<&str, Vec<String>> = HashMap::new();
    for (si, s) in o.secs.iter().enumerate() {
        if s.relocs.is_empty() {
            continue;
        }
        // attribute each relocation to the definition whose extent holds it
        let mut spans: Vec<(u64, u64, &str)> = m
            .defs()
            .filter_map(|(n, _, def)| {
                place.get(n.as_str()).filter(|p| p.0 == si).map(|p| (p.1, p.1 + def.data.mem_size(), n.as_str()))
            })
            .collect();
        spans.sort();
        for r in &s.relocs {
            let a = r.addr as u64;
            let own = spans
                .iter()
                .rev()
                .skip(spans.len() - spans.partition_point(|x| x.0 <= a))
                .find(|x| x.1 > a);
            let (n, base) = own.map(|x| (x.2, x.0)).unwrap_or(("?", 0));
            let sym = o.syms.get(r.sym as usize).map(|s| s.name.as_str()).unwrap_or("?");
            rels.entry(n).or_default().push(format!("{:x} {} {} {} {}", a - base, r.typ, r.pcrel, r.len, sym));
        }
    }
    for (n, d, def) in m.defs() {
        let mut x = String::new();
        if let Some((si, off)) = place.get(n.as_str()) {
            let s = &o.secs[*si];
            let h = if s.zerofill() {
                def.data.mem_size()
            } else {
                let t = content(&o, *si, b);
                crate::rng::hash_bytes(&t[*off as usize..(*off + def.data.mem_size()).min(t.len() as u64) as usize])
            };
            let a = d.align().unwrap_or(1);
            x = format!("sec {},{} f{:x} h{:x} aligned {}", s.segname, s.sectname, s.flags, h, (s.addr + off) % a == 0);
        }
        if !d.is_sect() {
            if let Some(v) = by_name.get(format!("_{}", n).as_str()) {
                for i in v {
                    x.push_str(&format!(" sym {:x} {:x}", o.syms[*i].typ, o.syms[*i].desc));
                }
            }
        }
        if let Some(v) = rels.get(n.as_str()) {
            x.push_str(&format!(" rel {:?}", v));
        }
        log.obs.insert(format!("mach {}", n), x);
        for k in def.syms.keys() {
            if let (Some(v), Some(ci)) = (by_name.get(format!("_{}", k).as_str()), custom.get(n.as_str())) {
                let s = &o.syms[v[0]];
                log.obs.insert(
                    format!("machsym _{}", k),
                    format!("C {} {:x} {:x} {:x}", n, s.value.wrapping_sub(o.secs[*ci].addr), s.typ, s.desc),
                );
            }
        }
    }
    for s in &o.syms {
        if s.typ & 0xe == 0 {
            log.obs.insert(format!("machsym {}", s.name), format!("U {:x}", s.typ));
        }
    }
}
fn blob(p: &Pay) -> Option<&[u8]> {
    match p {
        Pay::Blob(b) => Some(b),
        _ => None,
    }
}
