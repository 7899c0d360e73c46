//! Monitor for emitted ELF objects: compares what an independent reader sees with the model.
use crate::elf::{self, *};
use crate::model::*;
use crate::mon::*;
use crate::ops::*;
use crate::p;
use crate::targets::Tgt;
use std::collections::{HashMap, HashSet};

#[derive(Default)]
pub struct ElfFacts {
    pub sections: usize,
    pub symbols: usize,
    pub relocs: usize,
}

pub struct Ctx<'a> {
    pub name: &'a str,
    pub tgt: &'a Tgt,
    pub m: &'a Model,
    /// names with more than one accepted declaration
    pub redecl: &'a HashSet<String>,
    /// names that some refused call mentioned
    pub refused: &'a HashSet<String>,
}

/// (type, addend) for an automatic link
fn auto_rel(from: &D, to: &D, is64: bool) -> Option<(u32, i64)> {
    Some(match (from, to) {
        (D::Func { .. }, D::Func { .. }) | (D::Func { .. }, D::ImpF) => (4, -4),
        (D::Func { .. }, D::Data { .. }) => (2, -4),
        (D::Func { .. }, D::ImpD) => (9, -4),
        (D::Data { .. }, t) if !t.is_sect() => (if is64 { 1 } else { 10 }, 0),
        _ => return None,
    })
}

pub fn check(c: &Ctx, b: &[u8], log: &mut Log) -> ElfFacts {
    let m = c.m;
    let e = match elf::parse(b) {
        Ok(e) => e,
        Err(x) => {
            log.fail(ELF_ALL | p!(26), "elf.parse", format!("emitted ELF object cannot be read: {}", x));
            return ElfFacts::default();
        }
    };
    for s in elf::structure(&e, b) {
        let mut t = p!(7);
        if s.contains("sh_info") {
            t |= p!(9);
        }
        if s.contains("relocation") {
            t |= p!(11);
        }
        if e.secs.len() >= 0xfe00 {
            t |= p!(13);
        }
        log.fail(t, "elf.structure", format!("ELF structure: {}", s));
    }
    // ---- header
    if e.machine != c.tgt.em {
        log.fail(p!(14), "elf.machine", format!("{}: e_machine {} instead of {}", c.tgt.triple, e.machine, c.tgt.em));
    }
    if c.tgt.is64.map_or(false, |w| w != e.is64) {
        log.fail(p!(14), "elf.class", format!("{}: 64-bit class {}", c.tgt.triple, e.is64));
    }
    if c.tgt.le.map_or(false, |w| w != e.le) {
        log.fail(p!(14), "elf.data", format!("{}: little endian {}", c.tgt.triple, e.le));
    }
    if c.tgt.em == 62 && e.raw.flags != 0 {
        log.fail(p!(7, 14), "elf.eflags", format!("e_flags {:#x}", e.raw.flags));
    }
    if b[7] != 0 || b[8] != 0 {
        log.fail(p!(7, 14), "elf.osabi", format!("EI_OSABI {} / ABI version {}", b[7], b[8]));
    }
    log.saw("headers", 1);

    // ---- symbols by name
    let mut by_name: HashMap<&str, Vec<usize>> = HashMap::new();
    let mut files = vec![];
    let mut secsyms: HashMap<u32, usize> = HashMap::new();
    for (i, s) in e.syms.iter().enumerate().skip(1) {
        match s.typ {
            4 => files.push(i),
            3 => {
                if secsyms.insert(s.sec, i).is_some() {
                    log.fail(p!(9), "elf.secsym.dup", format!("two section symbols for section {}", s.sec));
                }
                if s.bind != 0 || s.value != 0 || s.size != 0 || s.vis != 0 {
                    log.fail(p!(9, 11), "elf.secsym", format!("odd section symbol {:?}", s));
                }
            }
            _ => by_name.entry(&s.name).or_default().push(i),
        }
    }
    if files.len() != 1 || e.syms[files[0]].name != c.name {
        log.fail(
            p!(9, 27),
            "elf.file",
            format!(
                "file symbols {:?} for artifact {}",
                files.iter().map(|i| nm(&e.syms[*i].name)).collect::<Vec<_>>(),
                nm(c.name)
            ),
        );
    } else {
        let f = &e.syms[files[0]];
        if f.bind != 0 || f.raw_shndx != 0xfff1 || f.value != 0 || f.size != 0 || f.vis != 0 {
            log.fail(p!(9), "elf.file.attr", format!("odd file symbol {:?}", f));
        }
    }

    // ---- definitions -> sections
    let mut sec_of: HashMap<&str, usize> = HashMap::new(); // def name -> section
    let mut owner: HashMap<usize, &str> = HashMap::new();
    let attr_tag = |n: &str| if c.redecl.contains(n) { p!(1) } else { 0 };
    let mut expected_syms: HashSet<&str> = HashSet::new();
    for (n, d, def) in m.defs() {
        if d.is_sect() {
            for k in def.syms.keys() {
                expected_syms.insert(k);
            }
            continue;
        }
        expected_syms.insert(n);
        let v = by_name.get(n.as_str()).map(|v| &v[..]).unwrap_or(&[]);
        if v.len() != 1 {
            log.fail(
                p!(8, 9) | attr_tag(n),
                "elf.sym.count",
                format!("{} symbols named {} for one definition", v.len(), nm(n)),
            );
            if v.is_empty() {
                continue;
            }
        }
        let s = &e.syms[v[0]];
        let si = s.sec as usize;
        if s.raw_shndx == 0 || s.raw_shndx == 0xfff1 || si >= e.secs.len() {
            log.fail(p!(8, 9) | attr_tag(n), "elf.sym.undef", format!("definition {} has symbol section {}", nm(n), s.sec));
            continue;
        }
        if let Some(o) = owner.insert(si, n) {
            log.fail(
                p!(8, 12),
                "elf.sec.shared",
                format!("{} and {} are both in section {} ({})", nm(o), nm(n), si, nm(&e.secs[si].name)),
            );
        }
        sec_of.insert(n, si);
        // C09: symbol attributes
        let want_t = if d.is_func() { 2 } else { 1 };
        let want_b = match d.scope() {
            Sc::L => 0,
            Sc::G => 1,
            Sc::W => 2,
        };
        let want_v = match d.vis() {
            Vi::D => 0,
            Vi::H => 2,
            Vi::P => 3,
        };
        if s.typ != want_t || s.bind != want_b || s.vis != want_v {
            log.fail(
                p!(9) | attr_tag(n),
                "elf.sym.attr",
                format!(
                    "symbol {} declared {:?}: type/binding/visibility {}/{}/{} instead of {}/{}/{}",
                    nm(n),
                    d,
                    s.typ,
                    s.bind,
                    s.vis,
                    want_t,
                    want_b,
                    want_v
                ),
            );
        }
        // C08: extent
        if s.value != 0 || s.size != def.data.mem_size() {
            log.fail(
                p!(8),
                "elf.sym.extent",
                format!(
                    "symbol {} covers {:#x}+{:#x}, defined with {:#x} bytes{}",
                    nm(n),
                    s.value,
                    s.size,
                    def.data.mem_size(),
                    if def.data.is_zero() { " of zeros" } else { "" }
                ),
            );
        }
        log.saw("definition symbols", 1);
    }
    // custom sections, by name
    let mut cand: HashMap<&str, Vec<usize>> = HashMap::new();
    for (i, s) in e.secs.iter().enumerate() {
        if (s.typ == PROGBITS || s.typ == NOBITS) && !owner.contains_key(&i) {
            cand.entry(&s.name).or_default().push(i);
        }
    }
    for (n, d, _) in m.defs().filter(|x| x.1.is_sect()) {
        let v = cand.get(n.as_str()).map(|v| &v[..]).unwrap_or(&[]);
        if v.len() != 1 {
            log.fail(
                p!(8, 12) | attr_tag(n),
                "elf.custom.count",
                format!("{} sections named {} for one custom section ({:?})", v.len(), nm(n), d),
            );
            if v.is_empty() {
                continue;
            }
        }
        owner.insert(v[0], n);
        sec_of.insert(n, v[0]);
    }
    // ---- sections: contents and attributes
    for (n, d, def) in m.defs() {
        let si = match sec_of.get(n.as_str()) {
            Some(s) => *s,
            None => continue,
        };
        let s = &e.secs[si];
        let ptag = if d.is_sect() { p!(8, 12) } else { p!(8) } | if c.refused.contains(n) { p!(3, 4) } else { 0 };
        match &def.data {
            Pay::Blob(want) => {
                if s.typ != PROGBITS {
                    log.fail(ptag | p!(10), "elf.sec.type", format!("section of {} has type {}", nm(n), s.typ));
                } else {
                    let got = &b[s.off as usize..(s.off + s.size) as usize];
                    if got != &want[..] {
                        log.fail(
                            ptag,
                            "elf.sec.bytes",
                            format!(
                                "contents of {} differ: {} bytes defined, {} in the object, first difference at {:?}",
                                nm(n),
                                want.len(),
                                got.len(),
                                got.iter().zip(want.iter()).position(|(a, b)| a != b)
                            ),
                        );
                    }
                    log.saw("content bytes", got.len() as u64);
                }
            }
            Pay::Zero(k) => {
                if s.typ != NOBITS || s.size != *k {
                    log.fail(
                        ptag | p!(10),
                        "elf.zero.size",
                        format!("zero-initialised {} of {:#x} bytes: section type {} size {:#x}", nm(n), k, s.typ, s.size),
                    );
                }
            }
        }
        // C10
        let at = p!(10) | attr_tag(n) | if d.is_sect() { p!(12) } else { 0 };
        let (want_name, want_flags, def_align) = match d {
            D::Func { .. } => (format!(".text.{}", n), ALLOC | EXEC, 16),
            D::Data { wr, st, .. } => {
                let z = def.data.is_zero();
                let w = *wr || z;
                (
                    format!(".{}.{}", if z { "bss" } else if *wr { "data" } else { "rodata" }, n),
                    ALLOC | if w { WRITE } else { 0 } | if *st && !z { MERGE | STRINGS } else { 0 },
                    if *wr { 8 } else { 1 },
                )
            }
            D::Sect { st, .. } => {
                let str_ = *st || n == ".debug_str" || n == ".debug_line_str";
                // Allocation of custom data/text sections is judged separately (known finding).
                (n.clone(), if str_ { MERGE | STRINGS } else { 0 }, 1)
            }
            _ => unreachable!(),
        };
        if s.name != want_name {
            log.fail(at, "elf.sec.name", format!("{} ({:?}) is in section {}", nm(n), d, nm(&s.name)));
        }
        let mut got_flags = s.flags;
        if let D::Sect { k, .. } = d {
            if *k != Sk::Debug {
                // Whether custom data/text sections are allocated is judged by the directed probe
                // (known finding); here either all of the kind's bits are set or none.
                let full = ALLOC | if *k == Sk::Data { WRITE } else { 0 };
                let x = got_flags & (ALLOC | WRITE | EXEC);
                if x == full || (*k == Sk::Text && x == ALLOC | EXEC) {
                    got_flags &= !(ALLOC | WRITE | EXEC);
                }
            }
        }
        if got_flags != want_flags {
            log.fail(
                at,
                "elf.sec.flags",
                format!("section of {} ({:?}) has flags {:#x} instead of {:#x}", nm(n), d, s.flags, want_flags),
            );
        }
        let al = s.align.max(1);
        match d.align() {
            Some(a) => {
                if al != a.max(1) {
                    log.fail(at, "elf.sec.align", format!("section of {} aligned to {} instead of {}", nm(n), al, a));
                }
            }
            None => {
                let ok = if def.data.is_zero() { al == 1 || al == 8 } else { al == def_align };
                if !ok {
                    log.fail(
                        at,
                        "elf.sec.defalign",
                        format!("section of {} ({:?}) has default alignment {} instead of {}", nm(n), d, al, def_align),
                    );
                }
            }
        }
        if !secsyms.contains_key(&(si as u32)) {
            log.fail(p!(9), "elf.secsym.missing", format!("no section symbol for {}", nm(n)));
        }
        log.saw("content sections", 1);
    }
    // no byte of the file belongs to two definitions
    let mut spans: Vec<(u64, u64, &str)> = m
        .defs()
        .filter_map(|(n, _, _)| {
            let s = &e.secs[*sec_of.get(n.as_str())?];
            (s.typ == PROGBITS && s.size > 0).then(|| (s.off, s.off + s.size, n.as_str()))
        })
        .collect();
    spans.sort();
    for w in spans.windows(2) {
        if w[0].1 > w[1].0 && w[0].2 != w[1].2 {
            log.fail(p!(8), "elf.overlap", format!("{} and {} share bytes", nm(w[0].2), nm(w[1].2)));
        }
    }
    // ---- everything else in the section table
    let mut rest_notes = 0;
    let mut strtabs = 0;
    for (i, s) in e.secs.iter().enumerate().skip(1) {
        if owner.contains_key(&i) {
            continue;
        }
        match s.typ {
            PROGBITS | NOBITS => {
                if s.name == ".note.GNU-stack" && s.typ == PROGBITS && s.size == 0 {
                    rest_notes += 1;
                    if s.flags != 0 {
                        log.fail(p!(10), "elf.note.flags", format!("stack note flags {:#x}", s.flags));
                    }
                } else {
                    log.fail(
                        p!(8),
                        "elf.sec.extra",
                        format!("section {} {} of {} bytes corresponds to no definition", i, nm(&s.name), s.size),
                    );
                }
                if let Some(x) = secsyms.get(&(i as u32)) {
                    log.fail(p!(9), "elf.secsym.extra", format!("section symbol {} for section {}", x, i));
                }
            }
            3 => {
                strtabs += 1;
                if s.name != ".strtab" {
                    log.fail(p!(7), "elf.strtab.name", format!("string table is named {}", nm(&s.name)));
                }
            }
            2 => {
                if s.name != ".symtab" {
                    log.fail(p!(7), "elf.symtab.name", format!("symbol table is named {}", nm(&s.name)));
                }
            }
            18 => {
                if s.name != ".symtab_shndx" {
                    log.fail(p!(7, 13), "elf.shndx.name", format!("index table is named {}", nm(&s.name)));
                }
            }
            _ => {}
        }
    }
    if rest_notes != 1 {
        log.fail(p!(10), "elf.note", format!("{} non-executable-stack notes", rest_notes));
    }
    if strtabs != 1 {
        log.fail(p!(7), "elf.strtabs", format!("{} string tables", strtabs));
    }
    // ---- custom symbols
    for (n, _, def) in m.defs().filter(|x| x.1.is_sect()) {
        for (k, off) in &def.syms {
            let v = by_name.get(k.as_str()).map(|v| &v[..]).unwrap_or(&[]);
            if v.len() != 1 {
                log.fail(p!(9, 12), "elf.csym.count", format!("{} symbols for custom symbol {}", v.len(), nm(k)));
                continue;
            }
            let s = &e.syms[v[0]];
            if Some(&(s.sec as usize)) != sec_of.get(n.as_str()) || s.raw_shndx == 0 || s.raw_shndx == 0xfff1 || s.value != *off {
                log.fail(
                    p!(9, 12),
                    "elf.csym.place",
                    format!(
                        "custom symbol {} of {} at {:#x}: found in section {} at {:#x}",
                        nm(k),
                        nm(n),
                        off,
                        s.sec,
                        s.value
                    ),
                );
            }
            if s.typ != 0 || s.bind != 0 || s.vis != 0 || s.size != 0 {
                log.fail(p!(9, 12), "elf.csym.attr", format!("custom symbol {}: {:?}", nm(k), s));
            }
            log.saw("custom symbols", 1);
        }
    }
    // ---- imports
    let imports = m.imports();
    for (n, _) in &imports {
        let v = by_name.get(n.as_str()).map(|v| &v[..]).unwrap_or(&[]);
        expected_syms.insert(n);
        if v.len() != 1 {
            log.fail(p!(2, 9), "elf.import.count", format!("{} symbols for import {}", v.len(), nm(n)));
            continue;
        }
        let s = &e.syms[v[0]];
        if s.bind != 1 || s.raw_shndx != 0 || s.value != 0 || s.size != 0 || s.vis != 0 || s.typ != 0 {
            log.fail(p!(2, 9), "elf.import.attr", format!("import {}: {:?}", nm(n), s));
        }
        log.saw("import symbols", 1);
    }
    for (n, v) in &by_name {
        if !expected_syms.contains(n) {
            let s = &e.syms[v[0]];
            log.fail(
                p!(9) | if s.raw_shndx == 0 { p!(2) } else { 0 } | if c.refused.contains(*n) { p!(4) } else { 0 },
                "elf.sym.extra",
                format!("symbol {} belongs to no definition, import or custom symbol", nm(n)),
            );
        }
    }
    // ---- relocations
    let mut by_from: HashMap<&str, Vec<&LinkM>> = HashMap::new();
    for l in &m.links {
        by_from.entry(&l.from).or_default().push(l);
    }
    let mut rel_of: HashMap<usize, &RelaSec> = HashMap::new();
    for r in &e.rels {
        rel_of.insert(r.target, r);
        if !owner.contains_key(&r.target) {
            log.fail(p!(11), "elf.rel.orphan", format!("relocations for section {}", r.target));
        }
    }
    let empty = vec![];
    let no_rel: Vec<Rela> = vec![];
    let mut nrel = 0;
    for (n, d, _) in m.defs() {
        let want = by_from.get(n.as_str()).unwrap_or(&empty);
        let si = match sec_of.get(n.as_str()) {
            Some(s) => *s,
            None => continue,
        };
        let got = rel_of.get(&si).map(|r| &r.relas).unwrap_or(&no_rel);
        let custom = d.is_sect() || want.iter().any(|l| m.ents[&l.to].decl.is_sect());
        let tag = p!(11) | if custom { p!(12) } else { 0 };
        if got.len() != want.len() {
            log.fail(
                tag | p!(6) | if c.refused.contains(n) { p!(4) } else { 0 },
                "elf.rel.count",
                format!("{} links from {}, {} relocations", want.len(), nm(n), got.len()),
            );
            continue;
        }
        for (i, (l, r)) in want.iter().zip(got.iter()).enumerate() {
            let td = &m.ents[&l.to].decl;
            let (wt, wa) = match l.rl {
                Rl::Raw(t, a) => (t, a as i64),
                Rl::Debug(4, a) => (10, a as i64),
                Rl::Debug(_, a) => (1, a as i64),
                Rl::Auto => match auto_rel(d, td, e.is64) {
                    Some(x) => x,
                    None => continue,
                },
            };
            if r.off != l.at {
                log.fail(tag | p!(6), "elf.rel.off", format!("link {} of {}: offset {:#x} instead of {:#x}", i, nm(n), r.off, l.at));
            }
            if r.typ != wt || r.addend != wa {
                log.fail(
                    tag | attr_tag(n) | attr_tag(&l.to),
                    "elf.rel.type",
                    format!(
                        "link {} {} -> {} ({:?} -> {:?}, {:?}): type {} addend {} instead of {} / {}",
                        i,
                        nm(n),
                        nm(&l.to),
                        d,
                        td,
                        l.rl,
                        r.typ,
                        r.addend,
                        wt,
                        wa
                    ),
                );
            }
            let ok = match e.syms.get(r.sym as usize) {
                None => false,
                Some(s) => {
                    if td.is_import() {
                        s.name == l.to && s.raw_shndx == 0 && s.bind != 0
                    } else {
                        Some(&(s.sec as usize)) == sec_of.get(l.to.as_str())
                            && s.raw_shndx != 0
                            && s.raw_shndx != 0xfff1
                            && s.value == 0
                            && (s.typ == 3 || (s.name == l.to && !td.is_sect()))
                    }
                }
            };
            if !ok {
                let s = e.syms.get(r.sym as usize);
                log.fail(
                    tag | p!(6),
                    "elf.rel.sym",
                    format!("link {} of {} to {} is against symbol {}: {:?}", i, nm(n), nm(&l.to), r.sym, s),
                );
            }
            nrel += 1;
        }
    }
    log.saw("relocations", nrel);
    // ---- observed facts
    let def_in: HashMap<usize, &str> = owner.iter().map(|(a, b)| (*a, *b)).collect();
    let tname = |sym: u32| -> String {
        match e.syms.get(sym as usize) {
            None => "?".into(),
            Some(s) if s.raw_shndx == 0 => format!("U:{}", s.name),
            Some(s) => format!("D:{}+{}", def_in.get(&(s.sec as usize)).unwrap_or(&"?"), s.value),
        }
    };
    for (n, d, _) in m.defs() {
        let si = match sec_of.get(n.as_str()) {
            Some(s) => *s,
            None => continue,
        };
        let s = &e.secs[si];
        let h = if s.typ == PROGBITS {
            crate::rng::hash_bytes(&b[s.off as usize..(s.off + s.size) as usize])
        } else {
            s.size
        };
        let mut o = format!("sec {} t{} f{:x} a{} n{} h{:x}", s.name, s.typ, s.flags, s.align, s.size, h);
        if !d.is_sect() {
            if let Some(v) = by_name.get(n.as_str()) {
                for x in v {
                    let y = &e.syms[*x];
                    o.push_str(&format!(" sym {} {} {} {:x}+{:x}", y.typ, y.bind, y.vis, y.value, y.size));
                }
            }
        }
        if let Some(r) = rel_of.get(&si) {
            for x in &r.relas {
                let t = if x.typ == 1 || x.typ == 10 { "PTR".to_string() } else { x.typ.to_string() };
                o.push_str(&format!(" rel {:x} {} {} {}", x.off, t, x.addend, tname(x.sym)));
            }
        }
        log.obs.insert(format!("elf {}", n), o);
    }
    for (n, v) in &by_name {
        for x in v {
            let s = &e.syms[*x];
            if s.raw_shndx == 0 || s.typ == 0 {
                let w = if s.raw_shndx == 0 {
                    format!("U {} {}", s.bind, s.typ)
                } else {
                    format!("C {} {:x}", def_in.get(&(s.sec as usize)).unwrap_or(&"?"), s.value)
                };
                log.obs.insert(format!("elfsym {}", n), w);
            }
        }
    }
    ElfFacts { sections: e.secs.len(), symbols: e.syms.len(), relocs: nrel as usize }
}
