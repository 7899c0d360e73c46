//! Second opinions: independent object tools read the emitted objects. They must accept them without
//! complaint, and the numbers they report must be the ones our own readers see.
use crate::camp::*;
use crate::camps4::{run_cmd, Ran};
use crate::camps::{gen_object, scratch};
use crate::exec::*;
use crate::gen::*;
use crate::mon::*;
use crate::ops::*;
use crate::p;
use crate::rng::*;
use crate::{elf, macho};
use std::process::Command;

const LLVM: &str = "/usr/lib/llvm-18/bin/";

/// Just enough JSON.
#[derive(Debug, Clone)]
pub enum J {
    Null,
    Bool(bool),
    Num(i128),
    Str(Vec<u8>),
    Arr(Vec<J>),
    Obj(Vec<(Vec<u8>, J)>),
}
impl J {
    pub fn parse(b: &[u8]) -> Option<J> {
        let mut at = 0;
        let v = J::value(b, &mut at, 0)?;
        J::ws(b, &mut at);
        if at == b.len() {
            Some(v)
        } else {
            None
        }
    }
    fn ws(b: &[u8], at: &mut usize) {
        while *at < b.len() && b[*at].is_ascii_whitespace() {
            *at += 1;
        }
    }
    fn string(b: &[u8], at: &mut usize) -> Option<Vec<u8>> {
        if b.get(*at) != Some(&b'"') {
            return None;
        }
        *at += 1;
        let mut v = vec![];
        loop {
            match *b.get(*at)? {
                b'"' => {
                    *at += 1;
                    return Some(v);
                }
                b'\\' => {
                    let c = *b.get(*at + 1)?;
                    *at += 2;
                    match c {
                        b'n' => v.push(b'\n'),
                        b't' => v.push(b'\t'),
                        b'r' => v.push(b'\r'),
                        b'b' => v.push(8),
                        b'f' => v.push(12),
                        b'u' => {
                            let h = u32::from_str_radix(std::str::from_utf8(b.get(*at..*at + 4)?).ok()?, 16).ok()?;
                            *at += 4;
                            v.extend(char::from_u32(h).unwrap_or('\u{fffd}').to_string().bytes());
                        }
                        c => v.push(c),
                    }
                }
                c => {
                    v.push(c);
                    *at += 1;
                }
            }
        }
    }
    fn value(b: &[u8], at: &mut usize, depth: usize) -> Option<J> {
        J::ws(b, at);
        if depth > 40 {
            return None;
        }
        let lit = |s: &[u8], at: &mut usize| {
            if b[*at..].starts_with(s) {
                *at += s.len();
                true
            } else {
                false
            }
        };
        match *b.get(*at)? {
            b'{' => {
                *at += 1;
                let mut v = vec![];
                loop {
                    J::ws(b, at);
                    match *b.get(*at)? {
                        b'}' => {
                            *at += 1;
                            return Some(J::Obj(v));
                        }
                        b',' => *at += 1,
                        _ => {
                            let k = J::string(b, at)?;
                            J::ws(b, at);
                            if b.get(*at) != Some(&b':') {
                                return None;
                            }
                            *at += 1;
                            v.push((k, J::value(b, at, depth + 1)?));
                        }
                    }
                }
            }
            b'[' => {
                *at += 1;
                let mut v = vec![];
                loop {
                    J::ws(b, at);
                    match *b.get(*at)? {
                        b']' => {
                            *at += 1;
                            return Some(J::Arr(v));
                        }
                        b',' => *at += 1,
                        _ => v.push(J::value(b, at, depth + 1)?),
                    }
                }
            }
            b'"' => Some(J::Str(J::string(b, at)?)),
            b't' => lit(b"true", at).then_some(J::Bool(true)),
            b'f' => lit(b"false", at).then_some(J::Bool(false)),
            b'n' => lit(b"null", at).then_some(J::Null),
            _ => {
                let s = *at;
                while *at < b.len() && (b[*at] == b'-' || b[*at].is_ascii_digit()) {
                    *at += 1;
                }
                std::str::from_utf8(&b[s..*at]).ok()?.parse().ok().map(J::Num)
            }
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k.as_bytes()).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    /// a number, or the number inside {"Value": n}
    pub fn num(&self) -> Option<i128> {
        match self {
            J::Num(n) => Some(*n),
            J::Obj(_) => self.get("Value").and_then(|v| v.num()),
            _ => None,
        }
    }
    fn n(&self, k: &str) -> i128 {
        self.get(k).and_then(|v| v.num()).unwrap_or(i128::MIN)
    }
}

pub fn opinions(c: &mut Camp) {
    let id = c.id;
    let d = scratch();
    let dir = &d.path;
    let n = c.n(500, 12_000);
    c.assumptions.push("binutils and LLVM object tools report what they see".into());
    let have = |p: &str| std::path::Path::new(p).exists();
    let llvm = have(&format!("{}llvm-readobj", LLVM)) && have(&format!("{}obj2yaml", LLVM));
    let bfd = have("/usr/bin/readelf");
    if !llvm || (id == 7 && !bfd) {
        c.inconclusive.push("object tools are missing: no second opinions".into());
    }
    c.cases(
        "second-opinions",
        "random artifacts emitted and read by binutils and LLVM tools: no tool may complain, a partial link and a copy must succeed where the contents permit, and every number of every section, symbol and relocation they report must equal what our reader sees",
        n,
        &|r, i| gen_object(r, i, if id == 7 && i % 4 == 1 { 26 } else { id }),
        &|h, seed, st| {
            crate::camps::guard(|| {
                let (mut l, nt) = crate::camps::judge_hist_with(h, &Opt { every: false, gate: 0, elf: id == 7, mach: id == 15 }, id, st, &mut |dn, l| {
                    let f = format!("{}/{:x}", dir, seed);
                    if let (7, Some(b)) = (id, &dn.elf) {
                        elf_tools(dn, b, &f, llvm, bfd, l);
                    }
                    if let (15, Some(b)) = (id, &dn.mach) {
                        mach_tools(dn, b, &f, llvm, l);
                    }
                    for x in ["", ".r", ".l", ".c"] {
                        let _ = std::fs::remove_file(format!("{}{}", f, x));
                    }
                });
                let _ = nt;
                l.obs.clear();
                l
            })
        },
    );
}

fn run(prog: &str, args: &[&str]) -> Ran {
    let mut c = Command::new(prog);
    c.args(args).env("LC_ALL", "C");
    run_cmd(c, 60, false)
}

/// The tool ran to its end; did it complain?
fn quiet(r: &Ran, what: &str, tag: Props, out_too: bool, l: &mut Log) -> bool {
    if r.timeout || (r.code.is_none() && r.signal == Some(libc::SIGKILL)) {
        return false;
    }
    let mut e = r.err.clone();
    if out_too {
        for x in String::from_utf8_lossy(&r.out).lines().filter(|x| x.contains("<corrupt") || x.contains("<no-strings>") || x.starts_with("readelf: ")) {
            e.push_str(x);
        }
    }
    if r.code != Some(0) || !e.trim().is_empty() {
        l.fail(
            tag,
            "tool.complains",
            format!("{} ends with {:?}/{:?}: {}", what, r.code, r.signal, trunc(e.trim(), 400)),
        );
        return false;
    }
    true
}

/// Would a linker have grounds to refuse these contents?
fn linkable(dn: &Done) -> bool {
    let m = &dn.model;
    let mut total = 0u64;
    for (n, d, def) in m.defs() {
        total = total.saturating_add(def.data.mem_size()).saturating_add(d.align().unwrap_or(16));
        if d.align().map_or(false, |a| a > 1 << 22) || n.contains('@') || def.syms.keys().any(|k| k.contains('@')) {
            return false;
        }
        // names a linker gives to sections of its own, or that sections of another type can have too
        if d.is_sect() && n.starts_with('.') && !n.starts_with(".debug") {
            return false;
        }
        if def.syms.values().any(|o| *o > def.data.mem_size()) {
            return false;
        }
    }
    if m.order.iter().any(|n| n.contains('@')) {
        return false;
    }
    if m.ents.contains_key("") || m.defs().any(|x| x.2.syms.contains_key("")) {
        return false;
    }
    for k in &m.links {
        let w = match k.rl {
            Rl::Auto => 8,
            Rl::Debug(s, _) => s as u64,
            Rl::Raw(..) => return false,
        };
        let len = m.ents[&k.from].def.as_ref().map_or(0, |x| x.data.mem_size());
        if k.at.checked_add(w).map_or(true, |e| e > len) {
            return false;
        }
    }
    total < 32 << 20
}

fn elf_tools(dn: &Done, b: &[u8], f: &str, llvm: bool, bfd: bool, l: &mut Log) {
    let t = p!(7);
    if std::fs::write(f, b).is_err() {
        return;
    }
    let e = match elf::parse(b) {
        Ok(e) => e,
        Err(_) => return,
    };
    if bfd {
        let r = run("/usr/bin/readelf", &["-aW", f]);
        if quiet(&r, "readelf -a", t, true, l) {
            l.saw("readelf runs", 1);
        }
    }
    if llvm {
        let r = run(
            &format!("{}llvm-readobj", LLVM),
            &["--elf-output-style=JSON", "--file-header", "--sections", "--symbols", "--relocs", "--extra-sym-info", f],
        );
        if quiet(&r, "llvm-readobj", t, false, l) {
            elf_json(&e, &r.out, l);
        }
    }
    if e.machine == 62 && e.is64 && linkable(dn) {
        let o = format!("{}.r", f);
        if quiet(&run("/usr/bin/ld.bfd", &["-r", "-o", &o, f]), "ld.bfd -r", t, false, l) {
            l.saw("partial links", 1);
        }
        let o = format!("{}.l", f);
        if quiet(&run(&format!("{}ld.lld", LLVM), &["-r", "-o", &o, f]), "ld.lld -r", t, false, l) {
            l.saw("partial links", 1);
        }
        let o = format!("{}.c", f);
        if quiet(&run(&format!("{}llvm-objcopy", LLVM), &[f, &o]), "llvm-objcopy", t, false, l) {
            l.saw("copies", 1);
        }
    }
}

fn elf_json(e: &elf::Elf, out: &[u8], l: &mut Log) {
    let t = p!(7);
    let j = match J::parse(out) {
        Some(J::Arr(v)) if v.len() == 1 => v.into_iter().next().unwrap(),
        _ => {
            // hostile names can defeat the tool's own quoting
            l.saw("unreadable tool output", 1);
            return;
        }
    };
    let secs = j.get("Sections").map(|x| x.arr()).unwrap_or(&[]);
    if secs.len() != e.secs.len() {
        l.fail(t, "tool.sections", format!("llvm-readobj sees {} sections, our reader {}", secs.len(), e.secs.len()));
        return;
    }
    for (i, (x, s)) in secs.iter().zip(&e.secs).enumerate() {
        let x = match x.get("Section") {
            Some(x) => x,
            None => continue,
        };
        let got = [
            x.n("Type"),
            x.n("Flags"),
            x.n("Address"),
            x.n("Offset"),
            x.n("Size"),
            x.n("Link"),
            x.n("Info"),
            x.n("AddressAlignment"),
            x.n("EntrySize"),
        ];
        let u = |v: u64| v as i128;
        let want = [u(s.typ as u64), u(s.flags), u(s.addr), u(s.off), u(s.size), u(s.link as u64), u(s.info as u64), u(s.align), u(s.ent)];
        if got != want {
            l.fail(t, "tool.section", format!("section {}: llvm-readobj {:?}, our reader {:?}", i, got, want));
        }
    }
    l.saw("sections confirmed", secs.len() as u64);
    let syms = j.get("Symbols").map(|x| x.arr()).unwrap_or(&[]);
    if syms.len() != e.syms.len() {
        l.fail(t, "tool.symbols", format!("llvm-readobj sees {} symbols, our reader {}", syms.len(), e.syms.len()));
        return;
    }
    for (i, (x, s)) in syms.iter().zip(&e.syms).enumerate() {
        let x = match x.get("Symbol") {
            Some(x) => x,
            None => continue,
        };
        let got = [x.n("Value"), x.n("Size"), x.n("Binding"), x.n("Type"), x.n("Other"), x.n("Section")];
        let want = [s.value as i128, s.size as i128, s.bind as i128, s.typ as i128, s.vis as i128, s.sec as i128];
        if got != want && !(s.xindex.is_some() && got[..5] == want[..5]) {
            l.fail(t, "tool.symbol", format!("symbol {}: llvm-readobj {:?}, our reader {:?}", i, got, want));
        }
    }
    l.saw("symbols confirmed", syms.len() as u64);
    let mut n = 0;
    for g in j.get("Relocations").map(|x| x.arr()).unwrap_or(&[]) {
        let si = g.n("SectionIndex");
        let want = match e.rels.iter().find(|r| r.sec as i128 == si) {
            Some(w) => w,
            None => {
                l.fail(t, "tool.relocations", format!("llvm-readobj sees relocations in section {}", si));
                continue;
            }
        };
        let rs = g.get("Relocs").map(|x| x.arr()).unwrap_or(&[]);
        if rs.len() != want.relas.len() {
            l.fail(t, "tool.relocations", format!("section {}: llvm-readobj sees {} relocations, our reader {}", si, rs.len(), want.relas.len()));
            continue;
        }
        for (x, w) in rs.iter().zip(&want.relas) {
            let x = match x.get("Relocation") {
                Some(x) => x,
                None => continue,
            };
            let a = x.n("Addend");
            // addends are printed without their sign
            let mask = if e.is64 { u64::MAX as i128 } else { u32::MAX as i128 };
            let got = [x.n("Offset"), x.n("Type"), a & mask];
            let exp = [w.off as i128, w.typ as i128, w.addend as i128 & mask];
            if got != exp {
                l.fail(t, "tool.relocation", format!("section {}: llvm-readobj {:?}, our reader {:?}", si, got, exp));
            }
            n += 1;
        }
    }
    l.saw("relocations confirmed", n);
}

fn mach_tools(_dn: &Done, b: &[u8], f: &str, llvm: bool, l: &mut Log) {
    let t = p!(15);
    if !llvm || std::fs::write(f, b).is_err() {
        return;
    }
    let o = match macho::parse(b) {
        Ok(o) => o,
        Err(_) => return,
    };
    let r = run(
        &format!("{}llvm-readobj", LLVM),
        &["--file-header", "--sections", "--section-relocations", "--section-symbols", "--symbols", "--macho-segment", f],
    );
    if quiet(&r, "llvm-readobj", t, false, l) {
        l.saw("llvm-readobj runs", 1);
    }
    let r = run(&format!("{}llvm-objdump", LLVM), &["--macho", "--private-headers", "-t", "-r", f]);
    if quiet(&r, "llvm-objdump --macho", t, false, l) {
        l.saw("llvm-objdump runs", 1);
    }
    let r = run(&format!("{}obj2yaml", LLVM), &[f]);
    // it also interprets what it takes for DWARF, and complains about that
    let dwarf = o.secs.iter().any(|s| s.sectname.contains("debug"));
    if (dwarf && r.code == Some(0)) || (!dwarf && quiet(&r, "obj2yaml", t, false, l)) {
        yaml(&o, &r.out, l);
    }
}

fn yaml(o: &macho::Macho, out: &[u8], l: &mut Log) {
    let t = p!(15);
    let text = String::from_utf8_lossy(out);
    let num = |v: &str| -> Option<i128> {
        let v = v.trim().trim_matches('\'').trim_matches('"');
        match v {
            "true" => Some(1),
            "false" => Some(0),
            _ => match v.strip_prefix("0x") {
                Some(h) => i128::from_str_radix(h, 16).ok(),
                None => v.parse().ok(),
            },
        }
    };
    // (indentation and key) tell where we are
    let mut secs: Vec<Vec<(String, i128)>> = vec![];
    let mut rels: Vec<Vec<(String, i128)>> = vec![];
    let mut syms: Vec<Vec<(String, i128)>> = vec![];
    let mut part = 0; // 1 sections, 2 relocations, 3 names
    for line in text.lines() {
        let ind = line.len() - line.trim_start().len();
        let body = line.trim_start();
        if ind == 0 || body == "StringTable:" || (ind == 2 && part != 3) {
            part = 0;
        }
        match body {
            "Sections:" => {
                part = 1;
                continue;
            }
            "relocations:" => {
                part = 2;
                continue;
            }
            "NameList:" => {
                part = 3;
                continue;
            }
            _ => {}
        }
        let new = body.starts_with("- ");
        let body = body.trim_start_matches("- ");
        let (k, v) = match body.split_once(':') {
            Some(x) => x,
            None => continue,
        };
        if part == 2 && new && k == "sectname" {
            part = 1;
        }
        let here = secs.len() as i128 - 1;
        let into = match part {
            1 => &mut secs,
            2 => &mut rels,
            3 => &mut syms,
            _ => continue,
        };
        if new {
            into.push(if part == 2 { vec![("section".into(), here)] } else { vec![] });
        }
        if let (Some(n), Some(x)) = (num(v), into.last_mut()) {
            x.push((k.into(), n));
        }
    }
    let g = |v: &Vec<(String, i128)>, k: &str| v.iter().find(|x| x.0 == k).map_or(i128::MIN, |x| x.1);
    if secs.len() != o.secs.len() || syms.len() != o.syms.len() {
        l.fail(
            t,
            "tool.counts",
            format!("obj2yaml sees {} sections and {} symbols, our reader {} and {}", secs.len(), syms.len(), o.secs.len(), o.syms.len()),
        );
        return;
    }
    for (i, (x, s)) in secs.iter().zip(&o.secs).enumerate() {
        let got = ["addr", "size", "offset", "align", "reloff", "nreloc", "flags"].map(|k| g(x, k));
        let want = [s.addr as i128, s.size as i128, s.off as i128, s.align as i128, s.reloff as i128, s.nreloc as i128, s.flags as i128];
        if got != want {
            l.fail(t, "tool.section", format!("section {}: obj2yaml {:?}, our reader {:?}", i, got, want));
        }
    }
    for (i, (x, s)) in syms.iter().zip(&o.syms).enumerate() {
        let got = ["n_type", "n_sect", "n_desc", "n_value"].map(|k| g(x, k));
        let want = [s.typ as i128, s.sect as i128, s.desc as i128, s.value as i128];
        if got != want {
            l.fail(t, "tool.symbol", format!("symbol {}: obj2yaml {:?}, our reader {:?}", i, got, want));
        }
    }
    let want: Vec<(usize, &macho::Rel)> = o.secs.iter().enumerate().flat_map(|(i, s)| s.relocs.iter().map(move |r| (i, r))).collect();
    if want.len() != rels.len() {
        l.fail(t, "tool.relocations", format!("obj2yaml sees {} relocations, our reader {}", rels.len(), want.len()));
        return;
    }
    for (x, (i, r)) in rels.iter().zip(want) {
        let got = ["section", "address", "symbolnum", "pcrel", "length", "extern", "type"].map(|k| g(x, k));
        let exp = [i as i128, r.addr as i128, r.sym as i128, r.pcrel as i128, r.len as i128, r.ext as i128, r.typ as i128];
        if got != exp {
            l.fail(t, "tool.relocation", format!("obj2yaml {:?}, our reader {:?}", got, exp));
        }
    }
    l.saw("sections confirmed", secs.len() as u64);
    l.saw("symbols confirmed", syms.len() as u64);
    l.saw("relocations confirmed", rels.len() as u64);
}
