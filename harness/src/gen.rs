//! Workload generators.
use crate::model::*;
use crate::ops::*;
use crate::rng::Rng;
use crate::targets::Tgt;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fmt {
    Elf,
    Mach,
}

pub const STD_SECTS: [&str; 4] = ["__text", "__data", "__cstring", "__bss"];

/// Is emission of this (complete) artifact inside the supported domain of the format?
pub fn domain(m: &Model, fmt: Fmt, t: &Tgt) -> Result<(), &'static str> {
    if !m.complete() {
        return Err("incomplete");
    }
    if !m.names_distinct() {
        return Err("ambiguous names");
    }
    let is64 = t.is64.unwrap_or(true);
    let lim = if is64 { 1u64 << 62 } else { 1u64 << 31 };
    let mut total = 0u64;
    for n in &m.order {
        let e = &m.ents[n];
        if n.contains('\0') {
            return Err("NUL in name");
        }
        if let Some(a) = e.decl.align() {
            if !a.is_power_of_two() || (!is64 && a > 1 << 30) {
                return Err("alignment");
            }
        }
        if fmt == Fmt::Mach {
            if let Some(a) = e.decl.align() {
                if a > 1 << 15 {
                    return Err("mach alignment");
                }
            }
            if e.decl.is_sect() {
                if n.is_empty() {
                    return Err("mach empty section name");
                }
                let w = crate::mon_mach::mapped(n);
                // ".debug_x" and "__debug_x" would be told apart by nothing
                if w != *n && m.ents.get(&w).map_or(false, |x| x.decl.is_sect()) {
                    return Err("mach section names collide");
                }
                if w.len() > 16 || STD_SECTS.contains(&n.as_str()) || STD_SECTS.contains(&w.as_str()) {
                    return Err("mach section name");
                }
            }
        } else if e.decl.is_sect() && n == ".note.GNU-stack" {
            return Err("reserved section name");
        }
        if let Some(d) = &e.def {
            total = total.saturating_add(d.data.mem_size()).saturating_add(e.decl.align().unwrap_or(16));
            for (k, off) in &d.syms {
                if k.contains('\0') || (!is64 && *off > u32::MAX as u64) {
                    return Err("custom symbol");
                }
                if fmt == Fmt::Mach && *off > d.data.mem_size() {
                    return Err("mach custom symbol");
                }
            }
        }
    }
    if total > lim {
        return Err("too large");
    }
    if fmt == Fmt::Mach {
        if t.cpu.is_none() {
            return Err("mach architecture");
        }
        if m.order.iter().filter(|n| m.ents[*n].decl.is_sect()).count() > 251 {
            return Err("mach section count");
        }
        if !m.links.is_empty() && t.em != 62 {
            return Err("mach relocations are x86_64 only");
        }
    }
    for l in &m.links {
        let (f, to) = (&m.ents[&l.from], &m.ents[&l.to]);
        let fd = f.def.as_ref().unwrap();
        if fd.data.is_zero() {
            return Err("link from zero-init");
        }
        match l.rl {
            Rl::Auto => {
                if f.decl.is_sect() || to.decl.is_sect() {
                    return Err("auto link with a section");
                }
            }
            Rl::Raw(t, a) => {
                if fmt == Fmt::Elf && !is64 && t > 255 {
                    return Err("raw type");
                }
                if fmt == Fmt::Mach && (t > 15 || a != 0 || to.decl.is_sect()) {
                    return Err("mach raw");
                }
            }
            Rl::Debug(s, a) => {
                if s != 4 && s != 8 {
                    return Err("debug size");
                }
                if fmt == Fmt::Mach && (!f.decl.is_sect() || (a != 0 && !to.decl.is_sect())) {
                    return Err("mach debug");
                }
            }
        }
        if !is64 && l.at > u32::MAX as u64 {
            return Err("offset");
        }
        if fmt == Fmt::Mach {
            let w = match l.rl {
                Rl::Auto if f.decl.is_func() => 4,
                Rl::Auto => 8,
                Rl::Raw(0, _) => 8,
                Rl::Raw(..) => 4,
                Rl::Debug(..) if to.decl.is_sect() => 0,
                Rl::Debug(s, _) => s as u64,
            };
            if l.at.checked_add(w).map_or(true, |x| x > fd.data.mem_size()) {
                return Err("mach relocation outside the definition");
            }
        }
    }
    Ok(())
}

pub fn scope(r: &mut Rng) -> Sc {
    *r.pick(&[Sc::L, Sc::L, Sc::G, Sc::G, Sc::W])
}
pub fn vis(r: &mut Rng) -> Vi {
    *r.pick(&[Vi::D, Vi::D, Vi::D, Vi::P, Vi::H])
}
pub fn align(r: &mut Rng, max_log: usize) -> Option<u64> {
    match r.below(12) {
        0..=5 => None,
        6..=9 => Some(1 << r.below(6.min(max_log + 1))),
        10 => Some(1 << r.below(max_log.min(12) + 1)),
        _ => Some(1 << r.below(max_log + 1)),
    }
}

/// Concatenations of the strings that mean something to an object writer.
fn mash(r: &mut Rng) -> String {
    let tok = [
        ".debug", "__debug", "_str", ".debug_str", "_", ".", ".text", "__text", ".data", ".bss", ".rela", ".rodata", "__",
        ".strtab", "a", ".note", "debug", "__data", ".debug_line_str", "DEBUG", ".o", "1", "é", ".symtab",
    ];
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        s.push_str(*r.pick(&tok));
    }
    s
}

/// Names that mean something to assemblers, linkers, compilers or loaders, and nothing to an object writer.
const KNOWN_SYMS: &[&str] = &[
    ".L0", ".Ltmp1", ".Lanon.1", "L0", "Lx", "l0", "Ltmp1", "l_.str", "__imp_x", "_GLOBAL_OFFSET_TABLE_", "_DYNAMIC", "_start",
    "main", "_main", "__start_sec1", "__stop_sec1", "__dso_handle", "_end", "_edata", "__bss_start", "foo@@VERS", "foo@VERS_1.0",
    "foo$stub", "foo.cold", "foo.part.0", "foo.llvm.123", "foo@plt", "foo@GOTPCREL", "$x", "$d", "$a", "$t", "$x.1", "_ZTV3Foo",
    "_ZN3foo17h0123456789abcdefE", "_RNvC3foo3bar", "__tls_get_addr", "llvm.used", "str.1", "vtable.0", "*ABS*", "*UND*", "@", "=",
    "__mh_execute_header", "-Wl", "/abs/path.c", "main.c", "strcpy", "a,b", "a:b", "a(b)", "a b", "a;b", "a=b", "a+4", "a-4", "NULL",
    "null", "0x10", "12", "-1", "_", "$", "?", "#", "\"q\"", "%s", "%n", "\\", "\u{7f}", "\u{1}foo", "\u{1}_foo", "radr://x",
    "eax", "rip", "ELF", "section", "faerie", "__eh_frame", "_OBJC_CLASS_$_Foo", "_dyld_stub_binder", "dyld_stub_binder",
    "__stack_chk_fail", "__cxa_finalize", "_init", "_fini", "__ehdr_start", "__GNU_EH_FRAME_HDR", "_TLS_MODULE_BASE_",
];
const KNOWN_SECTS: &[&str] = &[
    ".init_array", ".fini_array", ".preinit_array", ".ctors", ".dtors", ".init", ".fini", ".tdata", ".tbss", ".eh_frame", ".jcr",
    ".gcc_except_table", ".comment", ".note.ABI-tag", ".note.gnu.build-id", ".note", ".note.x", ".stab", ".stabstr", ".got", ".got.plt",
    ".plt", ".dynsym", ".dynstr", ".dynamic", ".hash", ".gnu.hash", ".interp", ".group", ".gnu.linkonce.t.x", ".gnu_debuglink",
    ".gnu.version", ".llvm_bb_addr_map", ".llvmbc", ".rodata.str1.1", ".rodata.cst8", ".data.rel.ro", ".data.rel.ro.local", ".data1",
    ".rodata1", ".lbss", ".ldata", ".sdata", ".sbss", ".text.hot", ".text.unlikely", ".text.startup", ".init_array.00100",
    ".ctors.65535", ".ARM.attributes", ".ARM.exidx", ".MIPS.abiflags", ".riscv.attributes", ".zdebug_info", ".debug", ".line", ".dwo",
    ".debug_info.dwo", ".debug_str.dwo", ".debug_str_offsets", ".debug_pubnames", ".debug_macinfo", ".debug_cu_index", ".gdb_index",
    "__eh_frame", "__const", "__compact_unwind", "__mod_init_func", "__mod_term_func", "__thread_vars", "__thread_data",
    "__thread_bss", "__unwind_info", "__objc_classlist", "__literal4", "__literal8", "__literal16", "__common", "__la_symbol_ptr",
    "__nl_symbol_ptr", "__stubs", "__stub_helper", "__got", "__ustring", "__cfstring", "__interposing", "__gcc_except_tab",
    "__TEXT,__foo", "__DATA,__x", "a,b", "__debug_info", "__debug_str", "__apple_names", "__DWARF", "__LLVM", "__bitcode",
];

/// Names: hostile in every way an object file can trip over.
pub struct Names {
    used: HashSet<String>,
    style: usize,
    stem: String,
    n: usize,
    last: String,
}
impl Names {
    pub fn new(r: &mut Rng) -> Self {
        let stems = ["a", "f", "x.", "_", "é", "data", ".", "long name ", "n", "..", "0", "$", "_ZN4core3fmt", "L", "l_", "ltmp", "?f@@", "\u{1}"];
        Names { used: HashSet::new(), style: r.below(8), stem: r.pick(&stems).to_string(), n: 0, last: String::new() }
    }
    fn raw(&mut self, r: &mut Rng) -> String {
        self.n += 1;
        if r.pct(4) && !self.last.is_empty() {
            // nearly the same name as another
            let b = self.last.clone();
            return match r.below(12) {
                0 => b.to_uppercase(),
                1 => b.to_lowercase(),
                2 => format!("{} ", b),
                3 => format!(" {}", b),
                4 => format!("_{}", b),
                5 => format!("{}.1", b),
                6 => b.chars().rev().collect(),
                7 => b.repeat(2),
                8 => b.trim_start_matches('_').to_string(),
                9 => b.chars().take(b.chars().count() - 1).collect(),
                10 => b.replace('.', "_"),
                _ => format!("{}0", b),
            };
        }
        let k = match self.style {
            0 => 0,
            1 => 1,
            2 => r.below(14),
            7 => 13,
            3 => *r.pick(&[1, 2, 8, 12]),
            4 => 11,
            _ => *r.pick(&[0, 1, 2, 3, 4, 6, 8, 9, 11, 12, 13]),
        };
        match k {
            0 => format!("{}{}", self.stem, self.n),
            1 => {
                // prefixes and suffixes of each other
                let l = r.range(1, 9);
                let s = "abcdefghij";
                if r.pct(50) { s[..l].to_string() } else { s[10 - l..].to_string() }
            }
            2 => {
                let base = r.pick(&["a", "b", "f1", "text", "x"]).to_string();
                let pre = r.pick(&["", ".text.", ".data.", ".rodata.", ".bss.", ".rela.text.", ".rela", "_", "__"]);
                format!("{}{}", pre, base)
            }
            3 => r
                .pick(&[
                    ".strtab", ".symtab", ".shstrtab", ".note.GNU-stack", ".symtab_shndx", ".text", ".data", ".bss",
                    ".rodata", "__text", "__data", "__bss", "__cstring", "__TEXT", ".rela.text", "faerie.o",
                ])
                .to_string(),
            4 => {
                let l = *r.pick(&[15, 16, 17, 31, 64, 127, 255, 256, 257, 1000, 4095, 5000]);
                let c = *r.pick(&["x", "y", "ab", "é"]);
                c.repeat(l / c.len()) + &self.n.to_string()
            }
            5 => String::new(),
            6 => r.pick(&["ß∂ƒ", "名前", "🦀", "e\u{301}", "\u{feff}bom", "\u{10ffff}", "ÿ"]).to_string() + &self.n.to_string(),
            7 => "\t \n%s'\"\\".to_string() + &self.n.to_string(),
            8 => "_".repeat(r.range(1, 6)) + if r.pct(50) { "a" } else { "" },
            9 => format!(".debug_{}", r.pick(&["info", "str", "line", "abbrev", "line_str", "x"])),
            10 => format!("{}@{}", self.stem, self.n),
            12 => mash(r),
            13 => {
                let from = if r.pct(85) { KNOWN_SYMS } else { KNOWN_SECTS };
                let s = r.pick(from);
                if r.pct(15) { format!("{}{}", s, self.n) } else { s.to_string() }
            }
            _ => {
                let l = r.range(1, 3);
                (0..l).map(|_| *r.pick(&['a', 'b', '.', '_', '1', 'A'])).collect()
            }
        }
    }
    pub fn fresh(&mut self, r: &mut Rng) -> String {
        for _ in 0..6 {
            let s = self.raw(r);
            if self.used.insert(s.clone()) {
                if s.len() < 200 {
                    self.last = s.clone();
                }
                return s;
            }
        }
        loop {
            self.n += 1;
            let s = format!("{}{}u", self.stem, self.n);
            if self.used.insert(s.clone()) {
                return s;
            }
        }
    }
    pub fn sect(&mut self, r: &mut Rng, k: Sk) -> String {
        for _ in 0..6 {
            let s = match (k, r.below(12)) {
                (Sk::Debug, 0..=4) => format!(
                    ".debug_{}",
                    r.pick(&[
                        "info", "str", "line", "abbrev", "loc", "aranges", "ranges", "line_str", "x", "y", "str_offsets",
                        "loclists", "rnglists", "addr", "names", "types", "frame", "macro", "str2", "line_str_x", "st",
                    ])
                ),
                (_, 8) => mash(r),
                (Sk::Debug, 9) => format!(".debug{}", mash(r)),
                (_, 10) => r.pick(KNOWN_SECTS).to_string(),

                (_, 0) => self.raw(r),
                (_, 1) => format!(".text.{}", r.pick(&["a", "b", "f1", "x", "ab"])),
                (_, 2) => format!(".{}.{}", r.pick(&["data", "rodata", "bss"]), r.pick(&["a", "b", "f1", "x", "ab"])),
                (_, 3) => r.pick(&[".strtab", ".symtab", ".rela.text.a", ".rela", ".text", "", "a", "__custom"]).to_string(),
                _ => {
                    self.n += 1;
                    format!("{}{}", r.pick(&["sec", ".s", "__s", "my_", ".my.sec"]), self.n)
                }
            };
            if self.used.insert(s.clone()) {
                return s;
            }
        }
        self.fresh(r)
    }
}

pub fn size(r: &mut Rng, budget: &mut usize) -> usize {
    let n = match r.below(40) {
        0..=3 => 0,
        4..=6 => 1,
        7..=25 => r.range(1, 40),
        26..=33 => r.range(8, 300),
        34..=35 => *r.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257]),
        36..=37 => *r.pick(&[4095, 4096, 4097, 8191, 8192, 8193]),
        38 => r.range(300, 3000),
        _ => *r.pick(&[65535, 65536, 65537, 12345]),
    };
    let n = n.min(*budget);
    *budget -= n;
    n
}
pub fn blob(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(8) {
        0 => vec![0; n],
        1 => vec![*r.pick(&[0xcc, 0xaa, 0xff, b'A']); n],
        2 => {
            // zeros before or behind
            let mut v = r.bytes(n);
            let k = r.range(0, n);
            if r.pct(60) { v[k..].fill(0) } else { v[..k].fill(0) }
            v
        }
        _ => r.bytes(n),
    }
}
fn cstr(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|_| b'a' + r.below(26) as u8).collect();
    v.push(0);
    v
}

#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub max_defs: usize,
    pub max_links: usize,
    pub budget: usize,
    /// stay inside what Mach-O supports too
    pub mach: bool,
    pub relocs: bool,
    pub is64: bool,
    /// percentage of cases that force links/sections
    pub sect_pct: usize,
    pub zero_max: u64,
    /// log2 of the largest alignment where Mach-O (which pads) is not asked for
    pub max_align: usize,
}
impl Default for Shape {
    fn default() -> Self {
        Shape { max_defs: 14, max_links: 24, budget: 100_000, mach: false, relocs: true, is64: true, sect_pct: 18, zero_max: 1 << 40, max_align: 20 }
    }
}

struct Ent0 {
    name: String,
    decl: D,
    pay: Option<Pay>,
    syms: Vec<(String, u64)>,
}

pub fn name_ok_mach_sect(n: &str) -> bool {
    let w = crate::mon_mach::mapped(n);
    w.len() <= 16 && !w.is_empty() && !STD_SECTS.contains(&n) && !STD_SECTS.contains(&w.as_str())
}

pub fn artifact_name(r: &mut Rng, names: &[String]) -> String {
    match r.below(20) {
        16 => {
            // paths that exist, or that are relative to something that does
            let cwd = std::env::current_dir().map(|d| d.display().to_string()).unwrap_or_default();
            let home = std::env::var("HOME").unwrap_or_default();
            match r.below(10) {
                0 => cwd,
                1 => cwd + "/x.o",
                2 => cwd + "/src/../x.c",
                3 => home + "/x.o",
                4 => std::env::current_exe().map(|d| d.display().to_string()).unwrap_or_default(),
                5 => std::env::temp_dir().display().to_string() + "/x.o",
                6 => "Cargo.toml".into(),
                7 => ".".into(),
                8 => "/".into(),
                _ => "/dev/null".into(),
            }
        }
        17 => r
            .pick(&[
                "./t.o", "../t.o", "a/../b.o", "a//b.o", "dir/", "C:\\x\\y.obj", "~/t.o", "$HOME/t.o", "t.o.tmp", "t.rcgu.o", "lib(t.o)", " t.o ",
                "t.o\n", "\tt.o", "T.O", "t", ".o", "o", "-", "-o", "t.a", "t.so", "t.rlib", "t.c", "t.rs", "<stdin>", "é.o", "\u{1}t.o",
                "main", "http://x/y.o", "a:b", "a%20b.o", "\u{feff}t.o", "unknown", "(null)",
            ])
            .to_string(),
        18 => r.pick(KNOWN_SYMS).to_string(),
        0..=6 => "t.o".into(),
        7 | 8 if !names.is_empty() => r.pick(names).clone(),
        9 => String::new(),
        10 => r.pick(&[".strtab", ".symtab", ".symtab_shndx", ".note.GNU-stack", ".text.a", ".rela.text.a", ".text"]).to_string(),
        11 => "dir/ünï code.o".into(),
        12 => "n".repeat(*r.pick(&[1, 255, 256, 3000])),
        13 if !names.is_empty() => format!(".text.{}", r.pick(names)),
        _ => "faerie.o".into(),
    }
}

/// A complete, in-domain artifact as a random interleaving of its calls.
pub fn complete(r: &mut Rng, sh: &Shape, triple: &str) -> Hist {
    let mut names = Names::new(r);
    let nd = match r.below(10) {
        0 => r.range(0, 2),
        1..=6 => r.range(1, 1 + sh.max_defs / 2),
        _ => r.range(1, sh.max_defs),
    };
    let mut budget = sh.budget;
    let zero_bias = r.pct(25);
    let sect_case = r.pct(60);
    let mut ents: Vec<Ent0> = vec![];
    let max_al = match r.below(100) {
        0..=3 => if sh.mach { 15 } else { sh.max_align },
        _ => 12,
    };
    for _ in 0..nd {
        let k = r.below(100);
        let sect = sect_case && r.pct(sh.sect_pct * 100 / 60);
        if sect {
            let kd = *r.pick(&[Sk::Data, Sk::Debug, Sk::Debug, Sk::Text]);
            let mut name = names.sect(r, kd);
            let mut tries = 0;
            while (sh.mach && !name_ok_mach_sect(&name)) || name == ".note.GNU-stack" {
                name = if tries < 3 { names.sect(r, kd) } else { names.n += 1; let s = format!("s{}", names.n); names.used.insert(s.clone()); s };
                tries += 1;
            }
            let n = size(r, &mut budget);
            let st = r.pct(25);
            let decl = D::Sect { k: kd, st, al: align(r, max_al) };
            let mut syms = vec![];
            if r.pct(60) {
                let ns = match r.below(10) {
                    0 => r.range(5, 30),
                    _ => r.range(0, 4),
                };
                for _ in 0..ns {
                    let s = if r.pct(8) && !syms.iter().any(|x: &(String, u64)| x.0 == name) { name.clone() } else { names.fresh(r) };
                    let off = if n == 0 { 0 } else { match r.below(4) { 0 => 0, 1 => n as u64, _ => r.below(n) as u64 } };
                    let off = if !sh.mach && r.pct(3) { if sh.is64 { r.u64() } else { r.below(1 << 32) as u64 } } else { off };
                    syms.push((s, off));
                }
            }
            ents.push(Ent0 { name, decl, pay: Some(Pay::Blob(blob(r, n))), syms });
            continue;
        }
        let name = names.fresh(r);
        if k < 40 {
            let n = size(r, &mut budget);
            ents.push(Ent0 {
                name,
                decl: D::Func { sc: scope(r), vi: vis(r), al: align(r, max_al) },
                pay: Some(Pay::Blob(blob(r, n))),
                syms: vec![],
            });
        } else if k < 82 {
            let st = r.pct(25);
            let wr = r.pct(50);
            let zero = r.pct(if zero_bias { 60 } else { 15 });
            let decl = D::Data { sc: scope(r), vi: vis(r), wr, st, al: align(r, max_al) };
            let pay = if zero {
                Pay::Zero(match r.below(12) {
                    0 => 0,
                    1 => 1,
                    2 => *r.pick(&[4096, 65536, 1 << 20, (1 << 20) + 1]),
                    3 => *r.pick(&[1u64 << 31, 1 << 33, 100_000_000_000, 1 << 40]).min(&sh.zero_max),
                    _ => r.range(1, 300) as u64,
                })
            } else {
                let n = size(r, &mut budget);
                Pay::Blob(if st && r.pct(70) { cstr(r, n) } else { blob(r, n) })
            };
            ents.push(Ent0 { name, decl, pay: Some(pay), syms: vec![] });
        } else {
            ents.push(Ent0 { name, decl: if r.pct(50) { D::ImpF } else { D::ImpD }, pay: None, syms: vec![] });
        }
    }
    // a stub or a table many times
    if r.pct(12) {
        let src: Vec<Vec<u8>> = ents.iter().filter(|e| e.syms.is_empty()).filter_map(|e| match &e.pay { Some(Pay::Blob(b)) => Some(b.clone()), _ => None }).collect();
        if !src.is_empty() {
            let b = r.pick(&src).clone();
            let alike = r.pct(70);
            let (mut df, mut dd) = (None, None);
            for e in ents.iter_mut() {
                let room = b.len() <= budget;
                if let (Some(Pay::Blob(x)), true, true) = (&mut e.pay, e.syms.is_empty(), room) {
                    if r.pct(80) {
                        budget -= b.len();
                        *x = b.clone();
                        if alike {
                            match e.decl {
                                D::Func { .. } => e.decl = *df.get_or_insert(e.decl),
                                D::Data { .. } => e.decl = *dd.get_or_insert(e.decl),
                                _ => {}
                            }
                        }
                    }
                }
            }
        }
    }
    // links
    let mut links: Vec<(String, String, u64, Rl)> = vec![];
    if sh.relocs && !ents.is_empty() && r.pct(85) {
        let srcs: Vec<usize> = (0..ents.len()).filter(|i| matches!(ents[*i].pay, Some(Pay::Blob(_)))).collect();
        let nl = match r.below(6) {
            0 => r.range(0, 3),
            _ => r.range(0, sh.max_links),
        };
        if !srcs.is_empty() {
            let hot = *r.pick(&srcs);
            for _ in 0..nl {
                let f = if r.pct(30) { hot } else { *r.pick(&srcs) };
                let t = r.below(ents.len());
                let (fe, te) = (&ents[f], &ents[t]);
                let len = fe.pay.as_ref().unwrap().mem_size();
                let sect = fe.decl.is_sect() || te.decl.is_sect();
                let small = |r: &mut Rng| *r.pick(&[0i32, 0, 1, -1, -4, 4, 8, 127, -128, 1 << 20, i32::MIN, i32::MAX]);
                let rl = if sh.mach {
                    if fe.decl.is_sect() && !te.decl.is_sect() && r.pct(25) {
                        Rl::Raw(r.below(10) as u32, 0)
                    } else if fe.decl.is_sect() {
                        Rl::Debug(*r.pick(&[4, 8]), if te.decl.is_sect() { small(r) } else { 0 })
                    } else if te.decl.is_sect() {
                        continue;
                    } else if r.pct(80) {
                        Rl::Auto
                    } else {
                        Rl::Raw(r.below(10) as u32, 0)
                    }
                } else if sect || r.pct(20) {
                    if r.pct(60) {
                        Rl::Debug(*r.pick(&[4, 8]), small(r))
                    } else {
                        let top = if sh.is64 && r.pct(5) { u32::MAX as usize } else { 255 };
                        Rl::Raw(r.range(0, top) as u32, small(r))
                    }
                } else {
                    Rl::Auto
                };
                let w = match rl {
                    Rl::Auto if fe.decl.is_func() => 4,
                    Rl::Auto => 8,
                    Rl::Raw(0, _) => 8,
                    Rl::Raw(..) => 4,
                    Rl::Debug(s, _) => s as u64,
                };
                let at = if len >= w {
                    match r.below(6) {
                        0 => 0,
                        1 => len - w,
                        _ => r.below((len - w) as usize + 1) as u64,
                    }
                } else if sh.mach {
                    continue;
                } else {
                    r.below(16) as u64
                };
                let at = if !sh.mach && r.pct(2) {
                    if sh.is64 {
                        r.u64()
                    } else {
                        r.below(1 << 32) as u64
                    }
                } else {
                    at
                };
                let n = if r.pct(3) { 2 } else { 1 };
                for _ in 0..n {
                    links.push((fe.name.clone(), te.name.clone(), at, rl));
                }
            }
        }
    }
    // calls with prerequisites
    let mut plan = Plan::default();
    let mut last_decl: HashMap<&str, usize> = HashMap::new(); // op after which the name is final
    let mut first_decl: HashMap<&str, usize> = HashMap::new();
    let mut tail: Vec<usize> = vec![];
    for e in &ents {
        let n = &e.name;
        let imp = match e.decl {
            D::Func { .. } => Some(D::ImpF),
            D::Data { .. } => Some(D::ImpD),
            _ => None,
        };
        let mut prev: Option<usize> = None;
        let add = |plan: &mut Plan, op: Op, prev: &mut Option<usize>| {
            let i = plan.add(op, prev.iter().copied().collect());
            *prev = Some(i);
            i
        };
        let mut f0 = None;
        if let Some(imp) = imp {
            if r.pct(25) {
                for _ in 0..r.range(1, 2) {
                    let op = if r.pct(50) { Op::Import(n.clone(), imp == D::ImpF) } else { Op::Declare(n.clone(), imp) };
                    let i = add(&mut plan, op, &mut prev);
                    f0.get_or_insert(i);
                }
            }
        }
        let blobp = match &e.pay {
            Some(Pay::Blob(b)) if e.syms.is_empty() => Some(b.clone()),
            _ => None,
        };
        let fused = blobp.is_some() && r.pct(20);
        let i = if fused {
            add(&mut plan, Op::DeclareWith(n.clone(), e.decl, blobp.clone().unwrap()), &mut prev)
        } else if e.decl.is_import() && r.pct(50) {
            add(&mut plan, Op::Import(n.clone(), e.decl == D::ImpF), &mut prev)
        } else {
            add(&mut plan, Op::Declare(n.clone(), e.decl), &mut prev)
        };
        f0.get_or_insert(i);
        first_decl.insert(n, f0.unwrap());
        last_decl.insert(n, i);
        // no-op redeclarations, anywhere later
        if r.pct(12) {
            for _ in 0..r.range(1, 3) {
                let d = match imp {
                    Some(x) if r.pct(50) => x,
                    _ => e.decl,
                };
                tail.push(plan.add(Op::Declare(n.clone(), d), vec![i]));
            }
        }
        if !fused {
            if let Some(p) = &e.pay {
                let op = match p {
                    Pay::Zero(k) if r.pct(80) => Op::DefineZero(n.clone(), *k),
                    Pay::Blob(b) if e.syms.is_empty() && r.pct(85) => Op::Define(n.clone(), b.clone()),
                    _ => Op::DefineSyms(n.clone(), p.clone(), e.syms.clone()),
                };
                plan.add(op, vec![i]);
            }
        }
    }
    let mut last_link: HashMap<&str, usize> = HashMap::new();
    for (f, t, at, rl) in &links {
        let mut d = vec![last_decl[f.as_str()], first_decl[t.as_str()]];
        if let Some(x) = last_link.get(f.as_str()) {
            d.push(*x);
        }
        let op = if *rl == Rl::Auto && r.pct(70) {
            Op::Link(f.clone(), t.clone(), *at)
        } else {
            Op::LinkWith(f.clone(), t.clone(), *at, *rl)
        };
        let i = plan.add(op, d);
        last_link.insert(f, i);
    }
    let mut ops = plan.linearize(r);
    // batch some leading declarations
    if r.pct(15) {
        let k = ops.iter().take_while(|o| matches!(o, Op::Declare(..))).count();
        if k > 1 {
            let v: Vec<(String, D)> = ops
                .drain(..k)
                .map(|o| match o {
                    Op::Declare(n, d) => (n, d),
                    _ => unreachable!(),
                })
                .collect();
            ops.insert(0, Op::Declarations(v));
        }
    }
    let ns: Vec<String> = ents.iter().map(|e| e.name.clone()).collect();
    Hist { triple: triple.into(), name: artifact_name(r, &ns), lib: r.pct(20), ops }
}

#[derive(Default)]
pub struct Plan {
    pub ops: Vec<Op>,
    pub deps: Vec<Vec<usize>>,
}
impl Plan {
    pub fn add(&mut self, op: Op, deps: Vec<usize>) -> usize {
        self.ops.push(op);
        self.deps.push(deps);
        self.ops.len() - 1
    }
    pub fn linearize(&self, r: &mut Rng) -> Vec<Op> {
        let n = self.ops.len();
        let mut out = vec![vec![]; n];
        let mut need = vec![0; n];
        for i in 0..n {
            for d in &self.deps[i] {
                out[*d].push(i);
                need[i] += 1;
            }
        }
        let mode = r.below(5);
        let mut ready: Vec<usize> = (0..n).filter(|i| need[*i] == 0).collect();
        let mut res = vec![];
        while !ready.is_empty() {
            let k = match mode {
                0 => ready.len() - 1,
                1 => 0,
                2 => {
                    // declarations first, then links, definitions last
                    (0..ready.len())
                        .min_by_key(|k| match self.ops[ready[*k]] {
                            Op::Declare(..) | Op::Import(..) | Op::DeclareWith(..) => 0,
                            Op::Link(..) | Op::LinkWith(..) => 1,
                            _ => 2,
                        })
                        .unwrap()
                }
                _ => r.below(ready.len()),
            };
            let i = if mode == 1 { ready.remove(k) } else { ready.swap_remove(k) };
            res.push(self.ops[i].clone());
            for j in &out[i] {
                need[*j] -= 1;
                if need[*j] == 0 {
                    ready.push(*j);
                }
            }
        }
        res
    }
}

/// Any declaration over a small attribute grid (so that equal ones recur).
pub fn any_decl(r: &mut Rng, narrow: bool) -> D {
    let al = |r: &mut Rng| if narrow { *r.pick(&[None, None, Some(16)]) } else { *r.pick(&[None, None, Some(1), Some(16), Some(64)]) };
    match r.below(10) {
        0 | 1 => D::ImpF,
        2 | 3 => D::ImpD,
        4 | 5 => D::Func { sc: *r.pick(&[Sc::L, Sc::G, Sc::W]), vi: *r.pick(&[Vi::D, Vi::D, Vi::P, Vi::H]), al: al(r) },
        6..=8 => D::Data {
            sc: *r.pick(&[Sc::L, Sc::G, Sc::W]),
            vi: *r.pick(&[Vi::D, Vi::D, Vi::P, Vi::H]),
            wr: r.pct(50),
            st: r.pct(30),
            al: al(r),
        },
        _ => D::Sect { k: *r.pick(&[Sk::Data, Sk::Debug, Sk::Text]), st: r.pct(30), al: al(r) },
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Mix {
    pub names: usize,
    pub ops: usize,
    /// weights: declare, import, batch, declare_with, define, define_zero, define_syms, link, link_with
    pub w: [usize; 9],
    /// make an illegal attempt with this percentage, otherwise steer towards accepted calls
    pub hostile: usize,
    pub complete: usize,
}

/// Hostile call histories over a small set of names.
pub fn hostile(r: &mut Rng, mx: &Mix, triple: &str) -> Hist {
    let mut pool: Vec<String> = vec![];
    let mut names = Names::new(r);
    let nn = r.range(1, mx.names);
    while pool.len() < nn {
        let n = if r.pct(60) { ["a", "b", "c", "d", "ab", "s1", "s2", "_a", ".t"][pool.len() % 9].to_string() + if pool.len() >= 9 { "x" } else { "" } } else { names.fresh(r) };
        if !pool.contains(&n) && n.len() < 400 {
            pool.push(n);
        } else if r.pct(50) {
            pool.push(format!("p{}", pool.len()));
        }
    }
    let nops = r.range(1, mx.ops);
    let wt: usize = mx.w.iter().sum();
    let mut m = Model::default();
    let mut ops = vec![];
    let mut symn = 0;
    let narrow = r.pct(60);
    for _ in 0..nops {
        let mut k = r.below(wt);
        let mut c = 0;
        while k >= mx.w[c] {
            k -= mx.w[c];
            c += 1;
        }
        let host = r.pct(mx.hostile);
        let n = r.pick(&pool).clone();
        let small = |r: &mut Rng| {
            let n = r.below(40);
            r.bytes(n)
        };
        // a declaration likely to be accepted
        let friendly = |r: &mut Rng, n: &str, m: &Model| -> D {
            match m.ents.get(n) {
                None => any_decl(r, narrow),
                Some(e) => match (&e.decl, r.below(3)) {
                    (D::ImpF, 0) => D::Func { sc: scope(r), vi: vis(r), al: None },
                    (D::ImpD, 0) => D::Data { sc: scope(r), vi: vis(r), wr: r.pct(50), st: false, al: None },
                    (D::Func { .. }, 0) => D::ImpF,
                    (D::Data { .. }, 0) => D::ImpD,
                    (d, _) => *d,
                },
            }
        };
        let op = match c {
            0 => {
                let d = if host { any_decl(r, narrow) } else { friendly(r, &n, &m) };
                Op::Declare(n, d)
            }
            1 => {
                let f = match m.ents.get(&n) {
                    Some(e) if !host => matches!(e.decl, D::ImpF | D::Func { .. }),
                    _ => r.pct(50),
                };
                Op::Import(n, f)
            }
            2 => {
                let mut mm = m.clone();
                let mut v = vec![];
                for _ in 0..r.range(0, 5) {
                    let n = r.pick(&pool).clone();
                    let d = if host && r.pct(40) { any_decl(r, narrow) } else { friendly(r, &n, &mm) };
                    mm.apply(&Op::Declare(n.clone(), d));
                    v.push((n, d));
                }
                Op::Declarations(v)
            }
            3 => {
                let d = if host { any_decl(r, narrow) } else { friendly(r, &n, &m) };
                Op::DeclareWith(n, d, small(r))
            }
            4..=6 => {
                let n = if host {
                    n
                } else {
                    let v = m.undefined();
                    if v.is_empty() {
                        n
                    } else {
                        r.pick(&v).clone()
                    }
                };
                match c {
                    4 => Op::Define(n, small(r)),
                    5 => {
                        let n = if host {
                            n
                        } else {
                            let v: Vec<String> = m.undefined().into_iter().filter(|n| m.ents[n].decl.is_data()).collect();
                            if v.is_empty() {
                                n
                            } else {
                                r.pick(&v).clone()
                            }
                        };
                        Op::DefineZero(n, r.below(100) as u64)
                    }
                    _ => {
                        let p = if r.pct(25) { Pay::Zero(r.below(50) as u64) } else { Pay::Blob(small(r)) };
                        let mut s = vec![];
                        for _ in 0..*r.pick(&[0, 0, 1, 2, 3]) {
                            let nm = if host && r.pct(10) {
                                r.pick(&pool).clone()
                            } else {
                                symn += 1;
                                format!("cs{}", symn)
                            };
                            if !s.iter().any(|(k, _): &(String, u64)| *k == nm) {
                                s.push((nm, r.below(p.mem_size() as usize + 1) as u64));
                            }
                        }
                        s.sort();
                        Op::DefineSyms(n, p, s)
                    }
                }
            }
            _ => {
                let t = if r.pct(10) { n.clone() } else { r.pick(&pool).clone() };
                let at = r.below(24) as u64;
                let is_s = |x: &String| m.ents.get(x).map_or(false, |e| e.decl.is_sect());
                if is_s(&n) || is_s(&t) {
                    // automatic links with sections are outside the backends' domain
                    Op::LinkWith(n, t, at, Rl::Debug(*r.pick(&[4, 8]), 0))
                } else if c == 7 {
                    Op::Link(n, t, at)
                } else {
                    let rl = match r.below(3) {
                        0 => Rl::Auto,
                        1 => Rl::Raw(r.below(10) as u32, 0),
                        _ => Rl::Debug(*r.pick(&[4, 8]), 0),
                    };
                    Op::LinkWith(n, t, at, rl)
                }
            }
        };
        m.apply(&op);
        ops.push(op);
    }
    if r.pct(mx.complete) {
        for n in m.undefined() {
            let d = m.ents[&n].decl;
            let op = if d.is_data() && r.pct(20) && m.links_from(&n).next().is_none() {
                Op::DefineZero(n, r.below(64) as u64)
            } else {
                let k = 32 + r.below(20);
                Op::Define(n, r.bytes(k))
            };
            m.apply(&op);
            ops.push(op);
        }
        // a few late calls on the completed artifact
        for _ in 0..r.below(4) {
            let n = r.pick(&pool).clone();
            let op = match r.below(4) {
                0 => Op::Define(n, vec![1, 2, 3]),
                1 => Op::Declare(n, any_decl(r, narrow)),
                2 => Op::Import(n, r.pct(50)),
                _ => Op::Link(n, r.pick(&pool).clone(), 0),
            };
            let mut mm = m.clone();
            mm.apply(&op);
            if mm.complete() {
                m = mm;
                ops.push(op);
            }
        }
    }
    Hist { triple: triple.into(), name: artifact_name(r, &pool), lib: r.pct(20), ops }
}
