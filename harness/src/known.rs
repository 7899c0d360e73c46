//! Genuine defects that are recorded rather than repaired: one probe per entry of
//! known_findings.txt, each running the exact input of the entry. A probe that still shows the
//! recorded symptom prints a KNOWN-FINDING line; one that shows another one is a violation.
use crate::camp::*;
use crate::exec::panic_text;
use crate::targets::*;
use faerie::artifact::SectionKind;
use faerie::{Artifact, Data, Decl, Link, Reloc};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

enum Seen {
    /// the property holds for this input
    Holds,
    /// the recorded symptom
    Recorded,
    /// something else is wrong
    Other(String),
}
struct Probe {
    prop: u32,
    key: &'static str,
    run: fn() -> Seen,
}
const PROBES: &[Probe] = &[
    Probe { prop: 20, key: "mach-section-name-too-long", run: long_name },
    Probe { prop: 20, key: "mach-more-than-251-sections", run: many_sections },
    Probe { prop: 20, key: "mach-section-named-like-default", run: default_name },
    Probe { prop: 20, key: "mach-duplicate-custom-symbol", run: mach_dup },
    Probe { prop: 19, key: "mach-debug-addend", run: debug_addend },
    Probe { prop: 19, key: "mach-raw-link-to-section", run: raw_to_section },
    Probe { prop: 10, key: "elf-custom-section-not-allocated", run: not_alloc },
    Probe { prop: 12, key: "elf-duplicate-custom-symbol", run: elf_dup },
    Probe { prop: 23, key: "elf-own-reference-to-weak", run: own_weak },
];

fn art(t: &str) -> Artifact {
    Artifact::new(target_lexicon(t), "t.o".into())
}
fn target_lexicon(t: &str) -> faerie::Triple {
    faerie::Triple::from_str(t).expect("triple")
}
fn syms(v: &[(&str, u64)]) -> BTreeMap<String, u64> {
    v.iter().map(|(s, o)| (s.to_string(), *o)).collect()
}
fn emit(a: &Artifact) -> Result<Vec<u8>, String> {
    match catch_unwind(AssertUnwindSafe(|| a.emit())) {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(e)) => Err(format!("error {}", e)),
        Err(e) => Err(format!("panic {}", panic_text(e))),
    }
}
fn mach(a: &Artifact) -> Result<(crate::macho::Macho, Vec<u8>), Seen> {
    let b = emit(a).map_err(Seen::Other)?;
    match crate::macho::parse(&b) {
        Ok(m) => Ok((m, b)),
        Err(e) => Err(Seen::Other(format!("unreadable: {}", e))),
    }
}
fn elf(a: &Artifact) -> Result<crate::elf::Elf, Seen> {
    let b = emit(a).map_err(Seen::Other)?;
    crate::elf::parse(&b).map_err(|e| Seen::Other(format!("unreadable: {}", e)))
}
macro_rules! get {
    ($e:expr) => {
        match $e {
            Ok(x) => x,
            Err(s) => return s,
        }
    };
}

fn long_name() -> Seen {
    let n = "seventeen_letters";
    let mut a = art(X64_MAC);
    a.declare(n, Decl::section(SectionKind::Data)).unwrap();
    a.define(n, vec![1, 2, 3]).unwrap();
    match emit(&a) {
        Err(e) if e.starts_with("panic ") => Seen::Recorded,
        // refusing it is fine
        Err(_) => Seen::Holds,
        Ok(b) => match crate::macho::parse(&b) {
            Err(e) => Seen::Other(format!("unreadable: {}", e)),
            Ok(m) => match m.secs.iter().position(|s| !s.sectname.is_empty() && n.starts_with(&s.sectname)) {
                Some(i) if crate::macho::content(&m, i, &b) == [1, 2, 3] => Seen::Holds,
                _ => Seen::Other("the section is missing".into()),
            },
        },
    }
}
fn many_sections() -> Seen {
    let mut a = art(X64_MAC);
    for i in 0..252 {
        let n = format!("s{:03}", i);
        a.declare(&n, Decl::section(SectionKind::Data)).unwrap();
        a.define_with_symbols(&n, Data::Blob(vec![i as u8; 4]), syms(&[(&format!("y{:03}", i), 1)])).unwrap();
    }
    let (m, _) = match emit(&a) {
        Err(e) if e.starts_with("error ") => return Seen::Holds,
        _ => get!(mach(&a)),
    };
    let mut wrong = vec![];
    for i in 0..252 {
        let y = match m.syms.iter().find(|s| s.name == format!("_y{:03}", i)) {
            Some(y) => y,
            None => return Seen::Other(format!("symbol y{:03} is missing", i)),
        };
        let sec = m.secs.iter().position(|s| s.sectname == format!("s{:03}", i));
        if sec.map(|s| s as u64 + 1) != Some(y.sect as u64) {
            wrong.push(i);
        }
    }
    match wrong.as_slice() {
        [] => Seen::Holds,
        [251] => Seen::Recorded,
        w => Seen::Other(format!("symbols of sections {:?} name another section", w)),
    }
}
fn default_name() -> Seen {
    let mut a = art(X64_MAC);
    a.declare("d", Decl::data().global()).unwrap();
    a.define("d", vec![0x11; 8]).unwrap();
    a.declare("__data", Decl::section(SectionKind::Data)).unwrap();
    a.define("__data", vec![0x22; 4]).unwrap();
    let (m, b) = match emit(&a) {
        Err(e) if e.starts_with("error ") => return Seen::Holds,
        // the section headers no longer describe what was written
        Err(_) => return Seen::Recorded,
        Ok(_) => match mach(&a) {
            Ok(x) => x,
            Err(_) => return Seen::Recorded,
        },
    };
    let mine = (0..m.secs.len()).any(|i| m.secs[i].sectname == "__data" && crate::macho::content(&m, i, &b) == [0x22; 4]);
    let at = m.syms.iter().find(|s| s.name == "_d").and_then(|s| {
        let i = (s.sect as usize).checked_sub(1)?;
        let sec = m.secs.get(i)?;
        crate::macho::content(&m, i, &b).get(s.value.checked_sub(sec.addr)? as usize..)?.get(..8)
    });
    let n = m.secs.iter().filter(|s| s.sectname == "__data").count();
    match (mine, at == Some(&[0x11; 8][..]), n) {
        (true, true, _) => Seen::Holds,
        (_, _, 1) => Seen::Recorded,
        x => Seen::Other(format!("{:?}", x)),
    }
}
fn two_sections(t: &str) -> Artifact {
    let mut a = art(t);
    for (n, o) in [(".one", 1), (".two", 2)] {
        a.declare(n, Decl::section(SectionKind::Data)).unwrap();
        a.define_with_symbols(n, Data::Blob(vec![7; 8]), syms(&[("same", o)])).unwrap();
    }
    a
}
fn mach_dup() -> Seen {
    match emit(&two_sections(X64_MAC)) {
        Err(e) if e.starts_with("error ") => return Seen::Holds,
        _ => {}
    }
    let (m, _) = get!(mach(&two_sections(X64_MAC)));
    let n = m.syms.iter().filter(|s| s.name == "_same").count();
    match n {
        2 => Seen::Holds,
        1 => Seen::Recorded,
        n => Seen::Other(format!("{} symbols `same`", n)),
    }
}
fn elf_dup() -> Seen {
    let e = get!(elf(&two_sections(X64)));
    let v: Vec<(u64, String)> =
        e.syms.iter().filter(|s| s.name == "same").map(|s| (s.value, e.secs[s.sec as usize].name.clone())).collect();
    match v.len() {
        2 => Seen::Holds,
        1 if v[0] == (2, ".two".into()) || v[0] == (1, ".one".into()) => Seen::Recorded,
        _ => Seen::Other(format!("symbols `same`: {:?}", v)),
    }
}
fn debug_art(rl: Reloc) -> Artifact {
    let mut a = art(X64_MAC);
    a.declare("f", Decl::function().global()).unwrap();
    a.define("f", vec![0xc3; 16]).unwrap();
    a.declare(".debug_info", Decl::section(SectionKind::Debug)).unwrap();
    a.define(".debug_info", vec![0; 16]).unwrap();
    a.link_with(Link { from: ".debug_info", to: "f", at: 8 }, rl).unwrap();
    a
}
fn debug_addend() -> Seen {
    let (m, b) = get!(mach(&debug_art(Reloc::Debug { size: 8, addend: 5 })));
    let i = match m.secs.iter().position(|s| s.sectname == "__debug_info") {
        Some(i) => i,
        None => return Seen::Other("no __debug_info".into()),
    };
    // the addend of a Mach-O relocation is what the section holds at the place
    let stored = crate::macho::content(&m, i, &b).get(8..16).map(|x| u64::from_le_bytes(x.try_into().unwrap()));
    match (m.secs[i].relocs.len(), stored) {
        (1, Some(5)) => Seen::Holds,
        (1, Some(0)) => Seen::Recorded,
        x => Seen::Other(format!("{:?}", x)),
    }
}
fn raw_to_section() -> Seen {
    let mut a = debug_art(Reloc::Debug { size: 8, addend: 0 });
    a.link_with(Link { from: "f", to: ".debug_info", at: 4 }, Reloc::Raw { reloc: 0, addend: 0 }).unwrap();
    let (m, _) = get!(mach(&a));
    let n = |w: &str| m.secs.iter().filter(|s| s.sectname == w).map(|s| s.relocs.len()).sum::<usize>();
    match (n("__text"), n("__debug_info")) {
        (0, 1) => Seen::Recorded,
        (1, 1) => Seen::Holds,
        x => Seen::Other(format!("{:?} relocations", x)),
    }
}
fn not_alloc() -> Seen {
    let mut a = art(X64);
    for (n, k) in [("my_data", SectionKind::Data), ("my_text", SectionKind::Text)] {
        a.declare(n, Decl::section(k)).unwrap();
        a.define(n, vec![1; 4]).unwrap();
    }
    let e = get!(elf(&a));
    let f = |n: &str| e.secs.iter().find(|s| s.name == n).map(|s| s.flags);
    match (f("my_data"), f("my_text")) {
        (Some(0), Some(0)) => Seen::Recorded,
        (Some(d), Some(t)) if d & 7 == 3 && t & 3 == 2 => Seen::Holds,
        x => Seen::Other(format!("section flags {:x?}", x)),
    }
}
fn own_weak() -> Seen {
    let mut a = art(X64);
    a.declare("w", Decl::function().weak()).unwrap();
    a.define("w", vec![0xc3]).unwrap();
    a.declare("f", Decl::function().global()).unwrap();
    a.define("f", vec![0xe8, 0, 0, 0, 0, 0xc3]).unwrap();
    a.link(Link { from: "f", to: "w", at: 1 }).unwrap();
    let e = get!(elf(&a));
    let r: Vec<_> = e.rels.iter().flat_map(|r| &r.relas).collect();
    match r.as_slice() {
        [r] => match e.syms.get(r.sym as usize) {
            Some(s) if s.name == "w" => Seen::Holds,
            Some(s) if s.typ == 3 && e.secs[s.sec as usize].name == ".text.w" => Seen::Recorded,
            s => Seen::Other(format!("the call goes to {:?}", s)),
        },
        _ => Seen::Other(format!("{} relocations", r.len())),
    }
}

/// `known: property=C20 key=... text` of known_findings.txt
fn listed(c: &Camp) -> BTreeMap<String, String> {
    let base = std::env::var("FMON_VERIF").unwrap_or_else(|_| "/verif".into());
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", base)).unwrap_or_default();
    let pre = format!("known: property={} key=", c.cid());
    t.lines()
        .filter_map(|l| l.strip_prefix(&pre))
        .filter_map(|l| l.split_once(' '))
        .map(|(k, v)| (k.to_string(), v.to_string()))
        .collect()
}
pub fn probes(c: &mut Camp) {
    if c.only.is_some() || c.stop() {
        return;
    }
    let list = listed(c);
    let id = c.id;
    for p in PROBES.iter().filter(|p| p.prop == id) {
        let label = format!("probe-{}", p.key);
        if let Some((l, _, _)) = &c.replay {
            if *l != label {
                continue;
            }
        }
        let text = format!("# the input is that of the probe {} in harness/src/known.rs\n", p.key);
        c.st.add("probes of known findings", 1);
        let seen = match catch_unwind(AssertUnwindSafe(|| (p.run)())) {
            Ok(s) => s,
            Err(e) => Seen::Other(format!("a call of the probe is refused: {}", panic_text(e))),
        };
        match (seen, list.get(p.key)) {
            (Seen::Holds, _) => c.st.add("known findings no longer seen", 1),
            (Seen::Recorded, Some(t)) => {
                c.known.insert(p.key.to_string(), t.clone());
            }
            (Seen::Recorded, None) => c.violate(&label, "probe.unlisted", format!("{} is not listed in known_findings.txt", p.key), &text),
            (Seen::Other(m), _) => c.violate(&label, "probe.other", format!("{}: {}", p.key, m), &text),
        }
    }
}
