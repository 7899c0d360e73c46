//! Campaigns for scale (C13), targets (C14) and order independence (C29).
use crate::camp::*;
use crate::camps::*;
use crate::exec::*;
use crate::gen::*;
use crate::mon::*;
use crate::ops::*;
use crate::p;
use crate::rng::*;
use crate::targets::*;
use std::collections::{BTreeMap, HashMap, HashSet};

// ------------------------------------------------------------------ C13

/// Number of section headers aimed at.
const COUNTS: &[usize] = &[
    0xff00, 0xff01, 0xfeff, 0x10000, 0xfefe, 0xff02, 0x10001, 0xffff, 70_000, 0xff05, 0xfff1, 0xfff2, 0xff03, 0x10005,
    0xfffe, 80_000, 0xff10, 131_072, 0x10100, 0xfe00, 0xff04, 100_000, 0x1ff00, 0x20001,
];

/// A wide artifact: about `n` sections of mixed kinds, links reaching over the whole range.
pub fn wide(r: &mut Rng, n: usize, triple: &str) -> Hist {
    let tgt = find(triple);
    let is64 = tgt.is64.unwrap_or(true);
    let flavour = r.below(6);
    let nimp = *r.pick(&[0, 1, 3, 40, 300]);
    let nlinks = *r.pick(&[0, 5, 60, 1500, 4000]);
    // sources chosen first, so that the number of relocation sections is known
    let nsrc = if nlinks == 0 { 0 } else { *r.pick(&[1, 3, 40, 1000]) };
    let ndef = n.saturating_sub(4 + nsrc).max(nsrc + 1);
    #[derive(Clone)]
    struct E {
        name: String,
        d: D,
        pay: Pay,
        syms: Vec<(String, u64)>,
    }
    let mut v: Vec<E> = Vec::with_capacity(ndef);
    let mut r2 = Rng::new(r.u64());
    let tiny = |r: &mut Rng| {
        let n = *r.pick(&[0usize, 1, 3, 8, 8, 9, 16]);
        r.bytes(n)
    };
    for i in 0..ndef {
        let src = i < nsrc;
        let k = match flavour {
            0 => 0,
            1 => 50,
            2 if !src => 85,
            3 => r.below(100),
            4 => *r.pick(&[0, 50, 95]),
            _ => r.below(100),
        };
        let mut syms = vec![];
        let (d, pay) = if k < 40 {
            (D::Func { sc: scope(r), vi: vis(r), al: align(r, 4) }, Pay::Blob(tiny(r)))
        } else if k < 80 || (k < 92 && src) {
            (
                D::Data { sc: scope(r), vi: vis(r), wr: r.pct(50), st: r.pct(10), al: align(r, 4) },
                Pay::Blob(tiny(r)),
            )
        } else if k < 92 {
            (D::Data { sc: scope(r), vi: vis(r), wr: r.pct(50), st: false, al: None }, Pay::Zero(r.below(100_000) as u64))
        } else {
            let b = tiny(r);
            if r.pct(50) {
                for j in 0..r.range(1, 3) {
                    syms.push((format!("cs{}_{}", i, j), r.below(b.len() + 1) as u64));
                }
            }
            (D::Sect { k: *r.pick(&[Sk::Data, Sk::Debug, Sk::Text]), st: r.pct(20), al: None }, Pay::Blob(b))
        };
        let pre = if d.is_func() { "f" } else if d.is_sect() { ".sec" } else { "d" };
        v.push(E { name: format!("{}{:x}", pre, i), d, pay, syms });
    }
    let srcs: Vec<usize> = (0..nsrc).collect();
    // shuffling only changes the order of declaration
    let mut order: Vec<usize> = (0..ndef).collect();
    if r.pct(70) {
        r.shuffle(&mut order);
    }
    let mut ops: Vec<Op> = vec![];
    let imps: Vec<(String, bool)> = (0..nimp).map(|i| (format!("imp{}", i), r.pct(50))).collect();
    for (n, f) in &imps {
        ops.push(Op::Import(n.clone(), *f));
    }
    for i in &order {
        let e = &v[*i];
        match &e.pay {
            Pay::Blob(b) if e.syms.is_empty() && r.pct(50) => ops.push(Op::DeclareWith(e.name.clone(), e.d, b.clone())),
            _ => ops.push(Op::Declare(e.name.clone(), e.d)),
        }
    }
    let fused: HashSet<String> = ops
        .iter()
        .filter_map(|o| match o {
            Op::DeclareWith(n, ..) => Some(n.clone()),
            _ => None,
        })
        .collect();
    let mut rest: Vec<usize> = (0..ndef).filter(|i| !fused.contains(&v[*i].name)).collect();
    if r.pct(50) {
        r.shuffle(&mut rest);
    }
    for i in rest {
        let e = &v[i];
        ops.push(match &e.pay {
            Pay::Zero(k) => Op::DefineZero(e.name.clone(), *k),
            Pay::Blob(b) if e.syms.is_empty() => Op::Define(e.name.clone(), b.clone()),
            p => Op::DefineSyms(e.name.clone(), p.clone(), e.syms.clone()),
        });
    }
    if nsrc > 0 {
        for k in 0..nlinks.max(nsrc) {
            // every source gets at least one link
            let f = &v[if k < nsrc { srcs[k] } else { *r2.pick(&srcs) }];
            let (tn, td): (String, D) = if nimp > 0 && r2.pct(20) {
                let x = r2.pick(&imps);
                (x.0.clone(), if x.1 { D::ImpF } else { D::ImpD })
            } else {
                let x = match r2.below(4) {
                    0 => r2.below(ndef.min(300)),
                    1 => ndef - 1 - r2.below(ndef.min(800)),
                    _ => r2.below(ndef),
                };
                (v[x].name.clone(), v[x].d)
            };
            let at = r2.below(16) as u64;
            let sect = f.d.is_sect() || td.is_sect();
            if sect || r2.pct(20) {
                let rl = if r2.pct(50) || !is64 {
                    Rl::Debug(*r2.pick(&[4, 8]), r2.below(100) as i32 - 50)
                } else {
                    Rl::Raw(r2.below(40) as u32, r2.below(100) as i32 - 50)
                };
                ops.push(Op::LinkWith(f.name.clone(), tn, at, rl));
            } else {
                ops.push(Op::Link(f.name.clone(), tn, at));
            }
        }
    }
    Hist { triple: triple.into(), name: "wide.o".into(), lib: r.pct(20), ops }
}

pub fn scale(c: &mut Camp) {
    let o = Opt { every: false, gate: 0, elf: true, mach: false };
    let n = c.n(32, 600);
    c.threads = c.threads.min(8);
    c.cases(
        "wide-artifacts",
        "artifacts whose section count is at, just below, just above and well beyond 0xff00 and 0x10000, with mixed kinds, scopes, zero-init data, custom sections with symbols, imports and links between low and high indices; each ELF object is decoded with extended numbering and compared item by item with the model; non-trivial: more than 0xfd00 sections",
        n,
        &|r, i| {
            let n = COUNTS[i as usize % COUNTS.len()] + if i as usize >= COUNTS.len() && r.pct(40) { r.below(6) } else { 0 };
            let t = if i % 3 == 2 {
                *r.pick(&["i686-unknown-linux-gnu", "powerpc64-unknown-linux-gnu", "aarch64_be-unknown-linux-gnu", "armeb-unknown-linux-gnueabi"])
            } else {
                X64
            };
            wide(r, n, t)
        },
        &|h, _, st| {
            guard(|| {
                let d = crate::exec::run(h, &o);
                let mut l = d.log;
                l.obs.clear();
                if let Some(b) = &d.elf {
                    if let Ok(e) = crate::elf::parse(b) {
                        st.add(
                            match e.secs.len() {
                                0..=0xfeff => "objects below the threshold",
                                0xff00..=0xffff => "objects with 0xff00..0xffff sections",
                                _ => "objects with more than 0xffff sections",
                            },
                            1,
                        );
                        st.case(hash_bytes(&b[..]), e.secs.len() > 0xfd00);
                    }
                }
                l
            })
        },
    );
    // the neighbourhood of the threshold, one by one
    let n = c.n(8, 64);
    c.cases(
        "around-the-threshold",
        "section counts 0xfefc.. one by one, functions only, with one link from the first to the last",
        n,
        &|_, i| {
            let nd = 0xff00 - 8 + i as usize;
            let mut ops = vec![];
            for k in 0..nd {
                ops.push(Op::DeclareWith(
                    format!("f{:x}", k),
                    D::Func { sc: if k % 7 == 0 { Sc::G } else { Sc::L }, vi: Vi::D, al: None },
                    (k as u32).to_le_bytes().to_vec(),
                ));
            }
            ops.push(Op::Link("f0".into(), format!("f{:x}", nd - 1), 0));
            ops.push(Op::Link(format!("f{:x}", nd - 1), "f1".into(), 0));
            Hist { triple: X64.into(), name: "w.o".into(), lib: false, ops }
        },
        &|h, _, st| {
            guard(|| {
                let d = crate::exec::run(h, &o);
                let mut l = d.log;
                l.obs.clear();
                st.case(hash_bytes(h.text().as_bytes()), d.elf.is_some());
                l
            })
        },
    );
}

/// Many items of one kind; used by the object properties.
pub fn bulk(r: &mut Rng, i: u64, mach: bool) -> Hist {
    let mut ops = vec![];
    let big = 66_000 + r.below(3000);
    let triple = if mach { X64_MAC } else { X64 };
    let f = |n: &str| Op::Declare(n.into(), D::Func { sc: Sc::G, vi: Vi::D, al: None });
    match i % 8 {
        0 => {
            // symbols of one custom section
            ops.push(Op::Declare("sec".into(), D::Sect { k: Sk::Data, st: false, al: None }));
            let mut s: Vec<(String, u64)> = (0..big).map(|k| (format!("s{:x}", k), r.below(1000) as u64)).collect();
            s.sort();
            ops.push(Op::DefineSyms("sec".into(), Pay::Blob(r.bytes(1000)), s));
            ops.push(f("g"));
            ops.push(Op::Define("g".into(), vec![0x90; 40]));
            ops.push(Op::Import("x".into(), true));
            ops.push(Op::Link("g".into(), "x".into(), 1));
            ops.push(Op::Link("g".into(), "g".into(), 9));
        }
        1 => {
            // relocations of one function
            ops.push(f("g"));
            ops.push(Op::Declare("d".into(), D::Data { sc: Sc::L, vi: Vi::D, wr: true, st: false, al: None }));
            ops.push(Op::Import("x".into(), true));
            ops.push(Op::Define("g".into(), vec![0; 4 * big]));
            ops.push(Op::Define("d".into(), vec![0; 16]));
            for k in 0..big {
                ops.push(Op::Link("g".into(), r.pick(&["g", "d", "x"]).to_string(), 4 * k as u64));
            }
        }
        2 => {
            // imports, each used once
            ops.push(f("g"));
            let n = if i / 8 % 2 == 0 { big } else { 6000 };
            ops.push(Op::Define("g".into(), vec![0; 4 * n]));
            for k in 0..n {
                ops.push(Op::Import(format!("i{:x}", k), k % 3 == 0));
            }
            for k in 0..n {
                ops.push(Op::Link("g".into(), format!("i{:x}", n - 1 - k), 4 * k as u64));
            }
        }
        3 => {
            // many definitions of all kinds with a relocation each
            let n = 9000;
            for k in 0..n {
                let d = if k % 2 == 0 {
                    D::Func { sc: scope(r), vi: vis(r), al: align(r, 6) }
                } else {
                    D::Data { sc: scope(r), vi: vis(r), wr: r.pct(50), st: false, al: align(r, 6) }
                };
                let l = 8 + r.below(20);
                ops.push(Op::DeclareWith(format!("e{}", k), d, r.bytes(l)));
            }
            for k in 0..n {
                ops.push(Op::Link(format!("e{}", k), format!("e{}", r.below(n)), 0));
            }
        }
        4 => {
            // contents much larger than any buffer
            for k in 0..4 {
                let n = 3_000_000 + r.below(9);
                ops.push(Op::DeclareWith(
                    format!("b{}", k),
                    D::Data { sc: Sc::G, vi: Vi::D, wr: k % 2 == 0, st: false, al: Some(4096) },
                    r.bytes(n),
                ));
                ops.push(Op::Link(format!("b{}", k), "b0".into(), n as u64 - 8));
            }
            ops.push(f("g"));
            ops.push(Op::Define("g".into(), r.bytes(70_001)));
            ops.push(Op::Link("g".into(), "b3".into(), 70_001 - 4));
        }
        5 => {
            // offsets beyond 2^24 in the file and in the section
            let w = r.pct(50);
            let dt = |al| D::Data { sc: Sc::G, vi: Vi::D, wr: w, st: false, al };
            ops.push(Op::DeclareWith("big".into(), dt(None), vec![0x5a; (1 << 24) + 4097]));
            ops.push(Op::DeclareWith("after".into(), dt(Some(32)), r.bytes(77)));
            ops.push(Op::DeclareWith("g".into(), D::Func { sc: Sc::L, vi: Vi::D, al: None }, r.bytes(50)));
            ops.push(Op::Import("x".into(), false));
            ops.push(Op::Link("big".into(), "after".into(), (1 << 24) + 1));
            ops.push(Op::Link("big".into(), "x".into(), (1 << 24) + 4089));
            ops.push(Op::Link("after".into(), "big".into(), 8));
            ops.push(Op::Link("g".into(), "after".into(), 3));
            ops.push(Op::Declare("sec".into(), D::Sect { k: Sk::Debug, st: false, al: None }));
            ops.push(Op::DefineSyms("sec".into(), Pay::Blob(vec![1; (1 << 24) + 99]), vec![("end".into(), (1 << 24) + 99), ("mid".into(), 1 << 24)]));
            ops.push(Op::LinkWith("sec".into(), "after".into(), (1 << 24) + 11, Rl::Debug(8, 0)));
        }
        6 => {
            // string tables of megabytes, names longer than 16 bits
            for (k, l) in [65_534usize, 65_535, 65_536, 65_537, 131_073, 1_000_003, 9, 2_000_000].iter().enumerate() {
                let n = format!("{}{}", "n".repeat(*l), k);
                if k % 4 == 3 {
                    ops.push(Op::Import(n.clone(), k % 8 == 3));
                } else {
                    ops.push(Op::DeclareWith(n.clone(), D::Func { sc: scope(r), vi: Vi::D, al: None }, r.bytes(20)));
                    ops.push(Op::Link(n.clone(), n, 3));
                }
            }
            for k in 0..200 {
                ops.push(Op::DeclareWith(format!("t{}", k), D::Func { sc: scope(r), vi: vis(r), al: None }, r.bytes(9)));
            }
        }
        _ => {
            // redeclared and upgraded imports
            let n = 3000;
            for k in 0..n {
                ops.push(Op::Import(format!("u{}", k), true));
            }
            let mut idx: Vec<usize> = (0..n).collect();
            r.shuffle(&mut idx);
            for k in idx {
                if k % 3 != 0 {
                    ops.push(Op::DeclareWith(format!("u{}", k), D::Func { sc: scope(r), vi: Vi::D, al: None }, vec![k as u8; 5]));
                }
            }
            for k in 0..n {
                if k % 3 != 0 {
                    ops.push(Op::Link(format!("u{}", k), format!("u{}", r.below(n)), 1));
                }
            }
        }
    }
    Hist { triple: triple.into(), name: "bulk.o".into(), lib: r.pct(20), ops }
}

// ------------------------------------------------------------------ C14

pub fn targets(c: &mut Camp) {
    let n = c.n(15_000, 800_000);
    c.cases(
        "every-target",
        "each history is emitted for every supported target in ELF and, where the architecture is supported, in Mach-O; every header is compared with a hand-written machine table and every object is decoded with the class and byte order its header announces; symbols, contents, alignments and relocations must be the same for all targets (type of the pointer-sized relocation apart); non-trivial: every target's object was judged",
        n,
        &|r, i| {
            let mut sh = Shape { is64: false, zero_max: 1 << 28, mach: i % 2 == 1, max_defs: 10, ..Shape::default() };
            if i % 2 == 1 && r.pct(60) {
                // without links, so that Mach-O objects exist for other architectures too
                sh.relocs = false;
            }
            complete(r, &sh, X64)
        },
        &|h, _, st| guard(|| target_case(h, st)),
    );
}
fn target_case(h: &Hist, st: &mut Stats) -> Log {
    let mut l = Log::default();
    let o = Opt::default();
    let mut base: Option<BTreeMap<String, String>> = None;
    let mut base_m: Option<BTreeMap<String, String>> = None;
    let mut judged = 0;
    for t in TARGETS {
        let h2 = Hist { triple: t.triple.into(), ..h.clone() };
        let d = crate::exec::run(&h2, &o);
        for f in &d.log.fails {
            if f.props & p!(14) != 0 {
                l.fails.push(Fail { msg: format!("{}: {}", t.triple, f.msg), ..f.clone() });
            }
        }
        for (k, v) in &d.log.judged {
            *l.judged.entry(k).or_default() += v;
        }
        let (m, e): (BTreeMap<_, _>, BTreeMap<_, _>) = d.log.obs.clone().into_iter().partition(|x| x.0.starts_with("mach"));
        for (have, got, base, what) in [(d.elf.is_some(), e, &mut base, "ELF"), (d.mach.is_some(), m, &mut base_m, "Mach-O")] {
            if !have {
                continue;
            }
            judged += 1;
            match base {
                None => *base = Some(got),
                Some(b) => {
                    for k in b.keys().chain(got.keys()) {
                        if b.get(k) != got.get(k) {
                            l.fail(
                                p!(14),
                                "target.meaning",
                                format!("{} {}: {} is {:?}, for x86_64 it is {:?}", what, t.triple, trunc(k, 60), got.get(k), b.get(k)),
                            );
                            break;
                        }
                    }
                    l.saw("objects compared across targets", 1);
                }
            }
        }
    }
    if judged < 2 {
        st.add("histories outside the domain of all targets", 1);
    }
    st.case(hash_bytes(h.text().as_bytes()), judged >= TARGETS.len() - 1);
    l
}

// ------------------------------------------------------------------ C29

/// Accepted calls only, with failing batches cut to their accepted prefix.
pub fn accepted(h: &Hist) -> Hist {
    let mut m = crate::model::Model::default();
    let mut ops = vec![];
    for op in &h.ops {
        match op {
            Op::Declarations(v) => {
                let mut k = 0;
                for (n, d) in v {
                    if m.apply(&Op::Declare(n.clone(), *d))[0] != Out::Ok {
                        break;
                    }
                    k += 1;
                }
                if k > 0 {
                    ops.push(Op::Declarations(v[..k].to_vec()));
                }
            }
            Op::DeclareWith(n, d, _) => {
                let mut m2 = m.clone();
                if m2.apply(op)[0] == Out::Ok {
                    m = m2;
                    ops.push(op.clone());
                } else if m.apply(&Op::Declare(n.clone(), *d))[0] == Out::Ok {
                    ops.push(Op::Declare(n.clone(), *d));
                }
            }
            _ => {
                if m.apply(op)[0] == Out::Ok {
                    ops.push(op.clone());
                }
            }
        }
    }
    Hist { ops, ..h.clone() }
}
fn decls_of(op: &Op) -> Vec<&str> {
    match op {
        Op::Declare(n, _) | Op::DeclareWith(n, _, _) | Op::Import(n, _) => vec![n],
        Op::Declarations(v) => v.iter().map(|x| x.0.as_str()).collect(),
        _ => vec![],
    }
}
/// Split compound calls, or fuse simple ones.
fn rewrite(r: &mut Rng, ops: &[Op]) -> Vec<Op> {
    let mut out = vec![];
    for op in ops {
        match op {
            Op::Declarations(v) if r.pct(80) => out.extend(v.iter().map(|(n, d)| Op::Declare(n.clone(), *d))),
            Op::DeclareWith(n, d, b) if r.pct(60) => {
                out.push(Op::Declare(n.clone(), *d));
                out.push(Op::Define(n.clone(), b.clone()));
            }
            Op::Import(n, f) if r.pct(50) => out.push(Op::Declare(n.clone(), if *f { D::ImpF } else { D::ImpD })),
            Op::Declare(n, D::ImpF) if r.pct(50) => out.push(Op::Import(n.clone(), true)),
            Op::Declare(n, D::ImpD) if r.pct(50) => out.push(Op::Import(n.clone(), false)),
            Op::Declare(n, d) if r.pct(10) => out.push(Op::Declarations(vec![(n.clone(), *d)])),
            Op::Declare(n, d) if r.pct(10) => {
                // a repeated declaration is a no-op
                out.push(op.clone());
                out.push(Op::Declare(n.clone(), *d));
            }
            Op::Define(n, b) if r.pct(20) => out.push(Op::DefineSyms(n.clone(), Pay::Blob(b.clone()), vec![])),
            Op::DefineZero(n, k) if r.pct(20) => out.push(Op::DefineSyms(n.clone(), Pay::Zero(*k), vec![])),
            Op::Link(f, t, a) if r.pct(30) => out.push(Op::LinkWith(f.clone(), t.clone(), *a, Rl::Auto)),
            o => out.push(o.clone()),
        }
    }
    out
}
/// A random order of the same calls that respects what depends on what.
fn permute(r: &mut Rng, ops: &[Op]) -> Vec<Op> {
    let mut plan = Plan::default();
    let mut last: HashMap<&str, usize> = HashMap::new(); // last declare/define of the name
    let mut last_decl: HashMap<&str, usize> = HashMap::new();
    let mut first_decl: HashMap<&str, usize> = HashMap::new();
    let mut last_link: HashMap<&str, usize> = HashMap::new();
    for (i, op) in ops.iter().enumerate() {
        let mut deps = vec![];
        match op {
            Op::Link(f, t, _) | Op::LinkWith(f, t, _, _) => {
                deps.extend(last_decl.get(f.as_str()));
                deps.extend(first_decl.get(t.as_str()));
                deps.extend(last_link.get(f.as_str()));
                last_link.insert(f, i);
            }
            Op::Define(n, _) | Op::DefineZero(n, _) | Op::DefineSyms(n, _, _) => {
                deps.extend(last.get(n.as_str()));
                last.insert(n, i);
            }
            _ => {
                for n in decls_of(op) {
                    deps.extend(last.get(n));
                }
                for n in decls_of(op) {
                    last.insert(n, i);
                    last_decl.insert(n, i);
                    first_decl.entry(n).or_insert(i);
                }
            }
        }
        deps.sort();
        deps.dedup();
        plan.add(op.clone(), deps);
    }
    if r.pct(10) {
        // a single adjacent swap of independent calls
        let mut v: Vec<Op> = ops.to_vec();
        if v.len() > 1 {
            let k = r.below(v.len() - 1);
            if !plan.deps[k + 1].contains(&k) {
                v.swap(k, k + 1);
            }
        }
        return v;
    }
    plan.linearize(r)
}
/// Insert calls about new names at random places.
fn extend(r: &mut Rng, h: &Hist, ops: &[Op]) -> Vec<Op> {
    let m = crate::model::Model::run(ops);
    let mut names: HashSet<String> = m.order.iter().cloned().collect();
    for (_, _, d) in m.defs() {
        names.extend(d.syms.keys().cloned());
    }
    let sh = Shape { mach: true, is64: false, max_defs: *r.pick(&[1, 2, 5, 12]), max_links: 12, budget: 5000, zero_max: 1 << 20, ..Shape::default() };
    let x = complete(r, &sh, &h.triple);
    // fresh names
    let mut map: HashMap<String, String> = HashMap::new();
    let mut k = 0;
    let mut fresh = |n: &str, sect: bool, names: &mut HashSet<String>| -> String {
        if let Some(v) = map.get(n) {
            return v.clone();
        }
        let mut s = n.to_string();
        while names.contains(&s) {
            k += 1;
            s = if sect { format!("zs{}", k) } else { format!("{}zz{}", n, k) };
        }
        names.insert(s.clone());
        map.insert(n.to_string(), s.clone());
        s
    };
    let mut add = vec![];
    for op in &x.ops {
        let mut f = |n: &String, d: Option<&D>| fresh(n, d.map_or(false, |d| d.is_sect()), &mut names);
        add.push(match op {
            Op::Declare(n, d) => Op::Declare(f(n, Some(d)), *d),
            Op::Declarations(v) => Op::Declarations(v.iter().map(|(n, d)| (f(n, Some(d)), *d)).collect()),
            Op::DeclareWith(n, d, b) => Op::DeclareWith(f(n, Some(d)), *d, b.clone()),
            Op::Import(n, k) => Op::Import(f(n, None), *k),
            Op::Define(n, b) => Op::Define(f(n, None), b.clone()),
            Op::DefineZero(n, k) => Op::DefineZero(f(n, None), *k),
            Op::DefineSyms(n, p, s) => {
                let mut s: Vec<(String, u64)> = s.iter().map(|(k, v)| (f(k, None), *v)).collect();
                s.sort();
                Op::DefineSyms(f(n, None), p.clone(), s)
            }
            Op::Link(a, b, at) => Op::Link(f(a, None), f(b, None), *at),
            Op::LinkWith(a, b, at, rl) => Op::LinkWith(f(a, None), f(b, None), *at, *rl),
        });
    }
    // merge, keeping both orders
    let (mut i, mut j) = (0, 0);
    let mut out = vec![];
    let mode = r.below(4);
    while i < ops.len() || j < add.len() {
        let take_add = match mode {
            0 => j < add.len(),
            1 => i >= ops.len(),
            _ => j < add.len() && (i >= ops.len() || r.below(ops.len() - i + add.len() - j) < add.len() - j),
        };
        if take_add {
            out.push(add[j].clone());
            j += 1;
        } else {
            out.push(ops[i].clone());
            i += 1;
        }
    }
    out
}

pub fn order(c: &mut Camp) {
    let n = c.n(50_000, 2_000_000);
    c.cases(
        "permutations-and-additions",
        "each accepted history is re-executed in other orders of its independent calls, with calls replaced by equivalent ones (batches split, declare_with split, import as declaration, repeated declarations) and with unrelated definitions, imports and links interleaved; outcomes, imports and the decoded meaning (symbols, attributes, contents, alignment, per-object relocations) of every original item must not change; non-trivial: an order different from the original was emitted and compared",
        n,
        &|r, i| {
            if i % 4 == 3 {
                let mut mx = Mix { names: 12, ops: 40, w: [8, 5, 2, 3, 5, 2, 2, 6, 4], hostile: 25, complete: 100 };
                mx.names = *r.pick(&[3, 8, 14]);
                let t = hist_triple(r);
                hostile(r, &mx, t)
            } else {
                let mut sh = Shape { mach: r.pct(60), ..Shape::default() };
                if i % 40 == 1 {
                    sh.max_defs = 60;
                    sh.max_links = 100;
                }
                if r.pct(20) {
                    sh.sect_pct = 45;
                }
                complete(r, &sh, if sh.mach { X64_MAC } else { X64 })
            }
        },
        &|h, seed, st| guard(|| order_case(h, seed, st)),
    );
    let n = c.n(8, 80);
    c.cases(
        "bulk",
        "the same with artifacts of thousands of definitions, imports, upgraded imports and links",
        n,
        &|r, i| bulk(r, [3, 7, 10, 5][i as usize % 4], i / 4 % 2 == 1),
        &|h, seed, st| guard(|| order_case(h, seed, st)),
    );
}
fn order_case(h: &Hist, seed: u64, st: &mut Stats) -> Log {
    let mut r = Rng::new(seed ^ 29);
    let mut l = Log::default();
    let o = Opt::default();
    let base_h = accepted(h);
    let a = crate::exec::run(&base_h, &o);
    if a.dead || (a.elf.is_none() && a.mach.is_none()) {
        st.add("not emitted", 1);
        st.case(0, false);
        return l;
    }
    let mut differs = false;
    for k in 0..4 {
        let mut ops = base_h.ops.clone();
        if k != 0 || r.pct(30) {
            ops = rewrite(&mut r, &ops);
        }
        let added = k == 3;
        if k != 3 || r.pct(40) {
            ops = permute(&mut r, &ops);
        }
        if added {
            ops = extend(&mut r, h, &ops);
        }
        differs |= ops != base_h.ops;
        let h2 = Hist { ops, ..base_h.clone() };
        let b = crate::exec::run(&h2, &o);
        let kind = ["order", "rewritten order", "rewritten order", "with unrelated items"][k];
        if let Some((i, out)) = b.outs.iter().enumerate().find(|x| *x.1 != Out::Ok) {
            l.fail(
                p!(29),
                "order.refused",
                format!("{}: call {} ({}) is refused: {:?}", kind, i, trunc(&h2.ops[i].text(), 200), out),
            );
            break;
        }
        if b.dead {
            l.fail(p!(29), "order.dead", format!("{}: {:?}", kind, b.log.fails.first()));
            break;
        }
        if !added && imports_of(&a.art) != imports_of(&b.art) {
            l.fail(p!(29), "order.imports", format!("{}: imports {:?}, originally {:?}", kind, imports_of(&b.art), imports_of(&a.art)));
        }
        for (x, y, pre) in [(&a.elf, &b.elf, "elf"), (&a.mach, &b.mach, "mach")] {
            if x.is_none() {
                continue;
            }
            if y.is_none() {
                // additions are in the domain of both formats unless the totals are not
                let dom = domain(&b.model, if pre == "elf" { Fmt::Elf } else { Fmt::Mach }, find(&h.triple));
                if dom.is_ok() {
                    l.fail(p!(29), "order.emit", format!("{}: {} emission fails: {:?}", kind, pre, b.log.fails.first().map(|f| &f.msg)));
                }
                continue;
            }
            for (k, v) in a.log.obs.iter().filter(|x| x.0.starts_with(pre)) {
                l.saw("items compared", 1);
                if b.log.obs.get(k) != Some(v) {
                    l.fail(
                        p!(29),
                        "order.meaning",
                        format!("{}: {} is {:?}, originally {:?}", kind, trunc(k, 80), b.log.obs.get(k), v),
                    );
                    break;
                }
            }
            if !added {
                if let Some(k) = b.log.obs.keys().find(|k| k.starts_with(pre) && !a.log.obs.contains_key(*k)) {
                    l.fail(p!(29), "order.extra", format!("{}: {} exists only in the other order", kind, trunc(k, 80)));
                }
            }
        }
        if !l.fails.is_empty() {
            break;
        }
    }
    st.case(hash_bytes(h.text().as_bytes()), differs);
    l
}
