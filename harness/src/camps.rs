//! Campaigns: which workloads decide which property.
use crate::camp::*;
use crate::exec::*;
use crate::gen::*;
use crate::mon::*;
use crate::ops::*;
use crate::rng::*;
use crate::targets::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn run(c: &mut Camp) {
    c.assumptions.push("the model, readers and monitors in /verif/harness represent the documented behaviour".into());
    match c.id {
        1..=6 => api(c),
        7..=12 | 15..=20 | 26 => objects(c),
        13 => crate::camps2::scale(c),
        14 => crate::camps2::targets(c),
        21 => crate::camps3::determinism(c),
        22 => crate::camps3::sinks(c),
        23 => crate::camps4::linked(c),
        24 => crate::camps5::linked(c),
        25 => crate::camps6::sanitizers(c),
        27 => crate::camps3::formats(c),
        28 => crate::camps3::declarations(c),
        29 => crate::camps2::order(c),
        30 => crate::camps8::hosts(c),
        _ => c.inconclusive.push("no campaign".into()),
    }
    crate::known::probes(c);
}

/// A monitor must survive any bytes; if one of ours panics that is our failure, not a verdict.
pub fn guard(f: impl FnOnce() -> Log) -> Log {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(l) => l,
        Err(e) => {
            eprintln!("# harness panic at {}: {}", crate::last_panic_at(), panic_text(e));
            std::process::exit(crate::EXIT_INCONCLUSIVE);
        }
    }
}

pub fn judge_hist(h: &Hist, o: &Opt, id: u32, st: &mut Stats) -> (Log, bool) {
    judge_hist_with(h, o, id, st, &mut |_, _| {})
}
pub fn judge_hist_with(h: &Hist, o: &Opt, id: u32, st: &mut Stats, more: &mut dyn FnMut(&Done, &mut Log)) -> (Log, bool) {
    let mut d = run_h(h, o);
    let mut l = std::mem::take(&mut d.log);
    more(&d, &mut l);
    d.log = l;
    history_stats(h, &d.outs, &mut st.ops);
    let nontrivial = nontrivial(id, &d.log);
    let mut l = d.log;
    l.obs.clear();
    st.case(hash_bytes(h.text().as_bytes()), nontrivial);
    (l, nontrivial)
}
fn run_h(h: &Hist, o: &Opt) -> Done {
    crate::exec::run(h, o)
}

/// Did the monitors of this property have something to judge?
fn nontrivial(id: u32, l: &Log) -> bool {
    let j = |k: &str| l.judged.get(k).copied().unwrap_or(0);
    match id {
        1..=4 => j("refused calls") > 0 && j("calls") > 2,
        5 => j("refused emissions") > 0,
        6 => j("calls") > 3 && j("refused calls") > 0,
        8 | 16 => j("content bytes") > 0,
        9 | 17 => j("definition symbols") + j("import symbols") + j("custom symbols") > 1,
        10 => j("content sections") > 0,
        18 => j("definition symbols") > 0,
        11 | 19 => j("relocations") > 0,
        12 | 20 => j("custom symbols") + j("custom sections") > 0,
        _ => j("ELF objects") + j("Mach-O objects") > 0,
    }
}

// ------------------------------------------------------------------ C01..C06

fn api_mix(id: u32, r: &mut Rng) -> Mix {
    //                    decl imp batch dwith def dz dsym link lwith
    let w = match id {
        1 => [10, 5, 3, 3, 1, 1, 1, 1, 1],
        2 => [8, 8, 2, 1, 1, 0, 0, 1, 0],
        3 => [6, 2, 1, 3, 6, 3, 3, 0, 0],
        4 => [5, 3, 2, 2, 4, 2, 2, 4, 3],
        5 => [6, 2, 2, 2, 4, 1, 1, 1, 0],
        _ => [6, 3, 1, 1, 3, 1, 1, 8, 5],
    };
    let big = r.pct(4);
    Mix {
        names: if big { 40 } else { *r.pick(&[1, 2, 3, 5, 9, 14]) },
        ops: if big { 220 } else { *r.pick(&[4, 10, 25, 50]) },
        w,
        hostile: *r.pick(&[10, 35, 60, 90]),
        complete: match id {
            4 | 6 => 85,
            5 => 50,
            _ => 60,
        },
    }
}
pub fn hist_triple(r: &mut Rng) -> &'static str {
    *r.pick(&[X64, X64, X64_MAC, "x86_64-unknown-linux-gnu"])
}

fn api(c: &mut Camp) {
    let id = c.id;
    let o = Opt { every: true, gate: if id == 5 { 1 } else { 0 }, elf: true, mach: true };
    let (q, t) = if id == 5 { (60_000, 2_000_000) } else { (150_000, 5_000_000) };
    let n = c.n(q, t);
    c.cases(
        "hostile-histories",
        "random call histories over few names, legal and illegal calls mixed, every outcome, imports() and undefined_symbols() compared with the model after every call and the completed artifact emitted in both formats; non-trivial: the history contains refused calls (C05: refused emissions)",
        n,
        &|r, _| {
            let m = api_mix(id, r);
            let t = hist_triple(r);
            hostile(r, &m, t)
        },
        &|h, _, st| guard(|| judge_hist(h, &o, id, st).0),
    );
    let n = c.n(48, 1500);
    c.cases(
        "crowded-histories",
        "the same with up to 900 names and 4000 calls, so that tables grow and searches get long",
        n,
        &|r, _| {
            let mut m = Mix { names: 900, ops: 4000, hostile: *r.pick(&[10, 35, 60]), ..api_mix(id, r) };
            if r.pct(40) {
                // far more declared than defined
                m.names = 1500;
                m.w = [20, 5, 5, 1, 1, 1, 0, 2, 0];
            }
            let t = hist_triple(r);
            hostile(r, &m, t)
        },
        &|h, _, st| guard(|| judge_hist(h, &o, id, st).0),
    );
    if id == 6 {
        let n = c.n(16, 160);
        let o = Opt { every: false, ..o };
        c.cases(
            "bulk",
            "more than 65536 names, links from one definition, links between thousands of definitions, offsets beyond 2^24",
            n,
            &|r, i| crate::camps2::bulk(r, i, i / 8 % 2 == 1),
            &|h, _, st| guard(|| judge_hist(h, &o, id, st).0),
        );
    }
    match id {
        1 => absorb_pairs(c),
        4 => differential(c),
        5 => sink_untouched(c),
        _ => {}
    }
}

/// Every declaration of a grid against every other, and triples of the imports, through both
/// `Decl::absorb` and `Artifact::declare`.
fn absorb_pairs(c: &mut Camp) {
    let mut g = vec![D::ImpF, D::ImpD];
    for sc in [Sc::L, Sc::G, Sc::W] {
        for vi in [Vi::D, Vi::P, Vi::H] {
            for al in [None, Some(1), Some(16)] {
                g.push(D::Func { sc, vi, al });
                for wr in [false, true] {
                    for st in [false, true] {
                        g.push(D::Data { sc, vi, wr, st, al });
                    }
                }
            }
        }
    }
    for k in [Sk::Data, Sk::Debug, Sk::Text] {
        for st in [false, true] {
            for al in [None, Some(1), Some(16)] {
                g.push(D::Sect { k, st, al });
            }
        }
    }
    let n = g.len() as u64;
    let g = &g;
    let o = Opt { every: true, ..Opt::default() };
    c.cases(
        "absorb-grid",
        "every ordered pair of a grid of declarations (kinds x scope x visibility x writability x datatype x alignment) is merged by Decl::absorb and by declare; row = one old declaration; the pair's outcome and the resulting declaration are compared with the documented rule",
        n,
        &|_, i| {
            let a = g[i as usize];
            let mut ops = vec![];
            for (j, b) in g.iter().enumerate() {
                let n = format!("n{}", j);
                ops.push(Op::Declare(n.clone(), a));
                ops.push(Op::Declare(n.clone(), *b));
                // what is the merged declaration? ask by redeclaring it
                ops.push(Op::Declare(n.clone(), a));
                ops.push(Op::Declare(n.clone(), *b));
                ops.push(Op::Import(n.clone(), true));
                ops.push(Op::Import(n.clone(), false));
                ops.push(Op::DefineZero(n, 8));
            }
            Hist { triple: X64.into(), name: "t.o".into(), lib: false, ops }
        },
        &|h, seed, st| {
            guard(|| {
                let (mut l, _) = judge_hist(h, &o, 1, st);
                // the same pairs on bare declarations
                for w in h.ops.windows(2) {
                    if let (Op::Declare(a, x), Op::Declare(b, y)) = (&w[0], &w[1]) {
                        if a != b {
                            continue;
                        }
                        let mut d = x.decl(seed);
                        let before = d;
                        let r = d.absorb(y.decl(seed >> 7));
                        let (ok, want) = match crate::model::absorb(x, y) {
                            crate::model::Abs::Keep => (true, before),
                            crate::model::Abs::Upgrade => (true, y.decl(0)),
                            crate::model::Abs::Reject => (false, before),
                        };
                        l.saw("absorb pairs", 1);
                        let good = match (&r, ok) {
                            (Ok(()), true) => true,
                            (Err(faerie::ArtifactError::IncompatibleDeclaration { old, new }), false) => {
                                *old == before && *new == y.decl(0)
                            }
                            _ => false,
                        };
                        if !good || d != want {
                            l.fail(
                                crate::p!(1),
                                "absorb",
                                format!("{:?}.absorb({:?}) = {:?}, leaving {:?}; expected accept={} leaving {:?}", before, y, r, d, ok, want),
                            );
                        }
                    }
                }
                l
            })
        },
    );
}

/// C04: the same history with and without its refused calls.
fn differential(c: &mut Camp) {
    let n = c.n(80_000, 4_000_000);
    c.cases(
        "without-refused-calls",
        "each history is executed twice, with and without the calls that were refused (a failed batch is replaced by its accepted prefix); outcomes of the common calls, imports, undefined symbols and the meaning of both emitted objects must agree; non-trivial: at least one call was refused and something was emitted",
        n,
        &|r, _| {
            let m = api_mix(4, r);
            let t = hist_triple(r);
            hostile(r, &m, t)
        },
        &|h, _, st| {
            guard(|| {
                let o = Opt::default();
                let a = run_h(h, &o);
                let mut l = Log::default();
                let mut common = vec![];
                let mut ops = vec![];
                let mut refused = 0;
                // which calls does the real artifact refuse?
                let mut art = h.artifact();
                for (i, op) in h.ops.iter().enumerate() {
                    if i >= a.outs.len() {
                        break;
                    }
                    let mut probe = None;
                    if let Op::Declarations(v) = op {
                        // length of the accepted prefix, observed on a clone
                        let mut x = art.clone();
                        let k = v.iter().take_while(|(n, d)| x.declare(n, d.decl(0)).is_ok()).count();
                        if k < v.len() {
                            probe = Some(Op::Declarations(v[..k].to_vec()));
                        }
                    }
                    if let Op::DeclareWith(n, d, b) = op {
                        let mut x = art.clone();
                        if x.declare(n, d.decl(0)).is_ok() && x.define(n, b.clone()).is_err() {
                            probe = Some(Op::Declare(n.clone(), *d));
                        }
                    }
                    let r = match catch_unwind(AssertUnwindSafe(|| op.run(&mut art))) {
                        Ok(r) => r,
                        Err(_) => break,
                    };
                    if r == Out::Ok {
                        common.push(i);
                        ops.push(op.clone());
                    } else {
                        refused += 1;
                        if let Some(p) = probe {
                            common.push(usize::MAX);
                            ops.push(p);
                        }
                    }
                }
                let h2 = Hist { ops, ..h.clone() };
                let b = run_h(&h2, &o);
                for (k, i) in common.iter().enumerate() {
                    if *i != usize::MAX && b.outs.get(k) != a.outs.get(*i) && k < b.outs.len() {
                        l.fail(
                            crate::p!(4),
                            "diff.outcome",
                            format!("call {} ({}) is accepted only after the refused calls: {:?}", i, trunc(&h.ops[*i].text(), 200), b.outs.get(k)),
                        );
                        break;
                    }
                }
                if !a.dead && !b.dead {
                    if imports_of(&a.art) != imports_of(&b.art) {
                        l.fail(crate::p!(4), "diff.imports", format!("imports {:?} with and {:?} without the refused calls", imports_of(&a.art), imports_of(&b.art)));
                    }
                    if a.art.undefined_symbols() != b.art.undefined_symbols() {
                        l.fail(crate::p!(4), "diff.undef", format!("undefined {:?} with and {:?} without the refused calls", a.art.undefined_symbols(), b.art.undefined_symbols()));
                    }
                    if a.elf.is_some() != b.elf.is_some() || a.mach.is_some() != b.mach.is_some() {
                        l.fail(crate::p!(4), "diff.emit", "only one of the two histories can be emitted".into());
                    }
                    for (k, v) in &a.log.obs {
                        if b.log.obs.get(k) != Some(v) {
                            l.fail(crate::p!(4), "diff.meaning", format!("{}: {:?} with, {:?} without the refused calls", k, v, b.log.obs.get(k)));
                            break;
                        }
                    }
                    if let Some(k) = b.log.obs.keys().find(|k| !a.log.obs.contains_key(*k)) {
                        l.fail(crate::p!(4), "diff.missing", format!("{} only without the refused calls", k));
                    }
                }
                l.saw("refused calls", refused);
                l.saw("entities compared", a.log.obs.len() as u64);
                st.case(hash_bytes(h.text().as_bytes()), refused > 0 && !a.log.obs.is_empty());
                l
            })
        },
    );
}

/// C05: a refused write leaves the sink alone; a permitted one writes.
fn sink_untouched(c: &mut Camp) {
    let n = c.n(1500, 100_000);
    let dir = scratch();
    let d = dir.path.clone();
    c.cases(
        "refused-writes",
        "at random points of random histories the artifact is written with write and write_as to a file with prior contents and a moved position; while something is undefined the call must fail with that list and leave contents, length and position as they were, otherwise the bytes must arrive; non-trivial: at least one refused write",
        n,
        &|r, _| {
            let mut m = api_mix(5, r);
            m.ops = m.ops.min(20);
            let t = hist_triple(r);
            hostile(r, &m, t)
        },
        &|h, seed, st| guard(|| sink_case(h, seed, st, &d)),
    );
}
fn sink_case(h: &Hist, seed: u64, st: &mut Stats, dir: &str) -> Log {
    use faerie::BinaryFormat;
    use std::io::{Seek, SeekFrom, Write};
    let mut r = Rng::new(seed ^ 5);
    let mut run = Run::new(h);
    let o = Opt::default();
    let path = format!("{}/s{:016x}", dir, seed);
    let mut refused = 0;
    let tgt = find(&h.triple);
    for (i, op) in h.ops.iter().enumerate() {
        run.step(op, &o);
        if run.dead {
            break;
        }
        if !(r.pct(25) || i + 1 == h.ops.len()) {
            continue;
        }
        let prior = {
            let n = r.below(200);
            r.bytes(n)
        };
        let pos = r.below(prior.len() + 1) as u64;
        let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&path).expect("scratch");
        f.write_all(&prior).unwrap();
        f.seek(SeekFrom::Start(pos)).unwrap();
        let f2 = f.try_clone().unwrap();
        let k = r.below(3);
        let fmt = [None, Some(BinaryFormat::Elf), Some(BinaryFormat::Macho)][k];
        let u = run.model.undefined();
        if u.is_empty() {
            let ft = match fmt {
                None if h.triple.contains("darwin") => Fmt::Mach,
                Some(BinaryFormat::Macho) => Fmt::Mach,
                _ => Fmt::Elf,
            };
            if domain(&run.model, ft, tgt).is_err() {
                continue;
            }
        }
        let a = &run.art;
        let res = catch_unwind(AssertUnwindSafe(|| match fmt {
            None => a.write(f2),
            Some(x) => a.write_as(f2, x),
        }));
        let now = f.stream_position().unwrap();
        let got = std::fs::read(&path).unwrap();
        match res {
            Err(e) => run.log.fail(crate::p!(5), "write.panic", format!("write panics: {}", panic_text(e))),
            Ok(x) => {
                if !u.is_empty() {
                    refused += 1;
                    let x = out_of(x);
                    if x != Out::Undefined(u.clone()) {
                        run.log.fail(crate::p!(5), "write.list", format!("write with {:?} undefined returned {:?}", u, x));
                    }
                    if got != prior || now != pos {
                        run.log.fail(
                            crate::p!(5),
                            "write.touched",
                            format!("a refused write changed the sink: {} -> {} bytes, position {} -> {}", prior.len(), got.len(), pos, now),
                        );
                    }
                    run.log.saw("refused writes", 1);
                } else {
                    if let Err(e) = x {
                        run.log.fail(crate::p!(5), "write.err", format!("write of a complete artifact failed: {:?}", e));
                    }
                    run.log.saw("accepted writes", 1);
                }
            }
        }
    }
    let _ = std::fs::remove_file(&path);
    st.case(hash_bytes(h.text().as_bytes()), refused > 0);
    let mut l = run.log;
    l.obs.clear();
    l
}

// ------------------------------------------------------------------ scratch directories

pub struct Scratch {
    pub path: String,
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if std::env::var_os("FMON_KEEP").is_none() {
            let _ = std::fs::remove_dir_all(&self.path);
        }
    }
}
pub fn scratch() -> Scratch {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let p = format!(
        "{}/fmon-{}-{}",
        std::env::temp_dir().display(),
        std::process::id(),
        N.fetch_add(1, Ordering::SeqCst)
    );
    std::fs::create_dir_all(&p).expect("scratch directory");
    Scratch { path: p }
}

// ------------------------------------------------------------------ C07..C12, C15..C20, C26

fn is_elf(id: u32) -> bool {
    matches!(id, 7..=13)
}

fn objects(c: &mut Camp) {
    let id = c.id;
    let o = Opt { every: false, gate: 0, elf: !matches!(id, 15..=20), mach: !is_elf(id) };
    let n = c.n(120_000, 6_000_000);
    c.cases(
        "artifacts",
        "random complete artifacts (all kinds, scopes, visibilities, alignments, zero-init, custom sections and symbols, imports, links, hostile names, shuffled call order) emitted and read back by an independent reader; every fact of the object is compared with the model; non-trivial: the object contains the kind of item this property is about",
        n,
        &|r, i| gen_object(r, i, id),
        &|h, _, st| guard(|| judge_hist(h, &o, id, st).0),
    );
    let n = c.n(16, 400);
    c.cases(
        "bulk",
        "artifacts with more than 65536 custom symbols in one section, relocations in one function, thousands of imports, thousands of linked definitions, contents of many megabytes, offsets beyond 2^24, names longer than 2^16, and thousands of upgraded imports",
        n,
        &|r, i| crate::camps2::bulk(r, i, o.mach && (!o.elf || i / 8 % 2 == 1)),
        &|h, _, st| guard(|| judge_hist(h, &o, id, st).0),
    );
    let n = c.n(30_000, 2_000_000);
    c.cases(
        "after-hostile-calls",
        "hostile call histories with refused and repeated calls, completed and then emitted",
        n,
        &|r, _| {
            let m = api_mix(4, r);
            let m = Mix { complete: 100, ..m };
            let t = hist_triple(r);
            hostile(r, &m, t)
        },
        &|h, _, st| guard(|| judge_hist(h, &o, id, st).0),
    );
    if matches!(id, 7 | 15) {
        crate::camps7::opinions(c);
    }
}

pub fn gen_object(r: &mut Rng, i: u64, id: u32) -> Hist {
    let mut sh = Shape::default();
    let mach = match id {
        15..=20 => true,
        26 => r.pct(50),
        _ => false,
    };
    sh.mach = mach;
    let triple = if mach {
        *r.pick(&[X64_MAC, X64_MAC, X64])
    } else if id == 26 && r.pct(30) || r.pct(10) {
        let t = r.pick(TARGETS);
        sh.is64 = t.is64.unwrap_or(true);
        if !sh.is64 {
            sh.zero_max = 1 << 28;
        }
        t.triple
    } else {
        X64
    };
    sh.max_align = if sh.is64 { 40 } else { 30 };
    // structured extremes now and then
    match i % 50 {
        0 => {
            sh.max_defs = 3;
            sh.max_links = 6;
        }
        1 => {
            sh.max_defs = 60;
            sh.max_links = 120;
        }
        2 => {
            sh.max_defs = 400;
            sh.max_links = 300;
            sh.budget = 40_000;
        }
        3 => {
            sh.max_defs = 4;
            sh.max_links = 600;
        }
        4 => sh.sect_pct = 60,
        5 => sh.budget = 2_000_000,
        _ => {}
    }
    if matches!(id, 12 | 20) {
        sh.sect_pct = 45;
    }
    complete(r, &sh, triple)
}
