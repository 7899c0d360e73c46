//! Runs a history on the real artifact under the online monitors.
use crate::gen::{domain, Fmt};
use crate::model::*;
use crate::mon::*;
use crate::mon_elf;
use crate::mon_mach;
use crate::ops::*;
use crate::p;
use crate::targets::{self, Tgt};
use faerie::{Artifact, BinaryFormat, ImportKind};
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Run {
    pub art: Artifact,
    pub model: Model,
    pub redecl: HashSet<String>,
    pub refused: HashSet<String>,
    pub log: Log,
    pub outs: Vec<Out>,
    pub dead: bool,
}

#[derive(Clone, Copy)]
pub struct Opt {
    /// check imports()/undefined_symbols() after every call (quadratic)
    pub every: bool,
    /// check that emission is refused while something is undefined, every n calls
    pub gate: usize,
    pub elf: bool,
    pub mach: bool,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { every: false, gate: 0, elf: true, mach: true }
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub fn imports_of(a: &Artifact) -> Vec<(String, bool)> {
    let mut v: Vec<(String, bool)> = a.imports().map(|(n, k)| (n.to_string(), *k == ImportKind::Function)).collect();
    v.sort();
    v
}

fn op_props(op: &Op) -> Props {
    match op {
        Op::Declare(..) | Op::Declarations(..) | Op::Import(..) => p!(1),
        Op::DeclareWith(..) => p!(1, 3),
        Op::Define(..) | Op::DefineZero(..) | Op::DefineSyms(..) => p!(3),
        Op::Link(..) | Op::LinkWith(..) => p!(6),
    }
}
fn op_names(op: &Op) -> Vec<&str> {
    match op {
        Op::Declare(n, _)
        | Op::DeclareWith(n, _, _)
        | Op::Import(n, _)
        | Op::Define(n, _)
        | Op::DefineZero(n, _)
        | Op::DefineSyms(n, _, _) => vec![n],
        Op::Declarations(v) => v.iter().map(|x| x.0.as_str()).collect(),
        Op::Link(f, t, _) | Op::LinkWith(f, t, _, _) => vec![f, t],
    }
}

impl Run {
    pub fn new(h: &Hist) -> Run {
        Run {
            art: h.artifact(),
            model: Model::default(),
            redecl: HashSet::new(),
            refused: HashSet::new(),
            log: Log::default(),
            outs: vec![],
            dead: false,
        }
    }
    pub fn state_check(&mut self, after: Option<&Op>, failed: bool) {
        let extra = if failed { p!(4) } else { 0 };
        let got = imports_of(&self.art);
        let want = self.model.imports();
        if got != want {
            self.log.fail(
                p!(2) | extra,
                "imports",
                format!("imports() after {}: {:?}, model {:?}", after.map(|o| o.text()).unwrap_or_default(), got, want),
            );
        }
        let got = self.art.undefined_symbols();
        let want = self.model.undefined();
        if got != want {
            self.log.fail(
                p!(5) | extra,
                "undefined",
                format!("undefined_symbols() after {}: {:?}, model {:?}", after.map(|o| o.text()).unwrap_or_default(), got, want),
            );
        }
        self.log.saw("state snapshots", 1);
    }
    pub fn gate_check(&mut self) {
        let u = self.model.undefined();
        if u.is_empty() {
            return;
        }
        for (i, f) in [None, Some(BinaryFormat::Elf), Some(BinaryFormat::Macho)].iter().enumerate() {
            let a = &self.art;
            let r = catch_unwind(AssertUnwindSafe(|| match f {
                None => a.emit(),
                Some(f) => a.emit_as(*f),
            }));
            match r {
                Err(e) => self.log.fail(p!(5), "gate.panic", format!("emission with undefined symbols panics: {}", panic_text(e))),
                Ok(Ok(b)) => self.log.fail(
                    p!(5),
                    "gate.open",
                    format!("emission {} returned {} bytes although {:?} is undefined", i, b.len(), u),
                ),
                Ok(Err(e)) => {
                    let o = out_err(e);
                    if o != Out::Undefined(u.clone()) {
                        self.log.fail(p!(5), "gate.list", format!("emission refused with {:?}, undefined are {:?}", o, u));
                    }
                }
            }
            self.log.saw("refused emissions", 1);
        }
    }
    pub fn step(&mut self, op: &Op, o: &Opt) {
        if self.dead {
            return;
        }
        if let Op::Declare(n, _) | Op::Import(n, _) | Op::DeclareWith(n, _, _) = op {
            if self.model.ents.contains_key(n) {
                self.redecl.insert(n.clone());
            }
        }
        if let Op::Declarations(v) = op {
            let mut seen = HashSet::new();
            for (n, _) in v {
                if self.model.ents.contains_key(n) || !seen.insert(n) {
                    self.redecl.insert(n.clone());
                }
            }
        }
        let want = self.model.apply(op);
        let a = &mut self.art;
        let got = match catch_unwind(AssertUnwindSafe(|| op.run(a))) {
            Ok(g) => g,
            Err(e) => {
                self.log.fail(
                    op_props(op) | p!(26) | if want[0] != Out::Ok { p!(4) } else { 0 },
                    "call.panic",
                    format!("{} panics: {}", op.text(), panic_text(e)),
                );
                self.dead = true;
                return;
            }
        };
        self.log.saw("calls", 1);
        let failed = want[0] != Out::Ok;
        if failed {
            self.log.saw("refused calls", 1);
            for n in op_names(op) {
                self.refused.insert(n.to_string());
            }
        }
        if !want.contains(&got) {
            let mut t = op_props(op);
            if let Op::DeclareWith(..) = op {
                let decl_err = |o: &Out| matches!(o, Out::Incompatible(..));
                if decl_err(&got) || want.iter().any(decl_err) {
                    t = p!(1);
                } else {
                    t = p!(3);
                }
            }
            if let Op::Declarations(..) = op {
                t |= p!(4);
            }
            if let Op::Import(..) = op {
                t |= p!(2);
            }
            self.log.fail(
                t,
                "outcome",
                format!(
                    "call {} ({}) returned {:?}; acceptable: {:?}",
                    self.outs.len(),
                    trunc(&op.text(), 300),
                    short(&got),
                    want.iter().map(short).collect::<Vec<_>>()
                ),
            );
            // the two no longer agree on the state; later findings would be echoes
            self.dead = true;
        }
        self.outs.push(got);
        if o.every || failed {
            self.state_check(Some(op), failed);
        }
    }
    pub fn emit(&mut self, fmt: Fmt, tgt: &Tgt, name: &str) -> Option<Vec<u8>> {
        let f = match fmt {
            Fmt::Elf => BinaryFormat::Elf,
            Fmt::Mach => BinaryFormat::Macho,
        };
        let tags = p!(26) | match fmt {
            Fmt::Elf => ELF_ALL,
            Fmt::Mach => MACH_ALL | p!(14),
        };
        let a = &self.art;
        let b = match catch_unwind(AssertUnwindSafe(|| a.emit_as(f))) {
            Err(e) => {
                self.log.fail(tags, "emit.panic", format!("{:?} emission panics: {}", fmt, panic_text(e)));
                return None;
            }
            Ok(Err(e)) => {
                let o = out_err(e);
                let x = if matches!(o, Out::Undefined(_)) { p!(5) } else { 0 };
                self.log.fail(tags | x, "emit.error", format!("{:?} emission of a complete artifact fails: {:?}", fmt, short(&o)));
                return None;
            }
            Ok(Ok(b)) => b,
        };
        let c = mon_elf::Ctx { name, tgt, m: &self.model, redecl: &self.redecl, refused: &self.refused };
        match fmt {
            Fmt::Elf => {
                mon_elf::check(&c, &b, &mut self.log);
            }
            Fmt::Mach => mon_mach::check(&c, &b, &mut self.log),
        }
        self.log.saw(if fmt == Fmt::Elf { "ELF objects" } else { "Mach-O objects" }, 1);
        // size bound: contents + names + a fixed cost per item + alignment padding
        let m = &self.model;
        let mut lim = 4096 + 4 * name.len() as u64;
        for (n, d, def) in m.defs() {
            let per = 512 + 6 * n.len() as u64;
            lim += def.data.file_size() + per;
            if fmt == Fmt::Mach {
                lim += 2 * d.align().unwrap_or(16).max(16);
            }
            for k in def.syms.keys() {
                lim += 64 + k.len() as u64;
            }
        }
        for n in &m.order {
            lim += 64 + 2 * n.len() as u64;
        }
        lim += 64 * m.links.len() as u64;
        if b.len() as u64 > lim {
            self.log.fail(p!(26), "emit.size", format!("{:?} object of {} bytes, bound {}", fmt, b.len(), lim));
        }
        Some(b)
    }
}
fn short(o: &Out) -> String {
    trunc(&format!("{:?}", o), 300)
}
pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.into();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}…", &s[..k])
}

pub struct Done {
    pub log: Log,
    pub outs: Vec<Out>,
    pub elf: Option<Vec<u8>>,
    pub mach: Option<Vec<u8>>,
    pub model: Model,
    pub art: Artifact,
    pub dead: bool,
}

/// Run a whole history; emit in every requested format whose domain it is in.
pub fn run(h: &Hist, o: &Opt) -> Done {
    let tgt = targets::find(&h.triple);
    let mut r = Run::new(h);
    for (i, op) in h.ops.iter().enumerate() {
        r.step(op, o);
        if r.dead {
            break;
        }
        if o.gate > 0 && i % o.gate == 0 {
            r.gate_check();
        }
    }
    let (mut elf, mut mach) = (None, None);
    if !r.dead {
        r.state_check(None, false);
        if o.gate > 0 {
            r.gate_check();
        }
        if o.elf && domain(&r.model, Fmt::Elf, tgt).is_ok() {
            elf = r.emit(Fmt::Elf, tgt, &h.name);
        }
        if o.mach && domain(&r.model, Fmt::Mach, tgt).is_ok() {
            mach = r.emit(Fmt::Mach, tgt, &h.name);
        }
    }
    Done { log: r.log, outs: r.outs, elf, mach, model: r.model, art: r.art, dead: r.dead }
}

/// Statistics of a history for the evidence.
pub fn history_stats(h: &Hist, outs: &[Out], into: &mut HashMap<String, u64>) {
    for (o, r) in h.ops.iter().zip(outs) {
        let k = match r {
            Out::Ok => "ok",
            Out::Undeclared(_) => "Undeclared",
            Out::ImportDefined(_) => "ImportDefined",
            Out::RelocateImport(_) => "RelocateImport",
            Out::Incompatible(..) => "IncompatibleDeclaration",
            Out::Duplicate(_) => "DuplicateDefinition",
            Out::InvalidZero(_) => "InvalidZeroInit",
            Out::NonSectSyms(..) => "NonSectionCustomSymbols",
            _ => "other",
        };
        *into.entry(format!("{}:{}", o.label(), k)).or_default() += 1;
    }
}

/// Hands a reference to other threads, whatever the type says; guarded by `shareable`, so that
/// the harness also builds against a tree in which artifacts are not shareable.
pub struct Shared<'a>(pub &'a Artifact);
unsafe impl Send for Shared<'_> {}
unsafe impl Sync for Shared<'_> {}
impl<'a> Shared<'a> {
    pub fn get(&self) -> &'a Artifact {
        self.0
    }
}
/// Moves an artifact to another thread; guarded by `shareable` as well.
pub struct Moved(pub Artifact);
unsafe impl Send for Moved {}
impl Moved {
    pub fn take(self) -> Artifact {
        self.0
    }
}
struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait NotShareable {
    const YES: bool = false;
}
impl<T> NotShareable for Probe<T> {}
#[allow(dead_code)]
impl<T: Send + Sync> Probe<T> {
    const YES: bool = true;
}
pub fn shareable() -> bool {
    Probe::<Artifact>::YES
}
