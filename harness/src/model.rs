//! Executable sequential model of the artifact API, written from the documentation.
use crate::ops::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug)]
pub struct Def {
    pub data: Pay,
    pub syms: BTreeMap<String, u64>,
}
#[derive(Clone, Debug)]
pub struct Ent {
    pub decl: D,
    pub def: Option<Def>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct LinkM {
    pub from: String,
    pub to: String,
    pub at: u64,
    pub rl: Rl,
}
#[derive(Clone, Default)]
pub struct Model {
    pub order: Vec<String>,
    pub ents: HashMap<String, Ent>,
    pub links: Vec<LinkM>,
}

/// Result of absorbing `new` into `old`, per the documented rule.
pub enum Abs {
    Keep,
    Upgrade,
    Reject,
}
pub fn absorb(old: &D, new: &D) -> Abs {
    if old == new {
        return Abs::Keep;
    }
    match (old, new) {
        (D::ImpF, D::Func { .. }) | (D::ImpD, D::Data { .. }) => Abs::Upgrade,
        (D::Func { .. }, D::ImpF) | (D::Data { .. }, D::ImpD) => Abs::Keep,
        _ => Abs::Reject,
    }
}

fn dbg(d: &D) -> String {
    format!("{:?}", d.decl(0))
}

impl Model {
    fn declare(&mut self, n: &str, d: &D) -> Vec<Out> {
        match self.ents.get_mut(n) {
            None => {
                self.order.push(n.to_string());
                self.ents.insert(n.to_string(), Ent { decl: *d, def: None });
                vec![Out::Ok]
            }
            Some(e) => match absorb(&e.decl, d) {
                Abs::Keep => vec![Out::Ok],
                Abs::Upgrade => {
                    e.decl = *d;
                    vec![Out::Ok]
                }
                Abs::Reject => vec![Out::Incompatible(dbg(&e.decl), dbg(d))],
            },
        }
    }
    fn define(&mut self, n: &str, p: &Pay, s: &BTreeMap<String, u64>) -> Vec<Out> {
        let mut bad = vec![];
        match self.ents.get_mut(n) {
            None => bad.push(Out::Undeclared(n.into())),
            Some(e) => {
                if e.decl.is_import() {
                    bad.push(Out::ImportDefined(n.into()));
                } else {
                    if e.def.is_some() {
                        bad.push(Out::Duplicate(n.into()));
                    }
                    if !s.is_empty() && !e.decl.is_sect() {
                        bad.push(Out::NonSectSyms(dbg(&e.decl), s.clone()));
                    }
                    if p.is_zero() && !e.decl.is_data() {
                        bad.push(Out::InvalidZero(dbg(&e.decl)));
                    }
                }
                if bad.is_empty() {
                    e.def = Some(Def { data: p.clone(), syms: s.clone() });
                    return vec![Out::Ok];
                }
            }
        }
        bad
    }
    fn link(&mut self, f: &str, t: &str, at: u64, rl: Rl) -> Vec<Out> {
        let mut bad = vec![];
        match self.ents.get(f) {
            None => bad.push(Out::Undeclared(f.into())),
            Some(e) if e.decl.is_import() => bad.push(Out::RelocateImport(f.into())),
            _ => {}
        }
        if !self.ents.contains_key(t) {
            bad.push(Out::Undeclared(t.into()));
        }
        if bad.is_empty() {
            self.links.push(LinkM { from: f.into(), to: t.into(), at, rl });
            return vec![Out::Ok];
        }
        bad
    }
    /// Apply one call; returns the acceptable outcomes (several when more than one error applies).
    pub fn apply(&mut self, op: &Op) -> Vec<Out> {
        match op {
            Op::Declare(n, d) => self.declare(n, d),
            Op::Declarations(v) => {
                for (n, d) in v {
                    let o = self.declare(n, d);
                    if o[0] != Out::Ok {
                        return o;
                    }
                }
                vec![Out::Ok]
            }
            Op::DeclareWith(n, d, b) => {
                let o = self.declare(n, d);
                if o[0] != Out::Ok {
                    return o;
                }
                self.define(n, &Pay::Blob(b.clone()), &BTreeMap::new())
            }
            Op::Import(n, f) => self.declare(n, if *f { &D::ImpF } else { &D::ImpD }),
            Op::Define(n, b) => self.define(n, &Pay::Blob(b.clone()), &BTreeMap::new()),
            Op::DefineZero(n, s) => self.define(n, &Pay::Zero(*s), &BTreeMap::new()),
            Op::DefineSyms(n, p, s) => self.define(n, p, &s.iter().cloned().collect()),
            Op::Link(f, t, at) => self.link(f, t, *at, Rl::Auto),
            Op::LinkWith(f, t, at, r) => self.link(f, t, *at, *r),
        }
    }
    pub fn undefined(&self) -> Vec<String> {
        self.order
            .iter()
            .filter(|n| {
                let e = &self.ents[*n];
                !e.decl.is_import() && e.def.is_none()
            })
            .cloned()
            .collect()
    }
    /// sorted (name, is_function)
    pub fn imports(&self) -> Vec<(String, bool)> {
        let mut v: Vec<_> = self
            .order
            .iter()
            .filter(|n| self.ents[*n].decl.is_import())
            .map(|n| (n.clone(), self.ents[n].decl == D::ImpF))
            .collect();
        v.sort();
        v
    }
    pub fn defs(&self) -> impl Iterator<Item = (&String, &D, &Def)> {
        self.order.iter().filter_map(move |n| {
            let e = &self.ents[n];
            e.def.as_ref().map(|d| (n, &e.decl, d))
        })
    }
    pub fn complete(&self) -> bool {
        self.undefined().is_empty()
    }
    pub fn run(ops: &[Op]) -> Model {
        let mut m = Model::default();
        for o in ops {
            m.apply(o);
        }
        m
    }
    pub fn links_from<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a LinkM> + 'a {
        self.links.iter().filter(move |l| l.from == n)
    }
    /// All symbol-like names, to test the precondition that they are distinct.
    pub fn names_distinct(&self) -> bool {
        let mut s = std::collections::HashSet::new();
        for n in &self.order {
            if !self.ents[n].decl.is_sect() && !s.insert(n.as_str()) {
                return false;
            }
        }
        for (_, _, d) in self.defs() {
            for k in d.syms.keys() {
                if !s.insert(k.as_str()) {
                    return false;
                }
            }
        }
        true
    }
    pub fn bytes_total(&self) -> u64 {
        self.defs().map(|(_, _, d)| d.data.file_size()).sum()
    }
}
