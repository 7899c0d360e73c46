//! Abstract programs: a small linked world of functions and data over several objects, its
//! meaning (an interpreter), and its translation into artifacts (and a C or host companion).
use crate::ops::*;
use crate::rng::*;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub enum Step {
    Call(usize),
    CallSlot(usize, usize),
    Load(usize, usize),
    LoadDirect(usize),
    LoadByte(usize, usize),
    Store(usize, usize, i32),
    StoreAcc(usize, usize),
    LoadSlot(usize, usize, usize),
    /// address of the object minus the pointer slot's value
    Diff(usize, usize, usize),
    /// lea of object+addend through a raw relocation, then load
    RawLoad(usize, i32),
    /// 32-bit absolute address of object+addend, then load (fixed-address programs only)
    Abs32(usize, i32),
    Nops(usize),
}
#[derive(Clone, Debug)]
pub struct Slot {
    pub off: usize,
    pub to: usize,
    pub add: i64,
}
#[derive(Clone, Debug)]
pub enum Body {
    Func { seed: u64, steps: Vec<Step>, tail: Vec<u8> },
    Blob { bytes: Vec<u8>, wr: bool, st: bool, slots: Vec<Slot> },
    Zero { size: usize, wr: bool },
}
#[derive(Clone, Debug)]
pub struct Obj {
    pub unit: usize,
    pub name: String,
    pub sc: Sc,
    pub vi: Vi,
    pub al: Option<u64>,
    pub body: Body,
    /// the definition of the same name that references from elsewhere reach instead of this one
    pub beaten_by: Option<usize>,
    pub table: bool,
}
impl Obj {
    pub fn is_func(&self) -> bool {
        matches!(self.body, Body::Func { .. })
    }
    pub fn size(&self) -> usize {
        match &self.body {
            Body::Func { .. } => 0,
            Body::Blob { bytes, .. } => bytes.len(),
            Body::Zero { size, .. } => *size,
        }
    }
    pub fn slots(&self) -> &[Slot] {
        match &self.body {
            Body::Blob { slots, .. } => slots,
            _ => &[],
        }
    }
    pub fn writable(&self) -> bool {
        match &self.body {
            Body::Func { .. } => false,
            Body::Blob { wr, .. } => *wr,
            Body::Zero { .. } => true,
        }
    }
    pub fn string(&self) -> bool {
        matches!(&self.body, Body::Blob { st: true, .. })
    }
    /// 8 bytes at `off` are inside and away from pointer slots
    pub fn plain(&self, off: usize, n: usize) -> bool {
        off + n <= self.size() && self.slots().iter().all(|s| s.off + 8 <= off || off + n <= s.off)
    }
}
/// a pointer kept in a debug section, checked in the linked file
#[derive(Clone, Debug)]
pub struct Dbg {
    pub unit: usize,
    pub name: String,
    pub bytes: Vec<u8>,
    /// (offset, width, target, addend)
    pub refs: Vec<(usize, u8, usize, i32)>,
}
#[derive(Clone, Debug)]
pub struct World {
    /// faerie units; unit number `units` is the C or host companion if `comp`
    pub units: usize,
    pub comp: bool,
    pub pic: bool,
    pub mach: bool,
    /// which units go into the shared library
    pub in_so: Vec<bool>,
    pub objs: Vec<Obj>,
    pub tables: Vec<usize>,
    pub root: usize,
    pub dbg: Vec<Dbg>,
    pub weak_dups: bool,
}
#[derive(Clone, Copy)]
pub struct Cfg {
    pub mach: bool,
    pub pic: bool,
    pub comp: bool,
    /// the companion's functions just return a constant
    pub host: bool,
    pub shared: bool,
    pub weak_dups: bool,
    pub max_align: u32,
}

const ROL: u32 = 7;

// ------------------------------------------------------------------ meaning

pub struct Machine<'a> {
    w: &'a World,
    pub mem: Vec<Vec<u8>>,
    pub steps: u64,
}
impl<'a> Machine<'a> {
    pub fn new(w: &'a World) -> Self {
        let mem = w
            .objs
            .iter()
            .map(|o| match &o.body {
                Body::Func { .. } => vec![],
                Body::Blob { bytes, .. } => bytes.clone(),
                Body::Zero { size, .. } => vec![0; *size],
            })
            .collect();
        Machine { w, mem, steps: 0 }
    }
    fn load(&self, o: usize, off: usize, n: usize) -> u64 {
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&self.mem[o][off..off + n]);
        u64::from_le_bytes(b)
    }
    pub fn call(&mut self, f: usize) -> Option<u64> {
        let w = self.w;
        let (seed, steps) = match &w.objs[f].body {
            Body::Func { seed, steps, .. } => (*seed, steps),
            _ => unreachable!(),
        };
        let mut acc = seed;
        for s in steps {
            self.steps += 1;
            if self.steps > 30_000 {
                return None;
            }
            let v = match s {
                Step::Call(g) => self.call(*g)?,
                Step::CallSlot(p, k) => self.call(w.objs[*p].slots()[*k].to)?,
                Step::Load(o, off) => self.load(*o, *off, 8),
                Step::LoadDirect(o) => self.load(*o, 0, 8),
                Step::LoadByte(o, off) => self.load(*o, *off, 1),
                Step::RawLoad(o, a) | Step::Abs32(o, a) => self.load(*o, *a as usize, 8),
                Step::LoadSlot(p, k, off) => {
                    let s = &w.objs[*p].slots()[*k];
                    self.load(s.to, (s.add + *off as i64) as usize, 8)
                }
                Step::Diff(_, p, k) => (w.objs[*p].slots()[*k].add as u64).wrapping_neg(),
                Step::Store(o, off, v) => {
                    self.mem[*o][*off..off + 8].copy_from_slice(&(*v as i64).to_le_bytes());
                    continue;
                }
                Step::StoreAcc(o, off) => {
                    self.mem[*o][*off..off + 8].copy_from_slice(&acc.to_le_bytes());
                    continue;
                }
                Step::Nops(_) => continue,
            };
            acc = acc.rotate_left(ROL).wrapping_add(v);
        }
        Some(acc)
    }
}

// ------------------------------------------------------------------ generation

fn idents() -> Vec<String> {
    let mut v: Vec<String> = (0..9).map(|i| format!("s{}", i)).collect();
    v.extend((0..40).map(|i| format!("g{}", i)));
    v
}
const ODD: [&str; 10] = ["a.b", "x$y", "né", "_under", "with space", "..", "Z9q-1", "L0", ".Lx", "ÿ\u{2603}"];

pub fn gen(r: &mut Rng, cfg: &Cfg) -> World {
    for attempt in 0.. {
        let w = try_gen(r, cfg, attempt);
        // every function is probed once; keep programs that end soon
        let mut m = Machine::new(&w);
        let ok = probes(&w).iter().all(|f| m.call(*f).is_some());
        if ok {
            return w;
        }
    }
    unreachable!()
}

/// the functions called by the driver, in order
pub fn probes(w: &World) -> Vec<usize> {
    (0..w.objs.len()).filter(|o| w.objs[*o].is_func() && w.objs[*o].beaten_by.is_none()).collect()
}

fn try_gen(r: &mut Rng, cfg: &Cfg, attempt: usize) -> World {
    let units = r.range(if cfg.shared { 2 } else { 1 }, 4);
    let comp = cfg.comp;
    let n_units = units + comp as usize;
    let mut in_so = vec![false; n_units];
    if cfg.shared {
        for u in 1..units {
            in_so[u] = r.pct(60);
        }
        if !in_so.iter().any(|x| *x) {
            in_so[units - 1] = true;
        }
    }
    let mut w = World {
        units,
        comp,
        pic: cfg.pic,
        mach: cfg.mach,
        in_so,
        objs: vec![],
        tables: vec![],
        root: 0,
        dbg: vec![],
        weak_dups: false,
    };
    let al = |r: &mut Rng| -> Option<u64> {
        match r.below(6) {
            0 | 1 => None,
            2 => Some(1 << r.below(4)),
            3 => Some(16),
            4 => Some(1 << r.below(8)),
            _ => Some(1 << r.below(cfg.max_align as usize + 1)),
        }
    };
    let blob = |r: &mut Rng, wr: bool, weak_size: Option<usize>| -> Body {
        let n = weak_size.unwrap_or_else(|| *r.pick(&[0, 1, 3, 8, 8, 9, 16, 24, 40, 64, 100, 257, 1000, 4096, 5001]));
        // under Mach-O an empty definition is an alias of whatever shares its address
        let n = if cfg.mach { n.max(1) } else { n };
        Body::Blob { bytes: r.bytes(n), wr, st: false, slots: vec![] }
    };
    let string = |r: &mut Rng, wr: bool| -> Body {
        let n = *r.pick(&[0, 1, 7, 15, 16, 31, 80]);
        let mut b: Vec<u8> = if r.pct(40) { vec![b'q'; n] } else { (0..n).map(|_| r.range(33, 126) as u8).collect() };
        b.push(0);
        Body::Blob { bytes: b, wr, st: true, slots: vec![] }
    };
    let mut ids = idents();
    r.shuffle(&mut ids);
    let mut odd: Vec<String> = ODD.iter().map(|s| s.to_string()).collect();
    r.shuffle(&mut odd);
    // weak names: kind and size agreed upon
    let weak_kinds: Vec<(bool, usize)> = (0..4).map(|_| (r.pct(60), *r.pick(&[8, 16, 40]))).collect();
    let mut weak_used: Vec<Vec<usize>> = vec![vec![]; 4]; // object ids
    let mut weak_strong = [None; 4];
    let stringy = r.pct(15);
    for u in 0..n_units {
        let mut local: HashSet<String> = HashSet::new();
        let is_comp = u == units;
        for _ in 0..r.range(2, if attempt > 20 { 4 } else { 8 }) {
            let k = if stringy && r.pct(50) { 95 } else { r.below(100) };
            let (mut sc, vi) = if is_comp {
                (Sc::G, Vi::D)
            } else {
                let sc = *r.pick(&[Sc::L, Sc::L, Sc::G, Sc::G, Sc::G, Sc::W]);
                let vi = if sc == Sc::L || r.pct(60) { Vi::D } else { *r.pick(&[Vi::P, Vi::H]) };
                (sc, vi)
            };
            let mut func = k < 50;
            let mut wsize = None;
            let name;
            let wk = r.below(4);
            let mut weak_idx = None;
            if sc == Sc::W || (r.pct(8) && !weak_used[wk].is_empty()) {
                // a weak pool name; when not weak here, this is the strong definition
                let n = format!("w{}", wk);
                let dup = !weak_used[wk].is_empty();
                let strong = sc != Sc::W;
                if is_comp && !strong
                    || local.contains(&n)
                    || (dup && (!cfg.weak_dups || weak_strong[wk].is_some() && strong))
                    || (strong && vi != Vi::D)
                    // only default-visibility duplicates have a simple meaning
                    || (dup && w.objs[weak_used[wk][0]].vi != Vi::D)
                    || (dup && vi != Vi::D)
                {
                    continue;
                }
                if strong {
                    sc = Sc::G;
                }
                func = weak_kinds[wk].0;
                wsize = Some(weak_kinds[wk].1);
                name = n;
                weak_idx = Some(wk);
            } else if sc == Sc::L {
                let n = if r.pct(25) { r.pick(&ODD).to_string() } else { format!("s{}", r.below(9)) };
                if local.contains(&n) {
                    continue;
                }
                name = n;
            } else if r.pct(15) && !is_comp && !odd.is_empty() {
                name = odd.pop().unwrap();
            } else {
                name = ids.pop().unwrap();
            }
            if local.contains(&name) {
                continue;
            }
            // a strong name must be unique in the world among non-local ones
            if sc != Sc::L && weak_idx.is_none() && w.objs.iter().any(|o| o.sc != Sc::L && o.name == name) {
                continue;
            }
            local.insert(name.clone());
            let body = if func {
                {
                    let n = *r.pick(&[0, 0, 1, 5]);
                    Body::Func { seed: r.u64(), steps: vec![], tail: r.bytes(n) }
                }
            } else if let Some(n) = wsize {
                blob(r, true, Some(n))
            } else if is_comp {
                blob(r, true, None)
            } else {
                match k {
                    50..=74 => {
                        let wr = r.pct(50);
                        blob(r, wr, None)
                    }
                    75..=87 => Body::Zero {
                        size: *r.pick(&[1, 8, 8, 24, 100, 4096, 10_000, 70_001]),
                        wr: r.pct(80),
                    },
                    _ => {
                        let wr = r.pct(30);
                        string(r, wr)
                    }
                }
            };
            let id = w.objs.len();
            if let Some(k) = weak_idx {
                weak_used[k].push(id);
                if sc == Sc::G {
                    weak_strong[k] = Some(id);
                }
            }
            let a = if is_comp {
                None
            } else {
                al(r)
            };
            w.objs.push(Obj { unit: u, name, sc, vi, al: a, body, beaten_by: None, table: false });
        }
    }
    // which definition of a weak name wins: the strong one, else the first in link order
    for k in 0..4 {
        if weak_used[k].len() > 1 {
            w.weak_dups = true;
            let win = weak_strong[k].unwrap_or(weak_used[k][0]);
            for o in weak_used[k].iter() {
                if *o != win {
                    w.objs[*o].beaten_by = Some(win);
                }
            }
        }
    }
    // functions call only functions later in a random order
    let n = w.objs.len();
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let mut rank = vec![0; n];
    for (i, o) in order.iter().enumerate() {
        rank[*o] = i;
    }
    // what a unit may refer to
    let visible: Vec<Vec<usize>> = (0..n_units)
        .map(|u| {
            (0..n)
                .filter(|o| {
                    let x = &w.objs[*o];
                    if x.beaten_by.is_some() {
                        return false;
                    }
                    if x.unit == u {
                        // references to one's own duplicated weak definition: not pinned
                        return !(x.sc == Sc::W && w.objs.iter().any(|y| y.beaten_by == Some(*o)));
                    }
                    if x.sc == Sc::L || w.objs.iter().any(|y| y.unit == u && y.name == x.name) {
                        return false;
                    }
                    if w.in_so[x.unit] != w.in_so[u] && x.vi == Vi::H {
                        return false;
                    }
                    // C only understands identifiers
                    if u == units && ODD.contains(&x.name.as_str()) {
                        return false;
                    }
                    true
                })
                .collect()
        })
        .collect();
    // pointer slots
    for o in 0..n {
        let u = w.objs[o].unit;
        if visible[u].is_empty() || w.objs[o].string() {
            continue;
        }
        let (size, wr) = match &w.objs[o].body {
            Body::Blob { bytes, wr, .. } => (bytes.len(), *wr),
            _ => continue,
        };
        if size < 8 || (cfg.pic && !wr) || r.pct(35) || (w.objs[o].sc == Sc::W && size < 16) {
            continue;
        }
        let mut slots: Vec<Slot> = vec![];
        for _ in 0..r.range(1, 4) {
            let mut off = r.below(size - 7);
            if cfg.pic || cfg.mach || r.pct(70) || u == units {
                off &= !7;
            }
            if slots.iter().any(|s| s.off < off + 8 && off < s.off + 8) {
                continue;
            }
            let to = *r.pick(&visible[u]);
            let add = if !cfg.mach && !w.objs[to].is_func() && r.pct(40) {
                r.below(w.objs[to].size() + 1) as i64
            } else {
                0
            };
            slots.push(Slot { off, to, add });
        }
        if let Body::Blob { slots: s, bytes, .. } = &mut w.objs[o].body {
            for x in &slots {
                if cfg.mach || u == units {
                    bytes[x.off..x.off + 8].fill(0);
                }
            }
            *s = slots;
        }
    }
    // a shorthand for companion data that must stay loadable from C
    let comp_unit = units;
    // function bodies
    for f in 0..n {
        if !w.objs[f].is_func() {
            continue;
        }
        let u = w.objs[f].unit;
        if u == comp_unit && cfg.host {
            continue; // host functions return their seed
        }
        let vis = &visible[u];
        let mut steps = vec![];
        let mut calls = 0;
        let max_calls = if attempt > 8 { 1 } else { 3 };
        for _ in 0..r.range(0, 9) {
            if vis.is_empty() {
                break;
            }
            let o = *r.pick(vis);
            let x = &w.objs[o];
            let own = x.unit == u && u != comp_unit;
            if x.is_func() {
                if calls < max_calls && rank[o] > rank[f] {
                    steps.push(Step::Call(o));
                    calls += 1;
                }
                continue;
            }
            let sz = x.size();
            let plain8 = |r: &mut Rng| -> Option<usize> {
                if sz < 8 {
                    return None;
                }
                (0..6).map(|_| r.below(sz - 7)).find(|off| x.plain(*off, 8))
            };
            let st = match r.below(11) {
                0 => plain8(r).map(|off| Step::Load(o, off)),
                1 if own => x.plain(0, 8).then(|| Step::LoadDirect(o)),
                2 if sz > 0 => {
                    let off = r.below(sz);
                    x.plain(off, 1).then(|| Step::LoadByte(o, off))
                }
                3 if x.writable() => plain8(r).map(|off| Step::Store(o, off, r.u64() as i32)),
                4 if x.writable() => plain8(r).map(|off| Step::StoreAcc(o, off)),
                5 | 6 | 10 => {
                    if x.slots().is_empty() {
                        None
                    } else {
                        let k = r.below(x.slots().len());
                        let s = &x.slots()[k];
                        let t = &w.objs[s.to];
                        if t.is_func() {
                            if calls < max_calls && rank[s.to] > rank[f] {
                                calls += 1;
                                Some(Step::CallSlot(o, k))
                            } else {
                                None
                            }
                        } else {
                            let left = t.size() as i64 - s.add;
                            if left >= 8 {
                                let off = r.below(left as usize - 7);
                                t.plain((s.add + off as i64) as usize, 8).then(|| Step::LoadSlot(o, k, off))
                            } else {
                                None
                            }
                        }
                    }
                }
                7 => {
                    // another object's slot that points here
                    let c: Vec<(usize, usize)> = vis
                        .iter()
                        .flat_map(|p| w.objs[*p].slots().iter().enumerate().filter(|(_, s)| s.to == o).map(move |(k, _)| (*p, k)))
                        .collect();
                    if c.is_empty() || u == comp_unit {
                        None
                    } else {
                        let (p, k) = *r.pick(&c);
                        Some(Step::Diff(o, p, k))
                    }
                }
                8 if own && !cfg.mach => plain8(r).map(|off| Step::RawLoad(o, off as i32)),
                9 if own && !cfg.mach && !cfg.pic => plain8(r).map(|off| Step::Abs32(o, off as i32)),
                _ => Some(Step::Nops(r.range(1, 4))),
            };
            if let Some(s) = st {
                if u == comp_unit && matches!(s, Step::Nops(_) | Step::LoadDirect(_)) {
                    continue;
                }
                steps.push(s);
            }
        }
        if let Body::Func { steps: s, .. } = &mut w.objs[f].body {
            *s = steps;
        }
    }
    // tables of all objects, then the root; read-only only where no load-time relocation is needed
    for u in 0..n_units {
        let mut slots: Vec<Slot> = vec![];
        for o in 0..n {
            if w.objs[o].unit == u {
                slots.push(Slot { off: slots.len() * 8, to: o, add: 0 });
            }
        }
        let wr = cfg.pic || u == comp_unit || r.pct(50);
        let id = w.objs.len();
        w.tables.push(id);
        let bytes = vec![0; slots.len() * 8];
        let a = if u == comp_unit {
            None
        } else {
            al(r)
        };
        w.objs.push(Obj {
            unit: u,
            name: format!("fm_table{}", u),
            sc: Sc::G,
            vi: Vi::D,
            al: a,
            body: Body::Blob { bytes, wr, st: false, slots },
            beaten_by: None,
            table: true,
        });
    }
    w.root = w.objs.len();
    let slots: Vec<Slot> = w.tables.iter().enumerate().map(|(k, t)| Slot { off: k * 8, to: *t, add: 0 }).collect();
    w.objs.push(Obj {
        unit: 0,
        name: "fm_root".into(),
        sc: Sc::G,
        vi: Vi::D,
        al: None,
        body: Body::Blob { bytes: vec![0; 8 * slots.len()], wr: true, st: false, slots },
        beaten_by: None,
        table: true,
    });
    // debug sections
    if !cfg.mach {
        for u in 0..units {
            if w.in_so[u] || !r.pct(50) {
                continue;
            }
            let own: Vec<usize> = (0..n).filter(|o| w.objs[*o].unit == u && w.objs[*o].beaten_by.is_none()).collect();
            if own.is_empty() {
                continue;
            }
            let k = r.range(1, 6);
            let mut refs = vec![];
            let mut at = 0;
            for _ in 0..k {
                at += r.below(5);
                let wd = if r.pct(50) { 8u8 } else { 4 };
                let to = *r.pick(&own);
                if w.objs.iter().any(|y| y.beaten_by == Some(to)) {
                    continue;
                }
                refs.push((at, wd, to, r.below(64) as i32));
                at += wd as usize;
            }
            let nb = at + r.below(9);
            let bytes = r.bytes(nb);
            w.dbg.push(Dbg { unit: u, name: format!(".debug_fm{}", u), bytes, refs });
        }
    }
    w
}

// ------------------------------------------------------------------ translation

/// code bytes and links (offset, target, relocation)
pub struct Code {
    pub bytes: Vec<u8>,
    pub links: Vec<(usize, usize, Rl)>,
    /// bytes a linker may rewrite when it resolves a GOT load
    pub soft: Vec<usize>,
}

pub fn code(w: &World, f: usize, salt: u64) -> Code {
    let mut r = Rng::new(salt ^ mix(f as u64));
    let u = w.objs[f].unit;
    let (seed, steps, tail) = match &w.objs[f].body {
        Body::Func { seed, steps, tail } => (*seed, steps, tail),
        _ => unreachable!(),
    };
    let mut c = Code { bytes: vec![0x53, 0x48, 0xbb], links: vec![], soft: vec![] };
    c.bytes.extend(seed.to_le_bytes());
    let junk = !w.mach;
    let slot4 = |c: &mut Code, r: &mut Rng, to: usize, rl: Rl| {
        c.links.push((c.bytes.len(), to, rl));
        let b = if junk { r.bytes(4) } else { vec![0; 4] };
        c.bytes.extend(b);
    };
    let auto = |r: &mut Rng, elf: u32, add: i32, mach: u32| -> Rl {
        if r.pct(75) {
            Rl::Auto
        } else if w.mach {
            Rl::Raw(mach, 0)
        } else {
            Rl::Raw(elf, add)
        }
    };
    // address of a data object to rax
    let addr = |c: &mut Code, r: &mut Rng, o: usize| {
        let own = w.objs[o].unit == u;
        if own {
            c.bytes.extend([0x48, 0x8d, 0x05]);
            let rl = auto(r, 2, -4, 1);
            slot4(c, r, o, rl);
        } else {
            for _ in 0..3 {
                c.soft.push(c.bytes.len());
                c.bytes.push(0);
            }
            let n = c.bytes.len();
            c.bytes[n - 3..].copy_from_slice(&[0x48, 0x8b, 0x05]);
            let rl = auto(r, 9, -4, 3);
            slot4(c, r, o, rl);
        }
    };
    for s in steps {
        match s {
            Step::Call(g) => {
                c.bytes.push(0xe8);
                let rl = auto(&mut r, 4, -4, 2);
                slot4(&mut c, &mut r, *g, rl);
            }
            Step::CallSlot(p, k) => {
                addr(&mut c, &mut r, *p);
                c.bytes.extend([0xff, 0x90]);
                c.bytes.extend((w.objs[*p].slots()[*k].off as u32).to_le_bytes());
            }
            Step::Load(o, off) => {
                addr(&mut c, &mut r, *o);
                c.bytes.extend([0x48, 0x8b, 0x80]);
                c.bytes.extend((*off as u32).to_le_bytes());
            }
            Step::LoadDirect(o) => {
                c.bytes.extend([0x48, 0x8b, 0x05]);
                let rl = auto(&mut r, 2, -4, 1);
                slot4(&mut c, &mut r, *o, rl);
            }
            Step::LoadByte(o, off) => {
                addr(&mut c, &mut r, *o);
                c.bytes.extend([0x0f, 0xb6, 0x80]);
                c.bytes.extend((*off as u32).to_le_bytes());
            }
            Step::Store(o, off, v) => {
                addr(&mut c, &mut r, *o);
                c.bytes.extend([0x48, 0xc7, 0x80]);
                c.bytes.extend((*off as u32).to_le_bytes());
                c.bytes.extend(v.to_le_bytes());
                continue;
            }
            Step::StoreAcc(o, off) => {
                addr(&mut c, &mut r, *o);
                c.bytes.extend([0x48, 0x89, 0x98]);
                c.bytes.extend((*off as u32).to_le_bytes());
                continue;
            }
            Step::LoadSlot(p, k, off) => {
                addr(&mut c, &mut r, *p);
                c.bytes.extend([0x48, 0x8b, 0x80]);
                c.bytes.extend((w.objs[*p].slots()[*k].off as u32).to_le_bytes());
                c.bytes.extend([0x48, 0x8b, 0x80]);
                c.bytes.extend((*off as u32).to_le_bytes());
            }
            Step::Diff(o, p, k) => {
                addr(&mut c, &mut r, *p);
                c.bytes.extend([0x48, 0x8b, 0x88]); // mov rcx,[rax+off]
                c.bytes.extend((w.objs[*p].slots()[*k].off as u32).to_le_bytes());
                addr(&mut c, &mut r, *o);
                c.bytes.extend([0x48, 0x29, 0xc8]); // sub rax,rcx
            }
            Step::RawLoad(o, a) => {
                c.bytes.extend([0x48, 0x8d, 0x05]);
                slot4(&mut c, &mut r, *o, Rl::Raw(2, a - 4));
                c.bytes.extend([0x48, 0x8b, 0x00]);
            }
            Step::Abs32(o, a) => {
                c.bytes.push(0xb8);
                slot4(&mut c, &mut r, *o, Rl::Raw(10, *a));
                c.bytes.extend([0x48, 0x8b, 0x00]);
            }
            Step::Nops(n) => {
                c.bytes.extend(std::iter::repeat(0x90).take(*n));
                continue;
            }
        }
        c.bytes.extend([0x48, 0xc1, 0xc3, ROL as u8, 0x48, 0x01, 0xc3]);
    }
    c.bytes.extend([0x48, 0x89, 0xd8, 0x5b, 0xc3]);
    c.bytes.extend(tail);
    c
}

fn decl_of(o: &Obj) -> D {
    match &o.body {
        Body::Func { .. } => D::Func { sc: o.sc, vi: o.vi, al: o.al },
        Body::Blob { wr, st, .. } => D::Data { sc: o.sc, vi: o.vi, wr: *wr, st: *st, al: o.al },
        Body::Zero { wr, .. } => D::Data { sc: o.sc, vi: o.vi, wr: *wr, st: false, al: o.al },
    }
}

/// the calls that build one unit
pub fn unit_ops(w: &World, u: usize, salt: u64) -> Vec<Op> {
    let mut r = Rng::new(salt ^ mix(u as u64 + 77));
    let mut decls = vec![];
    let mut defs = vec![];
    let mut links: Vec<Vec<Op>> = vec![];
    let mut imports: BTreeMap<String, bool> = BTreeMap::new();
    for (i, o) in w.objs.iter().enumerate().filter(|x| x.1.unit == u) {
        decls.push(Op::Declare(o.name.clone(), decl_of(o)));
        let mut ls = vec![];
        let mut link = |at: usize, to: usize, rl: Rl| {
            let t = &w.objs[to];
            if t.unit != u {
                imports.insert(t.name.clone(), t.is_func());
            }
            ls.push(match rl {
                Rl::Auto => Op::Link(o.name.clone(), t.name.clone(), at as u64),
                rl => Op::LinkWith(o.name.clone(), t.name.clone(), at as u64, rl),
            });
        };
        match &o.body {
            Body::Func { .. } => {
                let c = code(w, i, salt);
                for (at, to, rl) in c.links {
                    link(at, to, rl);
                }
                defs.push(Op::Define(o.name.clone(), c.bytes));
            }
            Body::Blob { bytes, slots, .. } => {
                for s in slots {
                    let rl = if s.add != 0 || r.pct(25) { Rl::Raw(if w.mach { 0 } else { 1 }, s.add as i32) } else { Rl::Auto };
                    link(s.off, s.to, rl);
                }
                defs.push(Op::Define(o.name.clone(), bytes.clone()));
            }
            Body::Zero { size, .. } => defs.push(Op::DefineZero(o.name.clone(), *size as u64)),
        }
        links.push(ls);
    }
    for d in w.dbg.iter().filter(|d| d.unit == u) {
        decls.push(Op::Declare(d.name.clone(), D::Sect { k: Sk::Debug, st: false, al: None }));
        defs.push(Op::Define(d.name.clone(), d.bytes.clone()));
        links.push(
            d.refs
                .iter()
                .map(|(at, wd, to, add)| Op::LinkWith(d.name.clone(), w.objs[*to].name.clone(), *at as u64, Rl::Debug(*wd, *add)))
                .collect(),
        );
    }
    for (n, f) in imports {
        decls.push(Op::Import(n, f));
    }
    r.shuffle(&mut decls);
    r.shuffle(&mut links);
    let mut rest: Vec<Op> = links.into_iter().flatten().collect();
    if r.pct(50) {
        r.shuffle(&mut defs);
        rest.extend(defs);
    } else {
        for d in defs {
            let k = r.below(rest.len() + 1);
            rest.insert(k, d);
        }
    }
    decls.extend(rest);
    decls
}

/// the C companion
pub fn c_text(w: &World) -> String {
    let u = w.units;
    let mut t = String::from(
        "typedef unsigned long uint64_t; typedef long int64_t;\n#define U __attribute__((used))\n\
         static __attribute__((noinline)) uint64_t ld(void *p, long o, int n){volatile unsigned char *c=(volatile unsigned char*)p+o;uint64_t v=0;for(int i=0;i<n;i++)v|=(uint64_t)c[i]<<8*i;return v;}\n\
         static __attribute__((noinline)) void sv(void *p, long o, uint64_t v){volatile unsigned char *c=(volatile unsigned char*)p+o;for(int i=0;i<8;i++)c[i]=v>>8*i;}\n\
         static uint64_t rol(uint64_t a){return a<<7|a>>57;}\n",
    );
    let mut seen = HashSet::new();
    let decl = |t: &mut String, seen: &mut HashSet<usize>, o: usize| {
        let x = &w.objs[o];
        if !seen.insert(o) {
            return;
        }
        if x.is_func() {
            t.push_str(&format!("uint64_t {}(void);\n", x.name));
        } else if x.unit != u {
            t.push_str(&format!("extern unsigned char {}[];\n", x.name));
        } else if x.slots().is_empty() {
            t.push_str(&format!("extern unsigned char {}[{}];\n", x.name, x.size().max(1)));
        } else {
            t.push_str(&format!("extern struct t_{0} {0};\n", x.name));
        }
    };
    let own: Vec<usize> = (0..w.objs.len()).filter(|o| w.objs[*o].unit == u).collect();
    let name = |o: usize| -> String {
        let x = &w.objs[o];
        if x.unit == u && !x.is_func() && !x.slots().is_empty() {
            format!("((unsigned char*)&{})", x.name)
        } else {
            x.name.clone()
        }
    };
    // struct types for data with pointers
    let mut defs = String::new();
    for o in &own {
        let x = &w.objs[*o];
        if x.is_func() {
            continue;
        }
        let bytes = match &x.body {
            Body::Blob { bytes, .. } => bytes,
            _ => unreachable!(),
        };
        let list = |b: &[u8]| b.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",");
        if x.slots().is_empty() {
            let b: Vec<u8> = if bytes.is_empty() { vec![0] } else { bytes.clone() };
            defs.push_str(&format!("unsigned char U {}[{}] = {{{}}};\n", x.name, b.len(), list(&b)));
        } else {
            let mut s: Vec<Slot> = x.slots().to_vec();
            s.sort_by_key(|s| s.off);
            let (mut fields, mut init) = (String::new(), vec![]);
            let mut at = 0;
            for (k, sl) in s.iter().enumerate() {
                if sl.off > at {
                    fields.push_str(&format!("unsigned char b{}[{}];", k, sl.off - at));
                    init.push(format!("{{{}}}", list(&bytes[at..sl.off])));
                }
                fields.push_str(&format!("void *p{};", k));
                decl(&mut t, &mut seen, sl.to);
                init.push(format!("(void*)((char*){}+{})", name(sl.to), sl.add));
                at = sl.off + 8;
            }
            if at < bytes.len() {
                fields.push_str(&format!("unsigned char e[{}];", bytes.len() - at));
                init.push(format!("{{{}}}", list(&bytes[at..])));
            }
            t.insert_str(0, &format!("struct __attribute__((packed)) t_{} {{{}}};\n", x.name, fields));
            decl(&mut t, &mut seen, *o);
            defs.push_str(&format!("struct t_{0} U {0} = {{{1}}};\n", x.name, init.join(",")));
        }
    }
    let mut funcs = String::new();
    for o in &own {
        let (seed, steps) = match &w.objs[*o].body {
            Body::Func { seed, steps, .. } => (*seed, steps),
            _ => continue,
        };
        decl(&mut t, &mut seen, *o);
        funcs.push_str(&format!("U uint64_t {}(void) {{ uint64_t a = {}ull;\n", w.objs[*o].name, seed));
        for s in steps {
            let mut nn = |x: usize| {
                decl(&mut t, &mut seen, x);
                name(x)
            };
            let line = match s {
                Step::Call(g) => format!("a=rol(a)+{}();", nn(*g)),
                Step::CallSlot(p, k) => {
                    format!("a=rol(a)+((uint64_t(*)(void))ld({},{},8))();", nn(*p), w.objs[*p].slots()[*k].off)
                }
                Step::Load(x, off) => format!("a=rol(a)+ld({},{},8);", nn(*x), off),
                Step::LoadByte(x, off) => format!("a=rol(a)+ld({},{},1);", nn(*x), off),
                Step::LoadSlot(p, k, off) => {
                    format!("a=rol(a)+ld((void*)ld({},{},8),{},8);", nn(*p), w.objs[*p].slots()[*k].off, off)
                }
                Step::Store(x, off, v) => format!("sv({},{},(uint64_t)(int64_t){});", nn(*x), off, *v as i64),
                Step::StoreAcc(x, off) => format!("sv({},{},a);", nn(*x), off),
                _ => unreachable!(),
            };
            funcs.push_str(&line);
            funcs.push('\n');
        }
        funcs.push_str("return a; }\n");
    }
    // data declarations first (pointers refer to anything)
    for o in &own {
        if !w.objs[*o].is_func() {
            decl(&mut t, &mut seen, *o);
        }
    }
    t + &defs + &funcs
}

// ------------------------------------------------------------------ the request to the driver and its answer

pub struct Probe {
    pub unit: usize,
    pub slot: usize,
    pub f: usize,
}
pub fn probe_list(w: &World) -> Vec<Probe> {
    probes(w)
        .into_iter()
        .map(|f| {
            let u = w.objs[f].unit;
            let slot = w.objs[w.tables[u]].slots().iter().position(|s| s.to == f).unwrap();
            Probe { unit: u, slot, f }
        })
        .collect()
}
/// bytes to dump of an object
pub fn dump_len(w: &World, o: usize, salt: u64) -> usize {
    let x = &w.objs[o];
    if x.beaten_by.is_some() {
        return 0; // the pointer may reach the other definition
    }
    if x.is_func() {
        if x.unit == w.units {
            0
        } else {
            code(w, o, salt).bytes.len()
        }
    } else {
        x.size()
    }
}
pub fn request(w: &World, salt: u64) -> Vec<u8> {
    let mut b = vec![];
    let p = |b: &mut Vec<u8>, v: usize| b.extend((v as u64).to_le_bytes());
    p(&mut b, w.tables.len());
    for t in &w.tables {
        p(&mut b, w.objs[*t].slots().len());
        for s in w.objs[*t].slots() {
            p(&mut b, dump_len(w, s.to, salt));
        }
    }
    let pr = probe_list(w);
    p(&mut b, pr.len());
    for x in pr {
        p(&mut b, x.unit);
        p(&mut b, x.slot);
    }
    b
}
