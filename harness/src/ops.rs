//! The history language: one `Op` is one public API call, plus its textual form for replay files.
use faerie::artifact::{DataType, SectionKind};
use faerie::{Artifact, ArtifactError, Data, Decl, ImportKind, Link, Reloc, Scope, Visibility};
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sc {
    L,
    G,
    W,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Vi {
    D,
    P,
    H,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sk {
    Data,
    Debug,
    Text,
}
/// A declaration, in our own terms.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum D {
    ImpF,
    ImpD,
    Func { sc: Sc, vi: Vi, al: Option<u64> },
    Data { sc: Sc, vi: Vi, wr: bool, st: bool, al: Option<u64> },
    Sect { k: Sk, st: bool, al: Option<u64> },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pay {
    Blob(Vec<u8>),
    Zero(u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rl {
    Auto,
    Raw(u32, i32),
    Debug(u8, i32),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Declare(String, D),
    Declarations(Vec<(String, D)>),
    DeclareWith(String, D, Vec<u8>),
    Import(String, bool),
    Define(String, Vec<u8>),
    DefineZero(String, u64),
    DefineSyms(String, Pay, Vec<(String, u64)>),
    Link(String, String, u64),
    LinkWith(String, String, u64, Rl),
}

impl D {
    pub fn is_import(&self) -> bool {
        matches!(self, D::ImpF | D::ImpD)
    }
    pub fn align(&self) -> Option<u64> {
        match self {
            D::Func { al, .. } | D::Data { al, .. } | D::Sect { al, .. } => *al,
            _ => None,
        }
    }
    pub fn scope(&self) -> Sc {
        match self {
            D::Func { sc, .. } | D::Data { sc, .. } => *sc,
            D::Sect { .. } => Sc::L,
            _ => Sc::G,
        }
    }
    pub fn vis(&self) -> Vi {
        match self {
            D::Func { vi, .. } | D::Data { vi, .. } => *vi,
            _ => Vi::D,
        }
    }
    pub fn is_sect(&self) -> bool {
        matches!(self, D::Sect { .. })
    }
    pub fn is_func(&self) -> bool {
        matches!(self, D::Func { .. })
    }
    pub fn is_data(&self) -> bool {
        matches!(self, D::Data { .. })
    }
    pub fn is_debug(&self) -> bool {
        matches!(self, D::Sect { k: Sk::Debug, .. })
    }

    /// Build the faerie declaration. `path` picks among the equivalent builder routes.
    pub fn decl(&self, path: u64) -> Decl {
        fn scope(s: Sc) -> Scope {
            match s {
                Sc::L => Scope::Local,
                Sc::G => Scope::Global,
                Sc::W => Scope::Weak,
            }
        }
        fn vis(v: Vi) -> Visibility {
            match v {
                Vi::D => Visibility::Default,
                Vi::P => Visibility::Protected,
                Vi::H => Visibility::Hidden,
            }
        }
        macro_rules! sv {
            ($d:ident, $sc:expr, $vi:expr, $al:expr) => {{
                match path % 3 {
                    0 => {
                        $d = match $sc {
                            Sc::L => $d.local(),
                            Sc::G => $d.global(),
                            Sc::W => $d.weak(),
                        };
                        $d = match $vi {
                            Vi::D => $d.default_visibility(),
                            Vi::P => $d.protected(),
                            Vi::H => $d.hidden(),
                        };
                        $d = $d.with_align($al);
                    }
                    1 => {
                        $d = $d.with_visibility(vis($vi)).with_scope(scope($sc));
                        $d.set_align($al);
                    }
                    _ => {
                        $d.set_align($al);
                        if $sc != Sc::L {
                            $d.set_scope(scope($sc));
                        }
                        if $vi != Vi::D {
                            $d.set_visibility(vis($vi));
                        }
                    }
                }
            }};
        }
        match *self {
            D::ImpF => {
                if path % 2 == 0 {
                    Decl::function_import().into()
                } else {
                    Decl::Import(ImportKind::Function)
                }
            }
            D::ImpD => {
                if path % 2 == 0 {
                    Decl::data_import().into()
                } else {
                    Decl::Import(ImportKind::Data)
                }
            }
            D::Func { sc, vi, al } => {
                let mut d = Decl::function();
                sv!(d, sc, vi, al);
                d.into()
            }
            D::Data { sc, vi, wr, st, al } => {
                let mut d = if st && path & 4 == 0 {
                    Decl::cstring()
                } else {
                    let mut d = Decl::data();
                    if path & 8 == 0 {
                        d = d.with_datatype(if st { DataType::String } else { DataType::Bytes });
                    } else {
                        d.set_datatype(if st { DataType::String } else { DataType::Bytes });
                    }
                    d
                };
                sv!(d, sc, vi, al);
                match (path >> 4) % 3 {
                    0 => d = if wr { d.writable() } else { d.read_only() },
                    1 => d = d.with_writable(wr),
                    _ => d.set_writable(wr),
                }
                d.into()
            }
            D::Sect { k, st, al } => {
                let mut d = Decl::section(match k {
                    Sk::Data => SectionKind::Data,
                    Sk::Debug => SectionKind::Debug,
                    Sk::Text => SectionKind::Text,
                });
                if st {
                    if path % 2 == 0 {
                        d = d.with_datatype(DataType::String);
                    } else {
                        d.set_datatype(DataType::String);
                    }
                }
                if path & 2 == 0 {
                    d = d.with_align(al);
                } else {
                    d.set_align(al);
                }
                d.into()
            }
        }
    }
}

impl Pay {
    pub fn mem_size(&self) -> u64 {
        match self {
            Pay::Blob(b) => b.len() as u64,
            Pay::Zero(n) => *n,
        }
    }
    pub fn file_size(&self) -> u64 {
        match self {
            Pay::Blob(b) => b.len() as u64,
            Pay::Zero(_) => 0,
        }
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, Pay::Zero(_))
    }
    pub fn data(&self) -> Data {
        match self {
            Pay::Blob(b) => Data::Blob(b.clone()),
            Pay::Zero(n) => Data::ZeroInit(*n as usize),
        }
    }
}

impl Rl {
    pub fn reloc(&self) -> Reloc {
        match *self {
            Rl::Auto => Reloc::Auto,
            Rl::Raw(r, a) => Reloc::Raw { reloc: r, addend: a },
            Rl::Debug(s, a) => Reloc::Debug { size: s, addend: a },
        }
    }
}

/// What a call returned, reduced to what a caller can see.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok,
    Undeclared(String),
    ImportDefined(String),
    RelocateImport(String),
    /// compared through the Debug form of (old, new), which covers every attribute
    Incompatible(String, String),
    Duplicate(String),
    InvalidZero(String),
    NonSectSyms(String, BTreeMap<String, u64>),
    Unsupported(String),
    Undefined(Vec<String>),
    Io(String),
    Other(String),
}

pub fn out_of(r: Result<(), ArtifactError>) -> Out {
    match r {
        Ok(()) => Out::Ok,
        Err(e) => out_err(e),
    }
}
pub fn out_err(e: ArtifactError) -> Out {
    match e {
        ArtifactError::Undeclared(s) => Out::Undeclared(s),
        ArtifactError::ImportDefined(s) => Out::ImportDefined(s),
        ArtifactError::RelocateImport(s) => Out::RelocateImport(s),
        ArtifactError::IncompatibleDeclaration { old, new } => {
            Out::Incompatible(format!("{:?}", old), format!("{:?}", new))
        }
        ArtifactError::DuplicateDefinition(s) => Out::Duplicate(s),
        ArtifactError::InvalidZeroInit(d) => Out::InvalidZero(format!("{:?}", Decl::Defined(d))),
        ArtifactError::NonSectionCustomSymbols(d, m) => {
            Out::NonSectSyms(format!("{:?}", Decl::Defined(d)), m)
        }
        ArtifactError::UnsupportedBinaryFormat(f) => Out::Unsupported(format!("{:?}", f)),
        ArtifactError::UndefinedSymbols(v) => Out::Undefined(v),
        ArtifactError::Io(e) => Out::Io(e.to_string()),
        e => Out::Other(format!("{:?}", e)),
    }
}

impl Op {
    fn path(&self) -> u64 {
        // deterministic choice of builder route per op
        match self {
            Op::Declare(n, d) | Op::DeclareWith(n, d, _) => {
                crate::rng::hash_bytes(format!("{}{:?}", n, d).as_bytes())
            }
            Op::Declarations(v) => v.len() as u64,
            _ => 0,
        }
    }
    /// Run on the real artifact.
    pub fn run(&self, a: &mut Artifact) -> Out {
        let p = self.path();
        match self {
            Op::Declare(n, d) => {
                if p & 64 == 0 {
                    out_of(a.declare(n, d.decl(p)))
                } else {
                    out_of(a.declare(n.clone(), d.decl(p)))
                }
            }
            Op::Declarations(v) => out_of(
                a.declarations(v.iter().enumerate().map(|(i, (n, d))| (n.as_str(), d.decl(p + i as u64)))),
            ),
            Op::DeclareWith(n, d, b) => out_of(a.declare_with(n, d.decl(p), b.clone())),
            Op::Import(n, f) => {
                out_of(a.import(n, if *f { ImportKind::Function } else { ImportKind::Data }))
            }
            Op::Define(n, b) => out_of(a.define(n, b.clone())),
            Op::DefineZero(n, s) => out_of(a.define_zero_init(n, *s as usize)),
            Op::DefineSyms(n, pay, s) => {
                let m: BTreeMap<String, u64> = s.iter().cloned().collect();
                out_of(a.define_with_symbols(n, pay.data(), m))
            }
            Op::Link(f, t, at) => out_of(a.link(Link { from: f, to: t, at: *at })),
            Op::LinkWith(f, t, at, r) => {
                out_of(a.link_with(Link { from: f, to: t, at: *at }, r.reloc()))
            }
        }
    }
    pub fn label(&self) -> &'static str {
        match self {
            Op::Declare(..) => "declare",
            Op::Declarations(..) => "declarations",
            Op::DeclareWith(..) => "declare_with",
            Op::Import(..) => "import",
            Op::Define(..) => "define",
            Op::DefineZero(..) => "define_zero_init",
            Op::DefineSyms(..) => "define_with_symbols",
            Op::Link(..) => "link",
            Op::LinkWith(..) => "link_with",
        }
    }
}

// ---------------------------------------------------------------- textual form

pub fn esc(s: &str) -> String {
    let mut o = String::from("'");
    for b in s.bytes() {
        if b.is_ascii_graphic() && b != b'%' && b != b'\'' && b != b',' && b != b'=' {
            o.push(b as char);
        } else {
            write!(o, "%{:02x}", b).unwrap();
        }
    }
    o.push('\'');
    o
}
pub fn unesc(s: &str) -> Result<String, String> {
    let s = s.strip_prefix('\'').and_then(|s| s.strip_suffix('\'')).ok_or("bad quoting")?;
    let mut v = Vec::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).map_err(|e| e.to_string())?);
            i += 3;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(v).map_err(|e| e.to_string())
}
fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    // run-length form for long constant blobs
    if b.len() > 16 && b.iter().all(|x| *x == b[0]) {
        return format!("{:02x}*{}", b[0], b.len());
    }
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        write!(s, "{:02x}", x).unwrap();
    }
    s
}
fn unhex(s: &str) -> Result<Vec<u8>, String> {
    if s == "-" {
        return Ok(vec![]);
    }
    if let Some((b, n)) = s.split_once('*') {
        return Ok(vec![
            u8::from_str_radix(b, 16).map_err(|e| e.to_string())?;
            n.parse().map_err(|_| "bad count".to_string())?
        ]);
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(|e| e.to_string()))
        .collect()
}
fn dtxt(d: &D) -> String {
    let al = |a: &Option<u64>| a.map(|x| x.to_string()).unwrap_or("-".into());
    match d {
        D::ImpF => "impf".into(),
        D::ImpD => "impd".into(),
        D::Func { sc, vi, al: a } => format!("func:{:?}:{:?}:{}", sc, vi, al(a)),
        D::Data { sc, vi, wr, st, al: a } => {
            format!("data:{:?}:{:?}:{}:{}:{}", sc, vi, *wr as u8, *st as u8, al(a))
        }
        D::Sect { k, st, al: a } => format!("sect:{:?}:{}:{}", k, *st as u8, al(a)),
    }
}
fn dparse(s: &str) -> Result<D, String> {
    let p: Vec<&str> = s.split(':').collect();
    let al = |x: &str| -> Result<Option<u64>, String> {
        if x == "-" {
            Ok(None)
        } else {
            x.parse().map(Some).map_err(|_| "bad align".to_string())
        }
    };
    let sc = |x: &str| match x {
        "L" => Ok(Sc::L),
        "G" => Ok(Sc::G),
        "W" => Ok(Sc::W),
        _ => Err("bad scope".to_string()),
    };
    let vi = |x: &str| match x {
        "D" => Ok(Vi::D),
        "P" => Ok(Vi::P),
        "H" => Ok(Vi::H),
        _ => Err("bad vis".to_string()),
    };
    Ok(match (p[0], p.len()) {
        ("impf", 1) => D::ImpF,
        ("impd", 1) => D::ImpD,
        ("func", 4) => D::Func { sc: sc(p[1])?, vi: vi(p[2])?, al: al(p[3])? },
        ("data", 6) => D::Data {
            sc: sc(p[1])?,
            vi: vi(p[2])?,
            wr: p[3] == "1",
            st: p[4] == "1",
            al: al(p[5])?,
        },
        ("sect", 4) => D::Sect {
            k: match p[1] {
                "Data" => Sk::Data,
                "Debug" => Sk::Debug,
                "Text" => Sk::Text,
                _ => return Err("bad kind".into()),
            },
            st: p[2] == "1",
            al: al(p[3])?,
        },
        _ => return Err(format!("bad decl {}", s)),
    })
}
fn ptxt(p: &Pay) -> String {
    match p {
        Pay::Blob(b) => format!("b{}", hex(b)),
        Pay::Zero(n) => format!("z{}", n),
    }
}

impl Op {
    pub fn text(&self) -> String {
        match self {
            Op::Declare(n, d) => format!("declare {} {}", esc(n), dtxt(d)),
            Op::Declarations(v) => {
                let mut s = String::from("declarations");
                for (n, d) in v {
                    write!(s, " {} {}", esc(n), dtxt(d)).unwrap();
                }
                s
            }
            Op::DeclareWith(n, d, b) => format!("declare_with {} {} {}", esc(n), dtxt(d), hex(b)),
            Op::Import(n, f) => format!("import {} {}", esc(n), if *f { "f" } else { "d" }),
            Op::Define(n, b) => format!("define {} {}", esc(n), hex(b)),
            Op::DefineZero(n, s) => format!("define_zero {} {}", esc(n), s),
            Op::DefineSyms(n, p, s) => {
                let mut o = format!("define_syms {} {}", esc(n), ptxt(p));
                for (k, v) in s {
                    write!(o, " {}={}", esc(k), v).unwrap();
                }
                o
            }
            Op::Link(f, t, at) => format!("link {} {} {}", esc(f), esc(t), at),
            Op::LinkWith(f, t, at, r) => {
                let r = match r {
                    Rl::Auto => "auto".to_string(),
                    Rl::Raw(a, b) => format!("raw:{}:{}", a, b),
                    Rl::Debug(a, b) => format!("debug:{}:{}", a, b),
                };
                format!("link_with {} {} {} {}", esc(f), esc(t), at, r)
            }
        }
    }
    pub fn parse(line: &str) -> Result<Op, String> {
        let w: Vec<&str> = line.split_whitespace().collect();
        let need = |n: usize| if w.len() == n { Ok(()) } else { Err(format!("bad arity: {}", line)) };
        let num = |s: &str| s.parse::<u64>().map_err(|_| "bad number".to_string());
        Ok(match w[0] {
            "declare" => {
                need(3)?;
                Op::Declare(unesc(w[1])?, dparse(w[2])?)
            }
            "declarations" => {
                let mut v = vec![];
                for c in w[1..].chunks(2) {
                    v.push((unesc(c[0])?, dparse(c[1])?));
                }
                Op::Declarations(v)
            }
            "declare_with" => {
                need(4)?;
                Op::DeclareWith(unesc(w[1])?, dparse(w[2])?, unhex(w[3])?)
            }
            "import" => {
                need(3)?;
                Op::Import(unesc(w[1])?, w[2] == "f")
            }
            "define" => {
                need(3)?;
                Op::Define(unesc(w[1])?, unhex(w[2])?)
            }
            "define_zero" => {
                need(3)?;
                Op::DefineZero(unesc(w[1])?, num(w[2])?)
            }
            "define_syms" => {
                let p = if let Some(h) = w[2].strip_prefix('b') {
                    Pay::Blob(unhex(h)?)
                } else {
                    Pay::Zero(num(&w[2][1..])?)
                };
                let mut s = vec![];
                for kv in &w[3..] {
                    let (k, v) = kv.split_once('=').ok_or("bad sym")?;
                    s.push((unesc(k)?, num(v)?));
                }
                Op::DefineSyms(unesc(w[1])?, p, s)
            }
            "link" => {
                need(4)?;
                Op::Link(unesc(w[1])?, unesc(w[2])?, num(w[3])?)
            }
            "link_with" => {
                need(5)?;
                let p: Vec<&str> = w[4].split(':').collect();
                let r = match p[0] {
                    "auto" => Rl::Auto,
                    "raw" => Rl::Raw(
                        p[1].parse().map_err(|_| "raw")?,
                        p[2].parse().map_err(|_| "raw")?,
                    ),
                    "debug" => Rl::Debug(
                        p[1].parse().map_err(|_| "dbg")?,
                        p[2].parse().map_err(|_| "dbg")?,
                    ),
                    _ => return Err("bad reloc".into()),
                };
                Op::LinkWith(unesc(w[1])?, unesc(w[2])?, num(w[3])?, r)
            }
            x => return Err(format!("unknown op {}", x)),
        })
    }
}

/// A whole case: target triple, artifact name and the calls.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Hist {
    pub triple: String,
    pub name: String,
    /// the artifact is marked as a static library
    pub lib: bool,
    pub ops: Vec<Op>,
}
impl Hist {
    pub fn text(&self) -> String {
        let mut s = format!("triple {}\nname {}\n", esc(&self.triple), esc(&self.name));
        if self.lib {
            s.push_str("library\n");
        }
        for o in &self.ops {
            s.push_str(&o.text());
            s.push('\n');
        }
        s
    }
    pub fn parse(t: &str) -> Result<Hist, String> {
        let mut h = Hist { triple: String::new(), name: String::new(), lib: false, ops: vec![] };
        for l in t.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            if let Some(x) = l.strip_prefix("triple ") {
                h.triple = unesc(x)?;
            } else if let Some(x) = l.strip_prefix("name ") {
                h.name = unesc(x)?;
            } else if l == "library" {
                h.lib = true;
            } else {
                h.ops.push(Op::parse(l)?);
            }
        }
        Ok(h)
    }
    pub fn artifact(&self) -> Artifact {
        use std::str::FromStr;
        let t = faerie::Triple::from_str(&self.triple).expect("harness: bad triple");
        let mut a = Artifact::new(t, self.name.clone());
        a.is_library = self.lib;
        a
    }
}
