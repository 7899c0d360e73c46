//! Independent Mach-O relocatable-object reader. Knows nothing of faerie or goblin.
use crate::elf::Rd;

#[derive(Clone, Debug)]
pub struct Sect {
    pub sectname: String,
    pub segname: String,
    pub addr: u64,
    pub size: u64,
    pub off: u64,
    pub align: u32,
    pub reloff: u64,
    pub nreloc: u64,
    pub flags: u32,
    pub res: [u32; 3],
    pub relocs: Vec<Rel>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Rel {
    pub addr: i32,
    pub sym: u32,
    pub pcrel: bool,
    pub len: u8,
    pub ext: bool,
    pub typ: u8,
}
#[derive(Clone, Debug)]
pub struct Nl {
    pub name: String,
    pub typ: u8,
    pub sect: u8,
    pub desc: u16,
    pub value: u64,
}
#[derive(Clone, Debug)]
pub struct Macho {
    pub is64: bool,
    pub le: bool,
    pub cputype: u32,
    pub cpusub: u32,
    pub filetype: u32,
    pub flags: u32,
    pub ncmds: u32,
    pub sizeofcmds: u32,
    pub seg: Seg,
    pub secs: Vec<Sect>,
    pub symoff: u64,
    pub stroff: u64,
    pub strsize: u64,
    pub syms: Vec<Nl>,
    pub cmds_end: u64,
}
#[derive(Clone, Debug, Default)]
pub struct Seg {
    pub name: String,
    pub vmaddr: u64,
    pub vmsize: u64,
    pub fileoff: u64,
    pub filesize: u64,
    pub maxprot: u32,
    pub initprot: u32,
    pub flags: u32,
}
pub const N_EXT: u8 = 1;
pub const N_PEXT: u8 = 0x10;
pub const N_SECT: u8 = 0xe;
pub const N_WEAK_DEF: u16 = 0x80;
pub const S_ZEROFILL: u32 = 1;
pub const S_CSTRING: u32 = 2;
pub const ATTR_DEBUG: u32 = 0x0200_0000;
pub const ATTR_PURE: u32 = 0x8000_0000;
pub const ATTR_SOME: u32 = 0x0000_0400;

impl Sect {
    pub fn zerofill(&self) -> bool {
        self.flags & 0xff == S_ZEROFILL
    }
}

fn name16(r: &Rd, o: u64) -> Result<String, String> {
    let s = r.slice(o, 16)?;
    let n = s.iter().position(|x| *x == 0).unwrap_or(16);
    if s[n..].iter().any(|x| *x != 0) {
        return Err("garbage after a section/segment name".into());
    }
    String::from_utf8(s[..n].to_vec()).map_err(|_| "section name is not UTF-8".into())
}

pub fn parse(b: &[u8]) -> Result<Macho, String> {
    if b.len() < 28 {
        return Err("too short for a Mach-O header".into());
    }
    let (is64, le) = match [b[0], b[1], b[2], b[3]] {
        [0xcf, 0xfa, 0xed, 0xfe] => (true, true),
        [0xce, 0xfa, 0xed, 0xfe] => (false, true),
        [0xfe, 0xed, 0xfa, 0xcf] => (true, false),
        [0xfe, 0xed, 0xfa, 0xce] => (false, false),
        _ => return Err("no Mach-O magic".into()),
    };
    let r = Rd { b, le };
    let hd = if is64 { 32 } else { 28 };
    let cputype = r.get(4, 4)? as u32;
    let cpusub = r.get(8, 4)? as u32;
    let filetype = r.get(12, 4)? as u32;
    let ncmds = r.get(16, 4)? as u32;
    let sizeofcmds = r.get(20, 4)? as u32;
    let flags = r.get(24, 4)? as u32;
    if is64 && r.get(28, 4)? != 0 {
        return Err("reserved header field is not zero".into());
    }
    let cmds_end = hd + sizeofcmds as u64;
    r.slice(hd, sizeofcmds as u64).map_err(|e| format!("load commands: {}", e))?;
    let mut o = hd;
    let mut seg: Option<Seg> = None;
    let mut secs = vec![];
    let mut st: Option<(u64, u64, u64, u64)> = None;
    for i in 0..ncmds {
        if o + 8 > cmds_end {
            return Err(format!("load command {} outside sizeofcmds", i));
        }
        let cmd = r.get(o, 4)?;
        let sz = r.get(o + 4, 4)?;
        if sz < 8 || sz % if is64 { 8 } else { 4 } != 0 || o + sz > cmds_end {
            return Err(format!("load command {} has bad size {}", i, sz));
        }
        match cmd {
            0x1 | 0x19 => {
                if (cmd == 0x19) != is64 {
                    return Err("segment command of the wrong width".into());
                }
                if seg.is_some() {
                    return Err("several segments in a relocatable object".into());
                }
                let w: u64 = if is64 { 8 } else { 4 };
                let mut s = Seg { name: name16(&r, o + 8)?, ..Default::default() };
                let p = o + 24;
                s.vmaddr = r.get(p, w as usize)?;
                s.vmsize = r.get(p + w, w as usize)?;
                s.fileoff = r.get(p + 2 * w, w as usize)?;
                s.filesize = r.get(p + 3 * w, w as usize)?;
                let p = p + 4 * w;
                s.maxprot = r.get(p, 4)? as u32;
                s.initprot = r.get(p + 4, 4)? as u32;
                let nsects = r.get(p + 8, 4)?;
                s.flags = r.get(p + 12, 4)? as u32;
                let ssz: u64 = if is64 { 80 } else { 68 };
                if sz != (p + 16 - o) + nsects * ssz {
                    return Err(format!("segment command size {} does not fit {} sections", sz, nsects));
                }
                for k in 0..nsects {
                    let q = p + 16 + k * ssz;
                    let sectname = name16(&r, q)?;
                    let segname = name16(&r, q + 16)?;
                    let addr = r.get(q + 32, w as usize)?;
                    let size = r.get(q + 32 + w, w as usize)?;
                    let t = q + 32 + 2 * w;
                    let f = |n: u64| r.get(t + 4 * n, 4);
                    secs.push(Sect {
                        sectname,
                        segname,
                        addr,
                        size,
                        off: f(0)?,
                        align: f(1)? as u32,
                        reloff: f(2)?,
                        nreloc: f(3)?,
                        flags: f(4)? as u32,
                        res: [f(5)? as u32, f(6)? as u32, if is64 { f(7)? as u32 } else { 0 }],
                        relocs: vec![],
                    });
                }
                seg = Some(s);
            }
            0x2 => {
                if st.is_some() {
                    return Err("several symbol tables".into());
                }
                if sz != 24 {
                    return Err(format!("symtab command size {}", sz));
                }
                st = Some((r.get(o + 8, 4)?, r.get(o + 12, 4)?, r.get(o + 16, 4)?, r.get(o + 20, 4)?));
            }
            c => return Err(format!("unexpected load command {:#x}", c)),
        }
        o += sz;
    }
    if o != cmds_end {
        return Err(format!("load commands end at {:#x}, sizeofcmds says {:#x}", o, cmds_end));
    }
    let seg = seg.ok_or("no segment")?;
    let (symoff, nsyms, stroff, strsize) = st.ok_or("no symbol table")?;
    r.slice(stroff, strsize).map_err(|e| format!("string table: {}", e))?;
    let nsz: u64 = if is64 { 16 } else { 12 };
    r.slice(symoff, nsyms * nsz).map_err(|e| format!("symbol table: {}", e))?;
    let mut syms = Vec::with_capacity(nsyms as usize);
    for i in 0..nsyms {
        let q = symoff + i * nsz;
        let x = r.get(q, 4)?;
        if x >= strsize {
            return Err(format!("symbol {} name offset {} outside the string table", i, x));
        }
        syms.push(Nl {
            name: r.cstr(stroff + x, stroff + strsize).map_err(|e| format!("symbol {}: {}", i, e))?,
            typ: r.get(q + 4, 1)? as u8,
            sect: r.get(q + 5, 1)? as u8,
            desc: r.get(q + 6, 2)? as u16,
            value: r.get(q + 8, if is64 { 8 } else { 4 })?,
        });
    }
    for (i, s) in secs.iter_mut().enumerate() {
        if !s.zerofill() {
            r.slice(s.off, s.size).map_err(|e| format!("section {} ({}): {}", i + 1, s.sectname, e))?;
        }
        r.slice(s.reloff, s.nreloc * 8).map_err(|e| format!("relocations of section {}: {}", i + 1, e))?;
        for k in 0..s.nreloc {
            let q = s.reloff + 8 * k;
            let a = r.get(q, 4)? as u32 as i32;
            let w = r.get(q + 4, 4)? as u32;
            s.relocs.push(Rel {
                addr: a,
                sym: w & 0xff_ffff,
                pcrel: w >> 24 & 1 == 1,
                len: (w >> 25 & 3) as u8,
                ext: w >> 27 & 1 == 1,
                typ: (w >> 28) as u8,
            });
        }
    }
    Ok(Macho {
        is64,
        le,
        cputype,
        cpusub,
        filetype,
        flags,
        ncmds,
        sizeofcmds,
        seg,
        secs,
        symoff,
        stroff,
        strsize,
        syms,
        cmds_end,
    })
}

pub fn content<'a>(m: &Macho, i: usize, b: &'a [u8]) -> &'a [u8] {
    let s = &m.secs[i];
    if s.zerofill() {
        &[]
    } else {
        &b[s.off as usize..(s.off + s.size) as usize]
    }
}

/// Structural rules. Each finding is tagged with a short kind.
pub fn structure(m: &Macho, b: &[u8]) -> Vec<String> {
    let mut bad = vec![];
    macro_rules! ck { ($c:expr, $($a:tt)*) => { if !($c) && bad.len() < 12 { bad.push(format!($($a)*)) } } }
    ck!(m.filetype == 1, "filetype {}", m.filetype);
    ck!(m.seg.flags == 0, "segment flags {:#x}", m.seg.flags);
    ck!(m.seg.initprot == 7 && m.seg.maxprot == 7, "segment protection {}/{}", m.seg.initprot, m.seg.maxprot);
    ck!(m.seg.name.is_empty(), "segment of a relocatable object is named {:?}", m.seg.name);
    ck!(m.seg.filesize <= m.seg.vmsize, "segment filesize {:#x} > vmsize {:#x}", m.seg.filesize, m.seg.vmsize);
    let fend = m.seg.fileoff.saturating_add(m.seg.filesize);
    ck!(fend <= b.len() as u64, "segment ends at {:#x} of a {:#x} byte file", fend, b.len());
    let vend = m.seg.vmaddr.saturating_add(m.seg.vmsize);
    let nsz: u64 = if m.is64 { 16 } else { 12 };
    let mut rg: Vec<(u64, u64, String)> = vec![
        (0, m.cmds_end, "header and load commands".into()),
        (m.symoff, m.symoff + nsz * m.syms.len() as u64, "symbol table".into()),
        (m.stroff, m.stroff + m.strsize, "string table".into()),
    ];
    let mut va = vec![];
    for (i, s) in m.secs.iter().enumerate() {
        let i = i + 1;
        ck!(s.res == [0, 0, 0], "section {} reserved fields {:?}", i, s.res);
        ck!(s.align <= 15, "section {} alignment exponent {}", i, s.align);
        let end = s.addr.checked_add(s.size);
        ck!(
            end.is_some() && s.addr >= m.seg.vmaddr && end.unwrap() <= vend,
            "section {} ({}) {:#x}+{:#x} outside the segment's address range {:#x}..{:#x}",
            i,
            s.sectname,
            s.addr,
            s.size,
            m.seg.vmaddr,
            vend
        );
        if s.size > 0 {
            va.push((s.addr, s.addr.saturating_add(s.size), i));
        }
        if s.zerofill() {
            ck!(s.nreloc == 0, "relocations in zero-fill section {}", i);
        } else {
            ck!(
                s.size == 0 || (s.off >= m.seg.fileoff && s.off + s.size <= fend),
                "section {} ({}) file range {:#x}+{:#x} outside the segment's {:#x}..{:#x}",
                i,
                s.sectname,
                s.off,
                s.size,
                m.seg.fileoff,
                fend
            );
            if s.size > 0 {
                rg.push((s.off, s.off + s.size, format!("section {} ({})", i, s.sectname)));
            }
        }
        if s.nreloc > 0 {
            rg.push((s.reloff, s.reloff + 8 * s.nreloc, format!("relocations of section {}", i)));
        }
        ck!((s.nreloc == 0) == (s.reloff == 0), "section {} reloff {} with {} relocations", i, s.reloff, s.nreloc);
        for r in &s.relocs {
            ck!(r.ext, "relocation in section {} is not external", i);
            ck!((r.sym as usize) < m.syms.len(), "relocation in section {} against symbol {} of {}", i, r.sym, m.syms.len());
            ck!(
                r.addr >= 0 && r.addr as u64 + (1u64 << r.len) <= s.size,
                "relocation in section {} ({}) at {:#x} (length {}) outside its {:#x} bytes",
                i,
                s.sectname,
                r.addr,
                1 << r.len,
                s.size
            );
        }
    }
    rg.retain(|x| x.1 > x.0);
    rg.sort();
    for p in rg.windows(2) {
        ck!(p[0].1 <= p[1].0, "{} overlaps {}: {:#x}..{:#x} / {:#x}..", p[0].2, p[1].2, p[0].0, p[0].1, p[1].0);
    }
    va.sort();
    for p in va.windows(2) {
        ck!(p[0].1 <= p[1].0, "sections {} and {} overlap in the address space", p[0].2, p[1].2);
    }
    if m.strsize > 0 {
        ck!(b[m.stroff as usize] == 0, "string table does not begin with an empty name");
        ck!(b[(m.stroff + m.strsize - 1) as usize] == 0, "string table does not end with NUL");
    }
    for (i, s) in m.syms.iter().enumerate() {
        let t = s.typ & 0xe;
        ck!(s.typ & 0xe0 == 0, "symbol {} is a stab ({:#x})", i, s.typ);
        if t == N_SECT {
            if s.sect == 0 || s.sect as usize > m.secs.len() {
                ck!(false, "symbol {} ({}) in section {} of {}", i, s.name, s.sect, m.secs.len());
            }
        } else {
            ck!(t == 0 && s.sect == 0, "symbol {} ({}) type {:#x} section {}", i, s.name, s.typ, s.sect);
        }
    }
    bad
}
