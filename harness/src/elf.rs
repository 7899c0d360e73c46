//! Independent ELF relocatable-object reader. Knows nothing of faerie or goblin.
#[derive(Clone, Debug)]
pub struct Shdr {
    pub name: String,
    pub typ: u32,
    pub flags: u64,
    pub addr: u64,
    pub off: u64,
    pub size: u64,
    pub link: u32,
    pub info: u32,
    pub align: u64,
    pub ent: u64,
}
#[derive(Clone, Debug)]
pub struct Sym {
    pub name: String,
    pub value: u64,
    pub size: u64,
    pub bind: u8,
    pub typ: u8,
    pub vis: u8,
    /// raw 16-bit field
    pub raw_shndx: u16,
    /// resolved section index (through the extended table)
    pub sec: u32,
    pub xindex: Option<u32>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Rela {
    pub off: u64,
    pub typ: u32,
    pub sym: u32,
    pub addend: i64,
}
#[derive(Clone, Debug)]
pub struct RelaSec {
    pub sec: usize,
    pub target: usize,
    pub relas: Vec<Rela>,
}
#[derive(Clone, Debug)]
pub struct Elf {
    pub is64: bool,
    pub le: bool,
    pub machine: u16,
    pub etype: u16,
    pub shoff: u64,
    pub e_shnum: u16,
    pub e_shstrndx: u16,
    pub raw: RawHdr,
    pub secs: Vec<Shdr>,
    pub symtab: usize,
    pub xsec: Option<usize>,
    pub syms: Vec<Sym>,
    pub rels: Vec<RelaSec>,
}
#[derive(Clone, Debug, Default)]
pub struct RawHdr {
    pub ver: u32,
    pub ident_ver: u8,
    pub entry: u64,
    pub phoff: u64,
    pub flags: u32,
    pub ehsize: u16,
    pub phentsize: u16,
    pub phnum: u16,
    pub shentsize: u16,
}
pub const NOBITS: u32 = 8;
pub const PROGBITS: u32 = 1;
pub const WRITE: u64 = 1;
pub const ALLOC: u64 = 2;
pub const EXEC: u64 = 4;
pub const MERGE: u64 = 0x10;
pub const STRINGS: u64 = 0x20;
pub const INFO_LINK: u64 = 0x40;

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub le: bool,
}
impl<'a> Rd<'a> {
    pub fn get(&self, off: u64, n: usize) -> Result<u64, String> {
        let s = self.slice(off, n as u64)?;
        let mut v = 0u64;
        for i in 0..n {
            let x = if self.le { s[n - 1 - i] } else { s[i] };
            v = v << 8 | x as u64;
        }
        Ok(v)
    }
    pub fn slice(&self, off: u64, n: u64) -> Result<&'a [u8], String> {
        let end = off.checked_add(n).ok_or("offset overflow")?;
        if end > self.b.len() as u64 {
            return Err(format!("range {:#x}..{:#x} outside the file of {:#x} bytes", off, end, self.b.len()));
        }
        Ok(&self.b[off as usize..end as usize])
    }
    pub fn cstr(&self, off: u64, end: u64) -> Result<String, String> {
        let s = self.slice(off, end.checked_sub(off).ok_or("string beyond table")?)?;
        let n = s.iter().position(|x| *x == 0).ok_or("string not NUL-terminated inside its table")?;
        String::from_utf8(s[..n].to_vec()).map_err(|_| "name is not UTF-8".to_string())
    }
}

pub fn parse(b: &[u8]) -> Result<Elf, String> {
    if b.len() < 52 || &b[..4] != b"\x7fELF" {
        return Err("no ELF magic".into());
    }
    let is64 = match b[4] {
        1 => false,
        2 => true,
        x => return Err(format!("bad EI_CLASS {}", x)),
    };
    let le = match b[5] {
        1 => true,
        2 => false,
        x => return Err(format!("bad EI_DATA {}", x)),
    };
    let r = Rd { b, le };
    let w = if is64 { 8 } else { 4 };
    let etype = r.get(16, 2)? as u16;
    let machine = r.get(18, 2)? as u16;
    let ver = r.get(20, 4)? as u32;
    let entry = r.get(24, w)?;
    let phoff = r.get(24 + w as u64, w)?;
    let shoff = r.get(24 + 2 * w as u64, w)?;
    let p = 24 + 3 * w as u64;
    let flags = r.get(p, 4)? as u32;
    let ehsize = r.get(p + 4, 2)? as u16;
    let phentsize = r.get(p + 6, 2)? as u16;
    let phnum = r.get(p + 8, 2)? as u16;
    let shentsize = r.get(p + 10, 2)? as u16;
    let e_shnum = r.get(p + 12, 2)? as u16;
    let e_shstrndx = r.get(p + 14, 2)? as u16;
    let shsz: u64 = if is64 { 64 } else { 40 };
    if shentsize as u64 != shsz {
        return Err(format!("e_shentsize {}", shentsize));
    }
    let rd = |i: u64| -> Result<(u32, Shdr), String> {
        let o = shoff + i * shsz;
        let name = r.get(o, 4)? as u32;
        let typ = r.get(o + 4, 4)? as u32;
        let (flags, addr, off, size, link, info, align, ent);
        if is64 {
            flags = r.get(o + 8, 8)?;
            addr = r.get(o + 16, 8)?;
            off = r.get(o + 24, 8)?;
            size = r.get(o + 32, 8)?;
            link = r.get(o + 40, 4)? as u32;
            info = r.get(o + 44, 4)? as u32;
            align = r.get(o + 48, 8)?;
            ent = r.get(o + 56, 8)?;
        } else {
            flags = r.get(o + 8, 4)?;
            addr = r.get(o + 12, 4)?;
            off = r.get(o + 16, 4)?;
            size = r.get(o + 20, 4)?;
            link = r.get(o + 24, 4)? as u32;
            info = r.get(o + 28, 4)? as u32;
            align = r.get(o + 32, 4)?;
            ent = r.get(o + 36, 4)?;
        }
        Ok((name, Shdr { name: String::new(), typ, flags, addr, off, size, link, info, align, ent }))
    };
    let first = rd(0).map_err(|e| format!("section header table: {}", e))?;
    let shnum = if e_shnum == 0 { first.1.size } else { e_shnum as u64 };
    if shnum == 0 {
        return Err("no sections".into());
    }
    if shoff.checked_add(shnum.checked_mul(shsz).ok_or("shnum")?).ok_or("shnum")? > b.len() as u64 {
        return Err(format!("section header table of {} entries does not fit the file", shnum));
    }
    let mut raw = Vec::with_capacity(shnum as usize);
    for i in 0..shnum {
        raw.push(rd(i)?);
    }
    let strx = if e_shstrndx == 0xffff { first.1.link as usize } else { e_shstrndx as usize };
    let str_hdr = raw.get(strx).ok_or("e_shstrndx out of range")?.1.clone();
    if str_hdr.typ != 3 {
        return Err("e_shstrndx is not a string table".into());
    }
    let mut secs = Vec::with_capacity(raw.len());
    for (i, (n, mut s)) in raw.into_iter().enumerate() {
        s.name = if n as u64 > str_hdr.size {
            return Err(format!("section {} name offset outside the string table", i));
        } else {
            r.cstr(str_hdr.off + n as u64, str_hdr.off + str_hdr.size)
                .map_err(|e| format!("section {} name: {}", i, e))?
        };
        if s.typ != NOBITS && s.typ != 0 {
            r.slice(s.off, s.size).map_err(|e| format!("section {} ({}): {}", i, s.name, e))?;
        }
        secs.push(s);
    }
    let tabs: Vec<usize> = (0..secs.len()).filter(|i| secs[*i].typ == 2).collect();
    if tabs.len() != 1 {
        return Err(format!("{} symbol tables", tabs.len()));
    }
    let symtab = tabs[0];
    let st = secs[symtab].clone();
    let syment: u64 = if is64 { 24 } else { 16 };
    if st.ent != syment || st.size % syment != 0 {
        return Err(format!("symtab entsize {} size {}", st.ent, st.size));
    }
    let nsyms = st.size / syment;
    let xs: Vec<usize> = (0..secs.len()).filter(|i| secs[*i].typ == 18).collect();
    if xs.len() > 1 {
        return Err("several SYMTAB_SHNDX sections".into());
    }
    let xsec = xs.first().copied();
    if let Some(x) = xsec {
        if secs[x].size != nsyms * 4 || secs[x].ent != 4 {
            return Err(format!(
                "SYMTAB_SHNDX size {} entsize {} for {} symbols",
                secs[x].size, secs[x].ent, nsyms
            ));
        }
    }
    let ss = secs.get(st.link as usize).ok_or("symtab sh_link out of range")?.clone();
    if ss.typ != 3 {
        return Err("symtab sh_link is not a string table".into());
    }
    let mut syms = Vec::with_capacity(nsyms as usize);
    for i in 0..nsyms {
        let o = st.off + i * syment;
        let n = r.get(o, 4)?;
        let (info, other, shndx, value, size);
        if is64 {
            info = r.get(o + 4, 1)? as u8;
            other = r.get(o + 5, 1)? as u8;
            shndx = r.get(o + 6, 2)? as u16;
            value = r.get(o + 8, 8)?;
            size = r.get(o + 16, 8)?;
        } else {
            value = r.get(o + 4, 4)?;
            size = r.get(o + 8, 4)?;
            info = r.get(o + 12, 1)? as u8;
            other = r.get(o + 13, 1)? as u8;
            shndx = r.get(o + 14, 2)? as u16;
        }
        if n > ss.size {
            return Err(format!("symbol {} name offset outside the string table", i));
        }
        let name = r.cstr(ss.off + n, ss.off + ss.size).map_err(|e| format!("symbol {}: {}", i, e))?;
        let xindex = match xsec {
            Some(x) => Some(r.get(secs[x].off + i * 4, 4)? as u32),
            None => None,
        };
        let sec = if shndx == 0xffff {
            xindex.ok_or(format!("symbol {} uses SHN_XINDEX without a table", i))?
        } else {
            shndx as u32
        };
        syms.push(Sym {
            name,
            value,
            size,
            bind: info >> 4,
            typ: info & 15,
            vis: other,
            raw_shndx: shndx,
            sec,
            xindex,
        });
    }
    let mut rels = vec![];
    for (i, s) in secs.iter().enumerate() {
        if s.typ == 9 {
            return Err("unexpected SHT_REL section".into());
        }
        if s.typ != 4 {
            continue;
        }
        let ent: u64 = if is64 { 24 } else { 12 };
        if s.ent != ent || s.size % ent != 0 {
            return Err(format!("relocation section {} entsize {} size {}", i, s.ent, s.size));
        }
        let mut v = vec![];
        for k in 0..s.size / ent {
            let o = s.off + k * ent;
            if is64 {
                let info = r.get(o + 8, 8)?;
                // little-endian 64-bit MIPS: four bytes of symbol, then the type's bytes, highest first
                let info = if machine == 8 && le { info << 32 | u64::from(((info >> 32) as u32).swap_bytes()) } else { info };
                v.push(Rela {
                    off: r.get(o, 8)?,
                    sym: (info >> 32) as u32,
                    typ: info as u32,
                    addend: r.get(o + 16, 8)? as i64,
                });
            } else {
                let info = r.get(o + 4, 4)?;
                v.push(Rela {
                    off: r.get(o, 4)?,
                    sym: (info >> 8) as u32,
                    typ: (info & 255) as u32,
                    addend: r.get(o + 8, 4)? as u32 as i32 as i64,
                });
            }
        }
        rels.push(RelaSec { sec: i, target: s.info as usize, relas: v });
    }
    Ok(Elf {
        is64,
        le,
        machine,
        etype,
        shoff,
        e_shnum,
        e_shstrndx,
        raw: RawHdr {
            ver,
            ident_ver: b[6],
            entry,
            phoff,
            flags,
            ehsize,
            phentsize,
            phnum,
            shentsize,
        },
        secs,
        symtab,
        xsec,
        syms,
        rels,
    })
}

/// Structural rules of a relocatable object. Returns everything that is wrong.
pub fn structure(e: &Elf, b: &[u8]) -> Vec<String> {
    let mut bad = vec![];
    macro_rules! ck { ($c:expr, $($a:tt)*) => { if !($c) && bad.len() < 12 { bad.push(format!($($a)*)) } } }
    let w = if e.is64 { 8u64 } else { 4 };
    ck!(e.etype == 1, "e_type {} is not ET_REL", e.etype);
    ck!(e.raw.ver == 1 && e.raw.ident_ver == 1, "bad version");
    ck!(e.raw.ehsize == if e.is64 { 64 } else { 52 }, "e_ehsize {}", e.raw.ehsize);
    ck!(e.raw.phnum == 0 && e.raw.phoff == 0, "relocatable object with program headers");
    ck!(e.raw.entry == 0, "entry point in a relocatable object");
    ck!(e.shoff % w == 0, "section header table not word aligned ({:#x})", e.shoff);
    if e.secs.len() >= 0xff00 {
        ck!(e.e_shnum == 0, "e_shnum {} for {} sections", e.e_shnum, e.secs.len());
    } else {
        ck!(e.e_shnum as usize == e.secs.len(), "e_shnum {} for {} sections", e.e_shnum, e.secs.len());
    }
    let z = &e.secs[0];
    ck!(
        z.typ == 0 && z.flags == 0 && z.addr == 0 && z.off == 0 && z.link == 0 && z.info == 0 && z.align == 0 && z.ent == 0,
        "section 0 is not a null section: {:?}",
        z
    );
    ck!(z.size == if e.e_shnum == 0 { e.secs.len() as u64 } else { 0 }, "null section size {}", z.size);
    // file ranges
    let ehsz = if e.is64 { 64 } else { 52 };
    let shsz = if e.is64 { 64 } else { 40 };
    let mut rg: Vec<(u64, u64, String)> = vec![
        (0, ehsz, "ELF header".into()),
        (e.shoff, e.shoff + e.secs.len() as u64 * shsz, "section headers".into()),
    ];
    for (i, s) in e.secs.iter().enumerate().skip(1) {
        ck!(s.addr == 0, "section {} has an address", i);
        ck!(s.align == 0 || s.align.is_power_of_two(), "section {} alignment {}", i, s.align);
        ck!(s.off <= b.len() as u64, "section {} offset outside the file", i);
        match s.typ {
            1 | 8 => ck!(s.link == 0 && s.info == 0, "section {} has link/info {}/{}", i, s.link, s.info),
            2 | 3 | 4 | 18 => {}
            t => ck!(false, "section {} ({}) has unexpected type {}", i, s.name, t),
        }
        if s.typ != NOBITS && s.typ != 0 && s.size > 0 {
            rg.push((s.off, s.off + s.size, format!("section {} ({})", i, s.name)));
        }
        if s.typ == 3 {
            let t = &b[s.off as usize..(s.off + s.size) as usize];
            ck!(t.first() == Some(&0) && t.last() == Some(&0), "string table {} does not begin and end with NUL", i);
            ck!(s.flags == 0, "string table flags {:#x}", s.flags);
        }
        if s.typ == 2 || s.typ == 4 {
            ck!(s.off % w == 0, "table section {} at unaligned offset {:#x}", i, s.off);
            ck!(s.align == 0 || s.align >= w, "table section {} alignment {}", i, s.align);
        }
        if s.typ == 18 {
            ck!(s.off % 4 == 0, "extended index table at unaligned offset {:#x}", s.off);
            ck!(s.link as usize == e.symtab, "extended index table sh_link {}", s.link);
        }
    }
    rg.sort();
    for p in rg.windows(2) {
        ck!(p[0].1 <= p[1].0, "{} overlaps {}: {:#x}..{:#x} / {:#x}..", p[0].2, p[1].2, p[0].0, p[0].1, p[1].0);
    }
    // symbols
    let st = &e.secs[e.symtab];
    ck!(st.flags == 0, "symtab flags {:#x}", st.flags);
    if let Some(s0) = e.syms.first() {
        ck!(
            s0.name.is_empty() && s0.value == 0 && s0.size == 0 && s0.bind == 0 && s0.typ == 0 && s0.vis == 0 && s0.raw_shndx == 0,
            "symbol 0 is not the null symbol"
        );
    } else {
        ck!(false, "empty symbol table");
    }
    ck!(st.info as usize <= e.syms.len(), "symtab sh_info {} of {}", st.info, e.syms.len());
    for (i, s) in e.syms.iter().enumerate() {
        ck!(s.bind <= 2, "symbol {} ({}) binding {}", i, s.name, s.bind);
        ck!(
            (s.bind == 0) == (i < st.info as usize),
            "symbol {} ({:?}, binding {}) on the wrong side of sh_info {}",
            i,
            s.name,
            s.bind,
            st.info
        );
        ck!(s.vis <= 3, "symbol {} st_other {}", i, s.vis);
        let raw = s.raw_shndx;
        if raw == 0xffff {
            ck!(
                (s.sec as usize) < e.secs.len() && s.sec >= 0xff00,
                "symbol {} extended section index {} of {}",
                i,
                s.sec,
                e.secs.len()
            );
        } else {
            ck!(
                raw == 0 || raw == 0xfff1 || (raw as usize) < e.secs.len().min(0xff00),
                "symbol {} section index {} of {}",
                i,
                raw,
                e.secs.len()
            );
            if let Some(x) = s.xindex {
                ck!(x == 0, "symbol {} has extended index {} without SHN_XINDEX", i, x);
            }
        }
        if raw != 0 && raw != 0xfff1 && (s.sec as usize) < e.secs.len() {
            let sec = &e.secs[s.sec as usize];
            ck!(sec.typ == 1 || sec.typ == 8, "symbol {} is in non-content section {}", i, s.sec);
        }
    }
    // relocations
    let mut seen = std::collections::HashSet::new();
    for r in &e.rels {
        let s = &e.secs[r.sec];
        ck!(s.link as usize == e.symtab, "relocation section {} sh_link {}", r.sec, s.link);
        ck!(s.flags == INFO_LINK, "relocation section {} flags {:#x}", r.sec, s.flags);
        ck!(
            r.target < e.secs.len() && matches!(e.secs[r.target].typ, 1 | 8),
            "relocation section {} applies to section {}",
            r.sec,
            r.target
        );
        ck!(seen.insert(r.target), "two relocation sections for section {}", r.target);
        ck!(!r.relas.is_empty(), "empty relocation section {}", r.sec);
        if r.target < e.secs.len() {
            ck!(
                s.name == format!(".rela{}", e.secs[r.target].name),
                "relocation section for {:?} is named {:?}",
                e.secs[r.target].name,
                s.name
            );
        }
        for x in &r.relas {
            ck!((x.sym as usize) < e.syms.len(), "relocation symbol {} of {}", x.sym, e.syms.len());
            ck!(x.sym != 0, "relocation against the null symbol");
        }
    }
    bad
}
