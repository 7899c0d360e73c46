From e79180a22f397a3ced3dbd790f97d1d128a2623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:06 +0000
Subject: [PATCH 01/17] fix: reserve memory for zero-initialised data in ELF

The .bss section and its symbol had size 0 (the file size of the data), so
zero-initialised objects got no storage, and the section ignored the
requested alignment.
---
 src/artifact.rs | 7 +++++++
 src/elf.rs      | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index d0b9418..f6bf0e9 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -132,6 +132,13 @@ impl Data {
             Data::ZeroInit(_) => 0,
         }
     }
+    /// Return the number of bytes of _memory_ this data will use.
+    pub(crate) fn memory_size(&self) -> usize {
+        match self {
+            Data::Blob(blob) => blob.len(),
+            Data::ZeroInit(size) => *size,
+        }
+    }
     /// Return whether the data has at least one byte defined
     pub fn is_empty(&self) -> bool {
         match self {
diff --git a/src/elf.rs b/src/elf.rs
index 91c8add..2da18aa 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -322,6 +322,7 @@ impl SectionBuilder {
                 shdr.sh_type = SHT_SYMTAB_SHNDX;
             }
             SectionType::NoBits => {
+                shdr.sh_addralign = align;
                 shdr.sh_type = SHT_NOBITS;
                 // .bss is always SHF_WRITE and SHF_ALLOC
                 // TODO: warn users if self.alloc is not set
@@ -502,7 +503,7 @@ impl<'a> Elf<'a> {
     pub fn add_definition(&mut self, def: artifact::Definition<'a>) {
         let name = def.name;
         let decl = def.decl;
-        let def_size = def.data.file_size();
+        let def_size = def.data.memory_size();
 
         let section_name = match (def.data, decl) {
             (Data::Blob(_), DefinedDecl::Function(_)) => format!(".text.{}", name),
-- 
2.43.0


From 83c06bfda2513c0427c4be8a7bf6c3d194b3d961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:09 +0000
Subject: [PATCH 02/17] fix: put weak definitions among the non-local ELF
 symbols

Weak symbols were counted as local ones, so they ended up below the symbol
table's sh_info although their binding is not STB_LOCAL.
---
 src/artifact.rs      | 2 +-
 src/artifact/decl.rs | 9 +++++++++
 src/elf.rs           | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index f6bf0e9..b81551d 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -503,7 +503,7 @@ impl Artifact {
                     }
                 }
 
-                if decl.is_global() {
+                if !decl.is_local() {
                     self.nonlocal_definitions.insert(InternalDefinition {
                         name: decl_name,
                         data,
diff --git a/src/artifact/decl.rs b/src/artifact/decl.rs
index 07c35fa..e6127fd 100644
--- a/src/artifact/decl.rs
+++ b/src/artifact/decl.rs
@@ -212,6 +212,15 @@ impl DefinedDecl {
         }
     }
 
+    /// Accessor to determine whether scope is local, i.e. neither global nor weak
+    pub(crate) fn is_local(&self) -> bool {
+        match self {
+            DefinedDecl::Function(a) => a.get_scope() == Scope::Local,
+            DefinedDecl::Data(a) => a.get_scope() == Scope::Local,
+            DefinedDecl::Section(_) => true,
+        }
+    }
+
     /// Accessor to determine whether contents are writable
     pub fn is_writable(&self) -> bool {
         match self {
diff --git a/src/elf.rs b/src/elf.rs
index 2da18aa..102f156 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -570,7 +570,7 @@ impl<'a> Elf<'a> {
                 // sh_info requires nsections + nlocals to add as delimiter; see the associated FunFact
                 // nonglobals go into the symbol table first (per iteration through definitions in
                 // caller)
-                if !decl.is_global() {
+                if decl.is_local() {
                     self.nlocals += 1;
                 }
             }
-- 
2.43.0


From adec608c6b03069387de719094211d1adba8decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:12 +0000
Subject: [PATCH 03/17] fix: count custom section symbols as local ELF symbols

They are emitted as STB_LOCAL but were not included in the symbol table's
sh_info, which linkers reject.
---
 src/elf.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 102f156..c489ca9 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -590,7 +590,10 @@ impl<'a> Elf<'a> {
                         .value(*symbol_dst_offset)
                         .create();
 
-                    self.symbols.insert(idx, symbol);
+                    // these are local symbols, so they count for the symbol table's delimiter too
+                    if self.symbols.insert(idx, symbol).is_none() {
+                        self.nlocals += 1;
+                    }
                 }
             }
         }
-- 
2.43.0


From e929241e85a5a0f9f0bfc82bb00e52630b9f57e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:15 +0000
Subject: [PATCH 04/17] fix: allow ELF artifacts named like the built-in tables

An artifact called .strtab or .symtab was given a second string table entry
that is never written, and emission failed an assertion.
---
 src/elf.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index c489ca9..ea4a15f 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -442,10 +442,14 @@ impl<'a> Elf<'a> {
                 let name = name.to_owned();
                 let size = name.len() + 1;
                 let idx = strings.get_or_intern(name);
-                let offset = sizeof_strtab;
-                offsets.insert(idx, offset);
-                sizeof_strtab += size;
-                offset
+                match offsets.entry(idx) {
+                    hash_map::Entry::Occupied(entry) => *entry.get(),
+                    hash_map::Entry::Vacant(entry) => {
+                        let offset = sizeof_strtab;
+                        sizeof_strtab += size;
+                        *entry.insert(offset)
+                    }
+                }
             };
 
             push_strtab(".strtab");
-- 
2.43.0


From 661440762cba6846d4e40ab64e03e9264259cafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:18 +0000
Subject: [PATCH 05/17] fix: report the requested format as the unsupported one

emit_as and write_as named the target's default format instead of the one
that was asked for.
---
 src/artifact.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/artifact.rs b/src/artifact.rs
index b81551d..0a452a1 100644
--- a/src/artifact.rs
+++ b/src/artifact.rs
@@ -598,9 +598,7 @@ impl Artifact {
                 BinaryFormat::Elf => elf::to_bytes(self)?,
                 BinaryFormat::Macho => mach::to_bytes(self)?,
                 _ => {
-                    return Err(ArtifactError::UnsupportedBinaryFormat(
-                        self.target.binary_format.to_owned(),
-                    ))
+                    return Err(ArtifactError::UnsupportedBinaryFormat(format))
                 }
             };
             Ok(bytes)
-- 
2.43.0


From a7d67c52d2c6499b19f4721fc47a28cd64e0c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:21 +0000
Subject: [PATCH 06/17] fix: leave SHT_SYMTAB_SHNDX entries zero for ordinary
 indices

The table must hold 0 for every symbol whose st_shndx is not SHN_XINDEX.
---
 src/elf.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index ea4a15f..155bcd5 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -935,7 +935,7 @@ impl<'a> Elf<'a> {
             // so we don't do the shn conversion here
             if need_symtab_shndx {
                 symtab_shndx_data
-                    .gwrite_with(symbol.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(0u32, &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for special symbols");
             }
             file.iowrite_with(symbol, self.ctx)?;
@@ -943,28 +943,34 @@ impl<'a> Elf<'a> {
         for (_id, section) in self.sections.into_iter() {
             debug!("Section Symbol: {:?}", section.symbol);
             let mut sym = section.symbol.clone();
+            // only symbols marked with SHN_XINDEX have an extended section index
+            let mut extended_shndx = 0;
+            if sym.st_shndx >= SHN_LORESERVE as usize {
+                extended_shndx = sym.st_shndx as u32;
+                sym.st_shndx = SHN_XINDEX as usize;
+            }
             if need_symtab_shndx {
                 symtab_shndx_data
-                    .gwrite_with(sym.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(extended_shndx, &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for sections");
             }
-            if sym.st_shndx >= SHN_LORESERVE as usize {
-                sym.st_shndx = SHN_XINDEX as usize;
-            }
             file.iowrite_with(sym, self.ctx)?;
             section_headers.push(section.header);
         }
         for (_id, symbol) in self.symbols.into_iter() {
             debug!("Symbol: {:?}", symbol);
             let mut sym = symbol.clone();
+            // only symbols marked with SHN_XINDEX have an extended section index
+            let mut extended_shndx = 0;
+            if sym.st_shndx >= SHN_LORESERVE as usize {
+                extended_shndx = sym.st_shndx as u32;
+                sym.st_shndx = SHN_XINDEX as usize;
+            }
             if need_symtab_shndx {
                 symtab_shndx_data
-                    .gwrite_with(sym.st_shndx as u32, &mut offset, self.ctx.le)
+                    .gwrite_with(extended_shndx, &mut offset, self.ctx.le)
                     .expect("preallocated shndx vector has enough space for symbols");
             }
-            if sym.st_shndx >= SHN_LORESERVE as usize {
-                sym.st_shndx = SHN_XINDEX as usize;
-            }
             file.iowrite_with(sym, self.ctx)?;
         }
         if need_symtab_shndx {
-- 
2.43.0


From 81c49c94730fae4aee0b4b5b3cfa1a25cb49787b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:35 +0000
Subject: [PATCH 07/17] fix: keep ELF sections of the same name apart

Sections were keyed by name, so a custom section called .text.f replaced the
section of function f (or the other way round), which failed an assertion or
mixed up their contents. ELF allows sections with equal names; identify them
by index.
---
 src/elf.rs | 60 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 155bcd5..4b5474b 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -394,12 +394,14 @@ impl RelocationBuilder {
 /// An intermediate ELF object file container
 struct Elf<'a> {
     name: &'a str,
-    code: IndexMap<StringIndex, &'a [u8]>,
+    code: Vec<&'a [u8]>,
     relocations: IndexMap<StringIndex, (Section, Vec<Relocation>)>,
     symbols: IndexMap<StringIndex, Symbol>,
     special_symbols: Vec<Symbol>,
     imports: HashMap<StringIndex, ImportKind>,
-    sections: IndexMap<StringIndex, SectionInfo>,
+    sections: Vec<SectionInfo>,
+    // where to find the section of each custom section declaration in `sections`
+    custom_sections: HashMap<StringIndex, usize>,
     offsets: HashMap<StringIndex, Offset>,
     sizeof_strtab: Offset,
     strings: StringInterner<StringIndex>,
@@ -467,12 +469,13 @@ impl<'a> Elf<'a> {
         let sizeof_bits = Header::size(ctx);
         Elf {
             name: &artifact.name,
-            code: IndexMap::new(),
+            code: Vec::new(),
             relocations: IndexMap::new(),
             imports: HashMap::new(),
             symbols: IndexMap::new(),
             special_symbols,
-            sections: IndexMap::new(),
+            sections: Vec::new(),
+            custom_sections: HashMap::new(),
             nsections: 4,
             offsets,
             strings,
@@ -553,7 +556,7 @@ impl<'a> Elf<'a> {
 
         let shndx = match def.data {
             Data::Blob(bytes) => self.add_progbits(section_name, section, bytes),
-            Data::ZeroInit(_) => self.add_section(section_name, section).1,
+            Data::ZeroInit(_) => self.add_section(section_name, section),
         };
 
         match decl {
@@ -579,6 +582,9 @@ impl<'a> Elf<'a> {
                 }
             }
             DefinedDecl::Section(_) => {
+                let idx = self.strings.get_or_intern(name);
+                // The section index is after null + strtab + symtab.
+                self.custom_sections.insert(idx, shndx - 3);
                 for (symbol, symbol_dst_offset) in def.symbols {
                     // TODO: can we move the string instead of cloning?
                     let (idx, offset) = self.new_string(symbol.clone());
@@ -604,15 +610,16 @@ impl<'a> Elf<'a> {
     }
     /// Create a progbits section (and its section symbol), and return the section index.
     fn add_progbits(&mut self, name: String, section: SectionBuilder, data: &'a [u8]) -> usize {
-        let (idx, shndx) = self.add_section(name, section);
+        let shndx = self.add_section(name, section);
         // increment the size
         self.sizeof_bits += data.len();
 
-        self.code.insert(idx, data);
+        self.code.push(data);
         shndx
     }
-    /// Create a section (and its section symbol) and return the symbol and section indexes
-    fn add_section(&mut self, name: String, section: SectionBuilder) -> (usize, usize) {
+    /// Create a section (and its section symbol) and return the section index. Section names need
+    /// not be unique, so sections are only ever identified by their index.
+    fn add_section(&mut self, name: String, section: SectionBuilder) -> usize {
         let (idx, offset) = self.new_string(name);
         debug!(
             "idx: {:?} @ {:#x} - new strtab offset: {:#x}",
@@ -628,16 +635,13 @@ impl<'a> Elf<'a> {
         let mut section = section.name_offset(offset).create(&self.ctx);
         // the offset is the head of how many program bits we've added
         section.sh_offset = self.sizeof_bits as u64;
-        self.sections.insert(
-            idx,
-            SectionInfo {
-                header: section,
-                symbol: section_symbol,
-                name: idx,
-            },
-        );
+        self.sections.push(SectionInfo {
+            header: section,
+            symbol: section_symbol,
+            name: idx,
+        });
         self.nsections += 1;
-        (idx, shndx)
+        shndx
     }
     pub fn import(&mut self, import: String, kind: &ImportKind) {
         let (idx, offset) = self.new_string(import);
@@ -652,9 +656,9 @@ impl<'a> Elf<'a> {
         let (to_idx, to_shndx) = {
             let to_idx = self.strings.get_or_intern(l.to.name);
             if l.to.decl.is_section() {
-                let (to_idx, _, _) = self
-                    .sections
-                    .get_full(&to_idx)
+                let to_idx = *self
+                    .custom_sections
+                    .get(&to_idx)
                     .expect("to_idx present in sections");
                 // Section symbols come after special symbols.
                 // The section index is after null + strtab + symtab.
@@ -674,9 +678,9 @@ impl<'a> Elf<'a> {
         let (from_idx, from_shndx) = {
             let from_idx = self.strings.get_or_intern(l.from.name);
             if l.from.decl.is_section() {
-                let (from_idx, _, _) = self
-                    .sections
-                    .get_full(&from_idx)
+                let from_idx = *self
+                    .custom_sections
+                    .get(&from_idx)
                     .expect("from_idx present in sections");
                 // Section symbols come after special symbols.
                 // The section index is after null + strtab + symtab.
@@ -759,9 +763,9 @@ impl<'a> Elf<'a> {
             debug!("{} does NOT have relocs", relocee);
             // now create the relocation section
             let reloc_name = {
-                let (_, section) = self
+                let section = self
                     .sections
-                    .get_index(shndx - 3)
+                    .get(shndx - 3)
                     .expect("shndx present in sections");
                 let section_name = self
                     .strings
@@ -863,7 +867,7 @@ impl<'a> Elf<'a> {
         // Code
         /////////////////////////////////////
 
-        for (_idx, bytes) in self.code.drain(..) {
+        for bytes in self.code.drain(..) {
             file.write_all(bytes)?;
         }
         let after_code = file.seek(Current(0))?;
@@ -940,7 +944,7 @@ impl<'a> Elf<'a> {
             }
             file.iowrite_with(symbol, self.ctx)?;
         }
-        for (_id, section) in self.sections.into_iter() {
+        for section in self.sections.into_iter() {
             debug!("Section Symbol: {:?}", section.symbol);
             let mut sym = section.symbol.clone();
             // only symbols marked with SHN_XINDEX have an extended section index
-- 
2.43.0


From 31b3213dea7d3dbe5c17844253a17a463e5b4335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:38 +0000
Subject: [PATCH 08/17] fix: emit 32-bit objects for 16-bit targets

MSP430 object files are ELFCLASS32; they were emitted as 64-bit objects.
---
 src/target.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/target.rs b/src/target.rs
index 9a045e0..423e1fa 100644
--- a/src/target.rs
+++ b/src/target.rs
@@ -6,8 +6,9 @@ use target_lexicon::{Endianness, PointerWidth, Triple};
 
 pub fn make_ctx(target: &Triple) -> Ctx {
     let container_size = match target.pointer_width() {
-        Err(()) | Ok(PointerWidth::U16) => return Ctx::default(),
-        Ok(PointerWidth::U32) => container::Container::Little,
+        Err(()) => return Ctx::default(),
+        // there are no 16-bit containers, such targets use the 32-bit one
+        Ok(PointerWidth::U16) | Ok(PointerWidth::U32) => container::Container::Little,
         Ok(PointerWidth::U64) => container::Container::Big,
     };
     let endianness = match target.endianness() {
-- 
2.43.0


From f9d6a58ae750840a2ab11e744cce09e01e4beca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:15 +0000
Subject: [PATCH 09/17] fix: record Mach-O relocations in the section of their
 source

Absolute relocations always went to __data and all others to __text, with an
offset relative to the source's real section, so links from C strings and raw
relocations patched some other object.
---
 src/mach.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index d23809c..5fc4078 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -362,6 +362,13 @@ impl SymbolTable {
             .and_then(|idx| self.symbols.get(&idx))
             .and_then(|sym| Some(sym.get_segment_relative_offset()))
     }
+    /// Lookup the section this symbol is defined in
+    pub fn section(&self, symbol_name: &str) -> Option<SectionIndex> {
+        self.strtable
+            .get(symbol_name)
+            .and_then(|idx| self.symbols.get(&idx))
+            .and_then(|sym| sym.section)
+    }
     /// Lookup this symbols ordinal index in the symbol table, if it has one
     pub fn index(&self, symbol_name: &str) -> Option<SymbolIndex> {
         self.strtable
@@ -946,8 +953,6 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
         R_ABS, X86_64_RELOC_BRANCH, X86_64_RELOC_GOT_LOAD, X86_64_RELOC_SIGNED,
         X86_64_RELOC_UNSIGNED,
     };
-    let text_idx = segment.sections.get_full("__text").unwrap().0;
-    let data_idx = segment.sections.get_full("__data").unwrap().0;
     debug!("Generating relocations");
     for link in artifact.links() {
         debug!(
@@ -1021,17 +1026,13 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 continue;
             }
         };
-        match (symtab.offset(link.from.name), symtab.index(link.to.name)) {
-            (Some(base_offset), Some(to_symbol_index)) => {
+        match (symtab.offset(link.from.name), symtab.section(link.from.name), symtab.index(link.to.name)) {
+            (Some(base_offset), Some(section_index), Some(to_symbol_index)) => {
                 debug!("{} offset: {}", link.to.name, base_offset + link.at);
                 let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, reloc);
-                // NB: we currently associate absolute relocations with data relocations; this may prove
-                // too fragile for future additions; needs analysis
-                if absolute {
-                    segment.sections.get_index_mut(data_idx).unwrap().1.relocations.push(builder.absolute().create());
-                } else {
-                    segment.sections.get_index_mut(text_idx).unwrap().1.relocations.push(builder.create());
-                }
+                let builder = if absolute { builder.absolute() } else { builder };
+                // the offset is relative to the section that contains `from`
+                segment.sections.get_index_mut(section_index).unwrap().1.relocations.push(builder.create());
             },
             _ => error!("Import Relocation from {} to {} at {:#x} has a missing symbol. Dumping symtab {:?}", link.from.name, link.to.name, link.at, symtab)
         }
-- 
2.43.0


From af5b8f5f1b9382a0c159ffc3f31e1e7b904fbb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:18 +0000
Subject: [PATCH 10/17] fix: emit weak and hidden Mach-O definitions as such

Weak definitions became private to the object instead of weak external ones,
and hidden visibility was ignored.
---
 src/artifact/decl.rs | 18 ++++++++++++++++++
 src/mach.rs          | 33 ++++++++++++++++++++++++++++++---
 2 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/artifact/decl.rs b/src/artifact/decl.rs
index e6127fd..1e2503b 100644
--- a/src/artifact/decl.rs
+++ b/src/artifact/decl.rs
@@ -221,6 +221,24 @@ impl DefinedDecl {
         }
     }
 
+    /// Accessor to determine whether scope is weak
+    pub(crate) fn is_weak(&self) -> bool {
+        match self {
+            DefinedDecl::Function(a) => a.get_scope() == Scope::Weak,
+            DefinedDecl::Data(a) => a.get_scope() == Scope::Weak,
+            DefinedDecl::Section(_) => false,
+        }
+    }
+
+    /// Accessor to determine whether visibility is hidden
+    pub(crate) fn is_hidden(&self) -> bool {
+        match self {
+            DefinedDecl::Function(a) => a.get_visibility() == Visibility::Hidden,
+            DefinedDecl::Data(a) => a.get_visibility() == Visibility::Hidden,
+            DefinedDecl::Section(_) => false,
+        }
+    }
+
     /// Accessor to determine whether contents are writable
     pub fn is_writable(&self) -> bool {
         match self {
diff --git a/src/mach.rs b/src/mach.rs
index 5fc4078..4250740 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -71,6 +71,8 @@ struct SymbolBuilder {
     name: StrtableOffset,
     section: Option<SectionIndex>,
     global: bool,
+    weak: bool,
+    private: bool,
     import: bool,
     offset: u64,
     segment_relative_offset: u64,
@@ -83,6 +85,8 @@ impl SymbolBuilder {
             name,
             section: None,
             global: false,
+            weak: false,
+            private: false,
             import: false,
             offset: 0,
             segment_relative_offset: 0,
@@ -98,6 +102,16 @@ impl SymbolBuilder {
         self.global = global;
         self
     }
+    /// Is this symbol a weak definition?
+    pub fn weak(mut self, weak: bool) -> Self {
+        self.weak = weak;
+        self
+    }
+    /// Is this symbol private to the linked image, although not to this object?
+    pub fn private(mut self, private: bool) -> Self {
+        self.private = private;
+        self
+    }
     pub fn offset(mut self, offset: u64) -> Self {
         self.offset = offset;
         self
@@ -118,17 +132,20 @@ impl SymbolBuilder {
     }
     /// Finalize and create the symbol
     pub fn create(self) -> Nlist {
-        use goblin::mach::symbols::{NO_SECT, N_EXT, N_SECT, N_UNDF};
+        use goblin::mach::symbols::{NO_SECT, N_EXT, N_PEXT, N_SECT, N_UNDF, N_WEAK_DEF};
         let n_strx = self.name;
         let mut n_sect = 0;
         let mut n_type = N_UNDF;
         let mut n_value = self.offset;
-        let n_desc = 0;
+        let n_desc = if self.weak { N_WEAK_DEF } else { 0 };
         if self.global {
             n_type |= N_EXT;
         } else {
             n_type &= !N_EXT;
         }
+        if self.private {
+            n_type |= N_PEXT;
+        }
         if let Some(idx) = self.section {
             n_sect = idx + 1; // add 1 because n_sect expects ordinal
             n_type |= N_SECT;
@@ -329,6 +346,8 @@ enum SymbolType {
         absolute_offset: u64,
         segment_relative_offset: u64,
         global: bool,
+        weak: bool,
+        private: bool,
     },
     /// An undefined symbol (an import)
     Undefined,
@@ -400,9 +419,13 @@ impl SymbolTable {
                     section,
                     absolute_offset,
                     global,
+                    weak,
+                    private,
                     segment_relative_offset,
                 } => SymbolBuilder::new(self.strtable_size)
                     .global(global)
+                    .weak(weak)
+                    .private(private)
                     .offset(absolute_offset)
                     .relative_offset(segment_relative_offset)
                     .section(section),
@@ -472,7 +495,9 @@ impl SegmentBuilder {
                     section,
                     segment_relative_offset: section_relative_offset,
                     absolute_offset: *symbol_offset,
-                    global: def.decl.is_global(),
+                    global: !def.decl.is_local(),
+                    weak: def.decl.is_weak(),
+                    private: !def.decl.is_local() && def.decl.is_hidden(),
                 },
             );
             *symbol_offset += def.data.file_size() as u64;
@@ -552,6 +577,8 @@ impl SegmentBuilder {
                     segment_relative_offset: *symbol_dst_offset,
                     absolute_offset: *symbol_offset + *symbol_dst_offset,
                     global: true,
+                    weak: false,
+                    private: false,
                 },
             );
         }
-- 
2.43.0


From 28ebe600d9c9e60e56b7ab17b72445847d992972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 11/17] fix: keep writable strings out of the Mach-O __cstring
 section

__TEXT,__cstring is mapped read-only and its contents may be coalesced, so
writing to string data declared writable would fault.
---
 src/mach.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mach.rs b/src/mach.rs
index 4250740..eab233f 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -733,7 +733,8 @@ impl<'a> Mach<'a> {
                     if let Data::ZeroInit(size) = def.data {
                         bss.push(def);
                         bss_size += size;
-                    } else if d.get_datatype() == DataType::String {
+                    } else if d.get_datatype() == DataType::String && !d.is_writable() {
+                        // __cstring is read-only and its strings may be merged
                         cstrings.push(def);
                     } else {
                         data.push(def);
-- 
2.43.0


From ddede273ce7b0a3abcf588d3edb0e4b11b1a5346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:24 +0000
Subject: [PATCH 12/17] fix: reserve address space for Mach-O zero-initialised
 data

The __bss section had size 0 and all its symbols the same address, so
zero-initialised objects overlapped each other and whatever follows.
---
 src/mach.rs | 53 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index eab233f..4b0ca4f 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -17,7 +17,7 @@ use target_lexicon::Architecture;
 
 use goblin::mach::constants::{
     S_ATTR_DEBUG, S_ATTR_PURE_INSTRUCTIONS, S_ATTR_SOME_INSTRUCTIONS, S_CSTRING_LITERALS,
-    S_REGULAR, S_ZEROFILL,
+    SECTION_TYPE, S_REGULAR, S_ZEROFILL,
 };
 use goblin::mach::cputype;
 use goblin::mach::header::{Header, MH_OBJECT, MH_SUBSECTIONS_VIA_SYMBOLS};
@@ -297,8 +297,13 @@ impl SectionBuilder {
             nreloc: 0,
             flags: self.flags,
         };
-        section.offset = *section_offset as u32;
-        *section_offset += section.size;
+        // zero-fill sections occupy no space in the file
+        if self.flags & SECTION_TYPE == S_ZEROFILL {
+            section.offset = 0;
+        } else {
+            section.offset = *section_offset as u32;
+            *section_offset += section.size;
+        }
         if !self.relocations.is_empty() {
             let nrelocs = self.relocations.len();
             section.nreloc = nrelocs as _;
@@ -448,14 +453,19 @@ struct SegmentBuilder {
     /// A stupid offset value I need to refactor out
     pub offset: u64,
     size: u64,
+    vm_size: u64,
     align_pad_map: HashMap<String, u64>,
 }
 
 impl SegmentBuilder {
-    /// The size of this segment's _data_, in bytes
+    /// The size of this segment's _data_ in the file, in bytes
     pub fn size(&self) -> u64 {
         self.size
     }
+    /// The size of this segment's _data_ in memory, in bytes
+    pub fn vm_size(&self) -> u64 {
+        self.vm_size
+    }
     /// The size of this segment's _load command_, including its associated sections, in bytes
     pub fn load_command_size(&self, ctx: &Ctx) -> u64 {
         Segment::size_with(&ctx) as u64
@@ -500,9 +510,9 @@ impl SegmentBuilder {
                     private: !def.decl.is_local() && def.decl.is_hidden(),
                 },
             );
-            *symbol_offset += def.data.file_size() as u64;
-            section_relative_offset += def.data.file_size() as u64;
-            local_size += def.data.file_size() as u64;
+            *symbol_offset += def.data.memory_size() as u64;
+            section_relative_offset += def.data.memory_size() as u64;
+            local_size += def.data.memory_size() as u64;
 
             let next_def_alignment_exponent = std::cmp::max(
                 min_alignment_exponent,
@@ -533,7 +543,9 @@ impl SegmentBuilder {
         if let Some(flags) = flags {
             section = section.flags(flags);
         }
-        *offset += local_size;
+        if section.flags & SECTION_TYPE != S_ZEROFILL {
+            *offset += local_size;
+        }
         *addr += local_size;
         sections.insert(sectname.to_string(), section);
     }
@@ -607,7 +619,8 @@ impl SegmentBuilder {
         ctx: &Ctx,
     ) -> Self {
         let mut offset = Header::size_with(&ctx.container) as u64;
-        let mut size = 0;
+        let header_size = offset;
+        let mut vm_size = 0;
         let mut symbol_offset = 0;
         let mut sections = IndexMap::new();
         let mut align_pad_map = HashMap::new();
@@ -618,7 +631,7 @@ impl SegmentBuilder {
             "__TEXT",
             &mut sections,
             &mut offset,
-            &mut size,
+            &mut vm_size,
             &mut symbol_offset,
             CODE_SECTION_INDEX,
             &code,
@@ -632,7 +645,7 @@ impl SegmentBuilder {
             "__DATA",
             &mut sections,
             &mut offset,
-            &mut size,
+            &mut vm_size,
             &mut symbol_offset,
             DATA_SECTION_INDEX,
             &blob_data,
@@ -646,7 +659,7 @@ impl SegmentBuilder {
             "__TEXT",
             &mut sections,
             &mut offset,
-            &mut size,
+            &mut vm_size,
             &mut symbol_offset,
             CSTRING_SECTION_INDEX,
             &cstrings,
@@ -660,7 +673,7 @@ impl SegmentBuilder {
             "__DATA",
             &mut sections,
             &mut offset,
-            &mut size,
+            &mut vm_size,
             &mut symbol_offset,
             BSS_SECTION_INDEX,
             &zeroed_data,
@@ -673,7 +686,7 @@ impl SegmentBuilder {
                 symtab,
                 &mut sections,
                 &mut offset,
-                &mut size,
+                &mut vm_size,
                 &mut symbol_offset,
                 idx + NUM_DEFAULT_SECTIONS,
                 def,
@@ -684,12 +697,14 @@ impl SegmentBuilder {
         }
         // FIXME re add assert
         //assert_eq!(offset, Header::size_with(&ctx.container) + Self::load_command_size(ctx));
+        let size = offset - header_size;
         debug!(
             "Segment Size: {} Symtable LoadCommand Offset: {}",
             size, offset
         );
         SegmentBuilder {
             size,
+            vm_size,
             sections,
             offset,
             align_pad_map,
@@ -706,7 +721,6 @@ struct Mach<'a> {
     segment: SegmentBuilder,
     code: ArtifactCode<'a>,
     data: ArtifactData<'a>,
-    bss_size: usize,
     cstrings: Vec<Definition<'a>>,
     sections: Vec<Definition<'a>>,
     _p: ::std::marker::PhantomData<&'a ()>,
@@ -716,13 +730,12 @@ impl<'a> Mach<'a> {
     pub fn new(artifact: &'a Artifact) -> Self {
         let ctx = make_ctx(&artifact.target);
         // FIXME: I believe we can avoid this partition by refactoring SegmentBuilder::new
-        let (mut code, mut data, mut bss, mut cstrings, mut sections, mut bss_size) = (
+        let (mut code, mut data, mut bss, mut cstrings, mut sections) = (
             Vec::new(),
             Vec::new(),
             Vec::new(),
             Vec::new(),
             Vec::new(),
-            0,
         );
         for def in artifact.definitions() {
             match def.decl {
@@ -730,9 +743,8 @@ impl<'a> Mach<'a> {
                     code.push(def);
                 }
                 DefinedDecl::Data(d) => {
-                    if let Data::ZeroInit(size) = def.data {
+                    if def.data.is_zero_init() {
                         bss.push(def);
-                        bss_size += size;
                     } else if d.get_datatype() == DataType::String && !d.is_writable() {
                         // __cstring is read-only and its strings may be merged
                         cstrings.push(def);
@@ -767,7 +779,6 @@ impl<'a> Mach<'a> {
             _p: ::std::marker::PhantomData::default(),
             code,
             data,
-            bss_size,
             cstrings,
             sections,
         }
@@ -824,7 +835,7 @@ impl<'a> Mach<'a> {
         segment_load_command.maxprot = 7;
         segment_load_command.filesize = self.segment.size();
         // segment size, with __bss data sizes added
-        segment_load_command.vmsize = segment_load_command.filesize + self.bss_size as u64;
+        segment_load_command.vmsize = self.segment.vm_size();
         segment_load_command.fileoff = first_section_offset;
         debug!("Segment: {:#?}", segment_load_command);
 
-- 
2.43.0


From 37ad66ff97fa431b3e970694addbbd2c98127011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:27 +0000
Subject: [PATCH 13/17] fix: honour the alignment of every Mach-O definition

The alignment of the first definition of a section was ignored, and sections
started wherever the previous one ended, so neither symbols nor sections were
aligned as their section headers claim.
---
 src/mach.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 4b0ca4f..9808f07 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -56,6 +56,12 @@ fn align_to_align_exp(align: u64) -> u64 {
     align_exp
 }
 
+/// Round `addr` up to the next multiple of 2^`align_exp`
+fn align_address(addr: &mut u64, align_exp: u64) {
+    let mask = (1 << align_exp) - 1;
+    *addr = (*addr + mask) & !mask;
+}
+
 type SectionIndex = usize;
 type StrtableOffset = u64;
 
@@ -492,7 +498,13 @@ impl SegmentBuilder {
     ) {
         let mut local_size = 0;
         let mut section_relative_offset = 0;
-        let mut alignment_exponent = min_alignment_exponent;
+        // every definition counts, including the first one
+        let alignment_exponent = definitions
+            .iter()
+            .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))
+            .fold(min_alignment_exponent, std::cmp::max);
+        align_address(addr, alignment_exponent);
+        *symbol_offset = *addr;
         let mut def_iter = definitions.iter().peekable();
         while let Some(def) = def_iter.next() {
             if let DefinedDecl::Section { .. } = def.decl {
@@ -521,7 +533,6 @@ impl SegmentBuilder {
                     .map(|def| align_to_align_exp(def.decl.get_align().unwrap_or(1)))
                     .unwrap_or(0),
             );
-            alignment_exponent = std::cmp::max(alignment_exponent, next_def_alignment_exponent);
 
             let align_pad = (1 << next_def_alignment_exponent)
                 - (section_relative_offset % (1 << next_def_alignment_exponent));
@@ -575,6 +586,10 @@ impl SegmentBuilder {
             def.name.to_string()
         };
 
+        let alignment_exponent = align_to_align_exp(s.get_align().unwrap_or(1));
+        align_address(addr, alignment_exponent);
+        *symbol_offset = *addr;
+
         let mut flags = 0;
 
         if s.kind() == SectionKind::Debug {
@@ -600,7 +615,7 @@ impl SegmentBuilder {
         let section = SectionBuilder::new(sectname, segment_name, local_size)
             .offset(*offset)
             .addr(*addr)
-            .align(align_to_align_exp(s.get_align().unwrap_or(1)))
+            .align(alignment_exponent)
             .flags(flags);
         *offset += local_size;
         *addr += local_size;
-- 
2.43.0


From 69adf6f2a10f3b05ebb70bf17a912a2eb8d2a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:10 +0000
Subject: [PATCH 14/17] fix: pad aligned Mach-O C strings with NULs

Linkers split __TEXT,__cstring after each NUL. The 0xaa padding became the
beginning of the next string, so that its symbol pointed into the middle of
a string and lost its alignment in the linked program.
---
 src/mach.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index 9808f07..a60ace2 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -933,8 +933,9 @@ impl<'a> Mach<'a> {
 
             if let Some(&align_pad) = self.segment.align_pad_map.get(cstring.name) {
                 for _ in 0..align_pad {
-                    // See comment above for explanation of 0xaa
-                    file.write_all(&[0xaa])?;
+                    // Linkers split this section into strings after each NUL. Any other padding
+                    // would become the beginning of the next string, which then isn't aligned.
+                    file.write_all(&[0])?;
                 }
             }
         }
-- 
2.43.0


From ea9551f3e84df2ddb3aabe6ecba78bee63cc7f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:06 +0000
Subject: [PATCH 15/17] fix: write the relocations of little-endian 64-bit MIPS
 objects in that target's layout

r_info is not a single little-endian number there; readers took every symbol
for a relocation type and the other way round.
---
 src/elf.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 4b5474b..bdfdadd 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1008,14 +1008,25 @@ impl<'a> Elf<'a> {
         /////////////////////////////////////
         // Relocations
         /////////////////////////////////////
+        let mips64el = match self.architecture {
+            Architecture::Mips64(_) => self.ctx.is_big() && self.ctx.is_little_endian(),
+            _ => false,
+        };
         file.seek(Start(reloc_offset))?;
         let mut roffset = reloc_offset;
         for (_, (mut section, mut relocations)) in self.relocations.into_iter() {
             section.sh_offset = roffset;
             roffset += section.sh_size;
             section_headers.push(section);
-            for relocation in relocations.drain(..) {
+            for mut relocation in relocations.drain(..) {
                 debug!("Relocation: {:?}", relocation);
+                if mips64el {
+                    // r_info isn't one little-endian number there: the symbol comes first, and the
+                    // bytes of the type follow in the same order as in a big-endian file.
+                    let typ = relocation.r_type.swap_bytes();
+                    relocation.r_type = relocation.r_sym as u32;
+                    relocation.r_sym = typ as usize;
+                }
                 file.iowrite_with(relocation, (relocation.r_addend.is_some(), self.ctx))?;
             }
         }
-- 
2.43.0


From e0c04604dc2469a473fbc519a2137359b5d6f327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:07 +0000
Subject: [PATCH 16/17] fix: write a Mach-O symbol also for the empty name

---
 src/mach.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mach.rs b/src/mach.rs
index a60ace2..026f0c3 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -367,8 +367,8 @@ enum SymbolType {
 impl SymbolTable {
     /// Create a new symbol table. The first strtable entry (like ELF) is always nothing
     pub fn new() -> Self {
-        let mut strtable = StrTable::new();
-        strtable.get_or_intern("");
+        // that entry has no underscore, so it isn't the one of a symbol with the empty name
+        let strtable = StrTable::new();
         let strtable_size = 1;
         SymbolTable {
             symbols: Symbols::new(),
@@ -975,7 +975,7 @@ impl<'a> Mach<'a> {
         //////////////////////////////
         // we need to write first, empty element - but without an underscore
         file.iowrite(0u8)?;
-        for (idx, string) in self.symtab.strtable.into_iter().skip(1) {
+        for (idx, string) in self.symtab.strtable.into_iter() {
             debug!("{}: {:?}", idx, string);
             // yup, an underscore
             file.iowrite(0x5fu8)?;
-- 
2.43.0


From d449b8dd5e732d6be8f708990fda7d725b1b19a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:36 +0000
Subject: [PATCH 17/17] fix: write Mach-O relocations for raw links from custom
 sections

---
 src/mach.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mach.rs b/src/mach.rs
index 026f0c3..7ef90a1 100644
--- a/src/mach.rs
+++ b/src/mach.rs
@@ -1081,7 +1081,13 @@ fn build_relocations(segment: &mut SegmentBuilder, artifact: &Artifact, symtab:
                 continue;
             }
         };
-        match (symtab.offset(link.from.name), symtab.section(link.from.name), symtab.index(link.to.name)) {
+        let (base_offset, section_index) = if link.from.decl.is_section() {
+            // a custom section has no symbol, but it begins where it begins
+            (Some(0), segment.sections.get_full(link.from.name).map(|(index, _, _)| index))
+        } else {
+            (symtab.offset(link.from.name), symtab.section(link.from.name))
+        };
+        match (base_offset, section_index, symtab.index(link.to.name)) {
             (Some(base_offset), Some(section_index), Some(to_symbol_index)) => {
                 debug!("{} offset: {}", link.to.name, base_offset + link.at);
                 let builder = RelocationBuilder::new(to_symbol_index, base_offset + link.at, reloc);
-- 
2.43.0

