#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording has one home)."""
import json, os
A, D, E, M, T, L = "src/artifact.rs", "src/artifact/decl.rs", "src/elf.rs", "src/mach.rs", "src/target.rs", "src/lib.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, state=state or [],
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "Redeclarations merge exactly by the documented rules",
  "For every sequence of declarations of a name, each call is accepted or rejected exactly as the documented rule says: an identical redeclaration is a no-op, an import is upgraded by a function/data declaration of the matching kind and stays upgraded, a defined function/data declaration absorbs a later matching import, and anything else is rejected as an incompatible declaration carrying the old and the new declaration. The merged declaration (not the first or last one mentioned) is the one that governs what may be defined and what is emitted for that name.",
  ["histories"], "all finite sequences of declare / declarations / declare_with / import calls over any names, with any attributes (scope, visibility, writability, datatype, alignment, section kind), interleaved with definitions",
  "Tests try about five hand-picked sequences on two names; the rule is a state machine over (old,new) pairs of several hundred attribute combinations and any history length.",
  [A, D], [("Decl::absorb", D), ("Artifact::declare", A)], ["return value of declare/declarations/import/declare_with", "imports()", "undefined_symbols()", "emitted symbol attributes"],
  [dict(name="declarations", meaning="name -> merged declaration and defined flag", where=A)])
p("C02", "The import list is exactly the names still declared as imports",
  "After every call, the listed imports are exactly the names whose current merged declaration is an import, each listed once with its kind (function or data); a name upgraded to a definition disappears and the other entries are unaffected. Emitted objects contain an undefined external symbol for exactly these names.",
  ["histories"], "all histories of declarations, imports, upgrades and rejected calls over any number of names",
  "Tests check list lengths 1 and 2 after three short sequences; index bookkeeping on removal depends on how many imports there are and where the upgraded one sits.",
  [A, E, M], [("imports vector maintenance in declare", A), ("Elf::import", E), ("SymbolTable::insert Undefined", M)], ["imports()", "undefined symbols of emitted objects"],
  [dict(name="imports", meaning="vector of (name, kind)", where=A)])
p("C03", "A declared name is definable exactly once and only legally",
  "A definition is accepted if and only if the name is currently declared as a function, data object or section, has not been defined before, zero-initialised contents are used only for data objects, and custom symbols only for sections. Every other attempt is refused with an error of a kind that applies and names the offender, for all ways of defining (define, define_zero_init, define_with_symbols, declare_with).",
  ["histories"], "all histories mixing declarations, redeclarations, upgrades and definitions in any order",
  "Tests try one duplicate definition and two invalid zero-inits; acceptance depends on the whole prior history of that name.",
  [A], [("Artifact::define_with_symbols", A)], ["return values of the define family", "undefined_symbols()", "emitted contents"],
  [dict(name="defined flag", meaning="whether a declaration has got its definition", where=A)])
p("C04", "Rejected calls leave no trace",
  "Any call that returns an error (incompatible declaration, illegal definition, link to or from something undeclared or from an import) leaves the artifact as it was: imports, undefined symbols, the outcome of all later calls and the meaning of everything emitted later are the same as if the call had not been made. A batch declaration that fails part-way has exactly the effect of its successful prefix.",
  ["histories", "fault_sequences"], "all histories with erroneous calls injected at any positions, compared with the same history without them",
  "No test looks at the state after a rejected call beyond is_err().",
  [A, D], [("early returns in declare, define_with_symbols, link_with", A), ("absorb leaves self unchanged on error", D)], ["imports()", "undefined_symbols()", "outcomes of later calls", "emitted object meaning"])
p("C05", "Emission is refused exactly while something is undefined",
  "At every point of every history the reported undefined symbols are exactly the declared non-import names without a definition, each once, in order of first declaration; emitting or writing in any supported format fails with precisely that list while it is non-empty and never for this reason once it is empty. A refused write leaves the sink untouched.",
  ["histories"], "all histories, queried after every step, in every output format",
  "Tests query one two-symbol artifact three times.",
  [A], [("undefined_symbols and emit_as", A)], ["undefined_symbols()", "emit/emit_as/write/write_as results"])
p("C06", "Links are admitted exactly between declared names, never from imports",
  "A link (with or without an explicit relocation) is accepted if and only if both of its ends have been declared and its source is not currently an import; otherwise the error names the offending end. Accepted links survive later declarations and definitions, and refused links never show up in an emitted object.",
  ["histories"], "all histories of link calls interleaved with declarations, upgrades and definitions",
  "Tests make one accepted link and no rejected one.",
  [A], [("Artifact::link_with", A), ("Artifact::links", A)], ["return values of link/link_with", "relocations in emitted objects"],
  [dict(name="links", meaning="accepted links in order", where=A)])
p("C07", "Every emitted ELF object is structurally well-formed",
  "For every complete artifact and supported target the ELF output is a valid relocatable object: header fields and counts agree with the file, every header, section and table lies inside the file without overlapping another, section and symbol names resolve to NUL-terminated strings, links, infos and entry sizes of tables are right, section and symbol indices are in range, and relocation sections point at the symbol table and at the section they patch. Independent tools parse it without complaint.",
  ["inputs", "configurations"], "all complete artifacts (any number, order, size and naming of functions, data, sections, imports, links) and all supported targets",
  "Tests parse six objects with the same library that wrote them; offsets, sizes and counts are accumulated incrementally from everything that was added.",
  [E, T], [("Elf::write offset computation", E), ("string table offsets", E), ("section and symbol counting", E)], ["bytes returned by emit/emit_as"],
  [dict(name="sizeof_bits, sizeof_strtab, nsections, nlocals", meaning="running totals from which the layout is computed", where=E)])
p("C08", "ELF output contains each definition's exact bytes and extent, once",
  "In every emitted ELF object each function, data object and custom section has its own section holding exactly the bytes it was defined with, and its symbol (value and size) spans exactly those bytes; a zero-initialised object occupies no file space but reserves its full size in memory. Nothing else is emitted as program contents and no two definitions share bytes.",
  ["inputs"], "all complete artifacts, sizes from empty to many buffers long, any contents, any naming and definition order",
  "No test compares emitted contents with what was defined; the only zero-init test checks that the file is small.",
  [A, E], [("add_definition / add_progbits / add_section", E), ("code map written in order", E), ("ordered definition sets", A)], ["sections and symbols of the emitted object"])
p("C09", "ELF symbols carry each declaration's name, type, binding and visibility",
  "The ELF symbol table consists of the null symbol, one file symbol naming the artifact, one section symbol per content section, and exactly one symbol per defined function/data object, per custom section symbol and per import, each with its exact name. Type, binding (local, global, weak) and visibility are those declared, imports are undefined global symbols, and all local symbols precede all non-local ones with the boundary recorded correctly.",
  ["inputs", "histories"], "all complete artifacts with any mix of attributes, names (including ones that coincide with file or section names) and upgrades",
  "decl_attributes checks 12 fixed declarations and never the ordering or the boundary; weak symbols and custom symbols are never checked against the boundary.",
  [E, A, D], [("SymbolBuilder::create", E), ("nlocals / sh_info", E), ("local and nonlocal definition sets", A)], ["symbol table of the emitted object"])
p("C10", "ELF sections get the permissions and alignment the declaration asks for",
  "Functions land in allocatable, executable, non-writable sections; data in allocatable, non-executable sections writable exactly if declared writable (zero-initialised data always writable, in no-bits sections); string data additionally in mergeable string sections; debug sections are not allocated. The section's alignment is the declared one, or the documented default of its kind, section names follow kind and object name, and the object never asks for an executable stack.",
  ["inputs", "configurations"], "all declarations: every combination of kind, writability, datatype, scope, visibility, alignment and contents form",
  "Tests check two alignments and the flags of 12 fixed declarations.",
  [E, D], [("SectionBuilder::create", E), ("add_definition section selection", E), (".note.GNU-stack emission", E)], ["section headers of the emitted object"])
p("C11", "Every accepted link becomes exactly one correct ELF relocation",
  "For every complete artifact the relocations of each source object's section correspond one-to-one and in order to the links added for it: at the requested offset, with the relocation type and addend chosen by the documented from/to rule (or the explicit raw/debug one given), and with a symbol that resolves to the start of the link target. There are no other relocations.",
  ["inputs", "histories"], "all sets of links between functions, data, sections and imports, made before or after definitions and in any interleaving, with automatic, raw and debug relocations",
  "No test inspects a relocation; symbol indices in relocations depend on how many sections, locals, globals and imports there are.",
  [E, A], [("Elf::link", E), ("Elf::add_reloc", E), ("Artifact::links", A)], ["relocation sections of the emitted object"])
p("C12", "ELF custom sections and their symbols are emitted faithfully",
  "Every custom section appears in the ELF output under its own name with exactly its contents, and each of its custom symbols is defined in that section at the given offset, whatever other objects, sections, symbols and names surround it. Relocations from and to custom sections are attached to the right section and resolve to the right section or symbol.",
  ["inputs"], "all sets of custom sections and symbols (many sections, many symbols, arbitrary names and offsets) combined with other definitions and links",
  "One test looks at the offsets of the symbols of a single section alone in an artifact.",
  [E], [("add_definition, Section arm", E), ("link, section arm", E)], ["sections, symbols, relocations of the emitted object"])
p("C13", "ELF objects with more sections than fit 16 bits stay correct",
  "When an artifact has so many definitions that section indices reach the reserved range, the ELF output switches to extended numbering and remains fully correct: counts, per-symbol section indices, contents, symbol boundary and relocations all still denote the right objects; just below the threshold the ordinary encoding is used. This holds at, around and well beyond the threshold, with any mix of kinds, imports and links.",
  ["inputs"], "artifact sizes around and above the 0xff00-section threshold, with relocations, imports, custom sections and zero-init data",
  "One test emits 65536 link-less functions and checks four totals; it never resolves a symbol or relocation above the threshold.",
  [E], [("need_symtab_shndx handling in Elf::write", E)], ["bytes of large emitted objects"])
p("C14", "Object headers encode the requested target",
  "For every supported architecture, pointer width and byte order, the emitted object has the machine code, class (32/64-bit) and endianness of the artifact's target, and everything in it is encoded in that class and byte order with unchanged meaning. Two targets differing only in width or byte order yield objects with the same symbols, contents and relocations.",
  ["configurations", "inputs"], "all target triples with a supported architecture, for both formats, on arbitrary complete artifacts",
  "All tests use x86_64 (or the unknown architecture).",
  [T, E, M], [("make_ctx", T), ("MachineTag", E), ("CpuType", M)], ["header and tables of emitted objects"])
p("C15", "Every emitted Mach-O object is structurally well-formed",
  "For every complete artifact the Mach-O output is a valid relocatable object: load commands have the right sizes and counts, every section, relocation, symbol and string table lies inside the file without overlapping another, the segment covers its sections in file and memory, symbols refer to existing sections and strings, and relocations to existing symbols and to places inside their section. Independent tools parse it without complaint.",
  ["inputs"], "all complete artifacts (any number, order, size and naming of functions, data, strings, zero-init objects, sections, imports, links)",
  "One test parses an empty object and one with a single zero-init symbol.",
  [M], [("Mach::write offset computation", M), ("SectionBuilder::create", M), ("SymbolTable::insert", M)], ["bytes returned by emit/emit_as"],
  [dict(name="segment.offset/size, strtable_size, align_pad_map", meaning="running totals from which the layout is computed", where=M)])
p("C16", "Mach-O output contains each definition's exact bytes at its symbol",
  "In every emitted Mach-O object the bytes found at each function's or data object's symbol, in the section for its kind (code, data, C strings, zero-fill), are exactly those it was defined with, and the extents of different definitions never overlap; zero-initialised objects take no file space but reserve their full size in the address space. Symbol addresses lie inside the section they name.",
  ["inputs"], "all complete artifacts, sizes from empty to many buffers long, any contents and alignment mix",
  "No test compares Mach-O contents or symbol values with what was defined.",
  [M], [("SegmentBuilder::build_section", M), ("padding written after each definition", M), ("partition of definitions in Mach::new", M)], ["sections and symbols of the emitted object"])
p("C17", "Mach-O symbols have each declaration's name and linkage",
  "The Mach-O symbol table contains exactly one symbol per function/data definition, custom section symbol and import, named by the artifact's name for it with one leading underscore. Global definitions are external, local ones are not, weak ones are external weak definitions, hidden non-local ones are private external, and imports are undefined external symbols.",
  ["inputs", "histories"], "all complete artifacts with any mix of scopes, visibilities, names and upgrades",
  "No test looks at a Mach-O symbol.",
  [M], [("SymbolBuilder::create", M), ("SymbolTable::insert", M)], ["symbol table of the emitted object"])
p("C18", "Mach-O honours declared alignments",
  "Every definition's address in an emitted Mach-O object is a multiple of its declared alignment, and its section's declared alignment is at least that large and itself satisfied by the section's address, so that any linker placing the section as asked keeps the object aligned. Functions and data without explicit alignment get at least the backend's minimum.",
  ["inputs"], "all sequences of definitions with any alignments (first, middle, last or only one in its section; strings; zero-init; custom sections) and sizes",
  "No test looks at Mach-O alignment.",
  [M], [("padding computation in build_section", M), ("section alignment exponent", M)], ["section headers and symbol values of the emitted object"])
p("C19", "Every accepted link becomes exactly one correct Mach-O relocation",
  "For every complete x86_64 artifact the Mach-O relocations correspond one-to-one to the links: each is recorded in the section that holds the link's source, at the source's position plus the requested offset, against the target's symbol, with the type, length and pc-relativity chosen by the documented from/to rule (or the explicit one given), in the order the links of that section were made. References between debug sections, which this format resolves without relocations, are the only links without one.",
  ["inputs", "histories"], "all sets of links among functions, data, strings and imports and from debug sections, in any interleaving",
  "No test inspects a Mach-O relocation.",
  [M, A], [("build_relocations", M), ("RelocationBuilder::create", M)], ["relocation entries of the emitted object"])
p("C20", "Mach-O custom sections and their symbols are emitted faithfully",
  "Every custom section appears in the Mach-O output under its (mapped) name, in the segment for its kind, flagged as debug exactly if it is one, with exactly its contents; each custom symbol is an external symbol at the given offset inside that section. This holds for any number of custom sections beside any other definitions.",
  ["inputs"], "all sets of custom sections and symbols with names of up to 16 bytes, combined with other definitions",
  "The doc example only emits one such section and never looks at it.",
  [M], [("SegmentBuilder::build_custom_section", M)], ["sections and symbols of the emitted object"])
p("C21", "Emission is deterministic, repeatable and free of side effects",
  "Emitting is a pure function of the call history: repeated emission, emission from clones, from several threads at once, in another process, after emitting another format, or with logging enabled at any level gives byte-identical output and never changes the artifact. Output never depends on hash seeds, addresses or time.",
  ["histories", "schedules", "configurations"], "all histories, thread schedules, processes and log levels",
  "No test emits the same artifact twice.",
  [A, E, M], [("ordered containers for everything that is iterated", A), ("emit takes &self", A)], ["bytes of repeated emissions"])
p("C22", "Writing delivers exactly the emitted bytes or reports failure",
  "A successful write delivers to the sink, from its current position, exactly the bytes emission returns, once and completely; if the sink fails at any point (full device, size limit, closed pipe, read-only handle, would-block) the call returns the I/O error, and what reached the sink is a prefix of those bytes. If emission is refused the sink is not written to.",
  ["fault_sequences", "inputs"], "all artifacts, formats, sink kinds and failure points",
  "No test calls write or write_as.",
  [A], [("Artifact::write / write_as", A)], ["sink contents", "return value of write/write_as"])
p("C23", "Linked ELF programs behave as the artifact describes",
  "When emitted x86_64 ELF objects are linked by standard linkers, alone, several together or against compiled C, and run, calls reach the linked functions, loads and stores reach the linked data, pointers in data point where linked, imports bind to the external definitions, weak definitions yield to strong ones, same-named local symbols of different objects stay apart, and zero-init memory is zero, writable, full-size and disjoint. Alignment requests and read-only, executable and stack permissions hold at run time.",
  ["programs", "configurations"], "all programs expressible as functions, data and links; linkers bfd, gold and lld; static, PIE and shared outputs",
  "cargo tests never link or run anything.",
  [E, A], [("the whole ELF backend", E)], ["exit status and output of linked programs"])
p("C24", "Linked Mach-O programs behave as the artifact describes",
  "When an emitted x86_64 Mach-O object is linked or loaded by a linker that follows the format's rules, every call, load, GOT access and pointer resolves to the object or import named in the link, at its final address, and executing the code gives the results the program was built to give. Independent linkers accept the object and agree on every resolved reference.",
  ["programs"], "all programs expressible as functions, data and links",
  "Nothing in the tests links a Mach-O object.",
  [M, A], [("the whole Mach-O backend", M)], ["results of executing the loaded object", "image produced by an independent linker"])
p("C25", "No undefined behaviour or data race in any use of the safe API",
  "No sequence of safe API calls, and no concurrent emission, cloning or querying of a shared artifact from several threads, triggers undefined behaviour, an out-of-bounds or uninitialised access, or a data race.",
  ["histories", "schedules", "inputs"], "all API histories and thread schedules",
  "Tests are single-threaded and run without sanitizers.",
  [A, E, M], [("safe Rust over dependencies with unsafe internals", A)], ["ASan, TSan and Miri reports"])
p("C26", "Every complete artifact of supported features emits without crashing",
  "For every accepted call history without undefined symbols that stays within the backend's supported features, both backends return an object: no panic, overflow, hang or error, however names, sizes, counts, alignments and orderings are chosen. The size of the output is bounded by the contents, names, padding and a fixed cost per item.",
  ["histories", "inputs"], "all accepted histories over hostile names, empty and huge contents, extreme alignments and large counts",
  "Tests emit a dozen benign artifacts.",
  [A, E, M], [("internal layout assertions in Elf::write", E), ("expects and unwraps in link and SectionBuilder::create", E), ("assertions in Mach::write", M)], ["emit/emit_as completion"])
p("C27", "The requested format and builder settings are what is used",
  "emit and write use the target's own format, emit_as and write_as exactly the requested one, independent of each other and of earlier emissions; a format that is not supported is refused with an error that names that format. Builder settings (target, name, library flag; default name) are reflected in the artifact, and the artifact's name is recorded in ELF output as its file symbol.",
  ["configurations", "histories"], "all targets, names and formats",
  "One test emits an empty artifact in two formats.",
  [A], [("emit_as dispatch", A), ("ArtifactBuilder", A)], ["bytes/errors of the emit family", "public fields of the artifact"])
p("C28", "Declaration builders record exactly what was set",
  "After any chain of builder and setter calls, each attribute of a declaration reads back as the last value set for it (or its documented default), setting one attribute never disturbs another, and two declarations compare equal exactly if they are of the same kind with all attributes equal. The predicates (import, section, global, writable, function, data) agree with those attributes. Contents (data) read back their bytes or zero-init size, their size in the file, and whether they are empty or zero-initialised.",
  ["histories", "inputs"], "all chains of builder/setter calls on all declaration kinds",
  "Tests use a handful of one- or two-call chains and read nothing back.",
  [D], [("scope/visibility/datatype/align macros", D), ("accessors", D)], ["getters, equality, conversion into Decl"])
p("C29", "What is emitted does not depend on the order of independent calls",
  "Any two histories that make the same accepted declarations, definitions and per-object sequences of links, in whatever order the rules allow, emit objects with the same meaning: same symbols and attributes, same contents, same alignments and same relocations per object. Adding unrelated definitions, imports or links leaves the meaning of everything else unchanged.",
  ["histories"], "all permutations and interleavings of independent calls, and all additions of unrelated items",
  "No test compares two histories.",
  [A, E, M], [("interned names and ordered definition sets", A), ("index computation in both backends", E)], ["meaning extracted from emitted objects"])
p("C30", "What is emitted does not depend on the machine that emits",
  "For every target whose architecture fixes word size and byte order, the same history of calls yields the same call outcomes, the same reported imports and undefined symbols, the same refusals and the same bytes in both formats on every host, whatever the host's own word size and byte order (as far as the sizes passed to the calls exist on it): compiling on a 32-bit or a big-endian machine gives the objects that any other machine gives.",
  ["histories", "hosts"], "all histories, all targets, hosts of every word size and byte order",
  "Tests run on the one machine they are run on.",
  [A, E, M, T], [("target byte order and container size chosen from the triple", T), ("every multi-byte field written through the target's context", E), ("sizes and offsets kept in 64 bits", M)], ["outcomes of calls", "emitted bytes on other hosts"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
