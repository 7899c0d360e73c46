//! What one history yields, as one line that must be the same on every host (C30). Compiled into
//! the harness and, by itself, into the worker that runs on other hosts: nothing but std, the
//! history language and the crate under test may be used here.
use crate::ops::*;
use crate::rng::hash_bytes;
use faerie::{ArtifactError, BinaryFormat};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn emitted(s: &mut String, tag: &str, r: std::thread::Result<Result<Vec<u8>, ArtifactError>>) {
    match r {
        Ok(Ok(b)) => write!(s, " {}={}:{:016x}", tag, b.len(), hash_bytes(&b)),
        // every error says something of its own (the text of I/O errors apart)
        Ok(Err(e)) => write!(s, " {}=error:{:016x}", tag, hash_bytes(format!("{:?}", out_err(e)).as_bytes())),
        Err(_) => write!(s, " {}=panic", tag),
    }
    .unwrap();
}
pub fn observe(h: &Hist) -> String {
    let mut s = String::new();
    let run = catch_unwind(AssertUnwindSafe(|| {
        let mut a = h.artifact();
        let outs: Vec<String> = h.ops.iter().map(|o| format!("{:?}", o.run(&mut a))).collect();
        (a, outs)
    }));
    let (a, outs) = match run {
        Ok(x) => x,
        Err(_) => return "calls=panic".into(),
    };
    let ok = outs.iter().filter(|o| *o == "Ok").count();
    write!(s, "calls={}/{}:{:016x}", ok, outs.len(), hash_bytes(outs.join("\n").as_bytes())).unwrap();
    let q = catch_unwind(AssertUnwindSafe(|| {
        let mut imp: Vec<String> = a.imports().map(|(n, k)| format!("{:?} {:?}", n, k)).collect();
        imp.sort();
        let mut und: Vec<String> = a.undefined_symbols();
        und.sort();
        (imp, und)
    }));
    match q {
        Ok((i, u)) => write!(
            s,
            " imports={}:{:016x} undefined={}:{:016x}",
            i.len(),
            hash_bytes(i.join("\n").as_bytes()),
            u.len(),
            hash_bytes(u.join("\n").as_bytes())
        )
        .unwrap(),
        Err(_) => s.push_str(" queries=panic"),
    }
    emitted(&mut s, "elf", catch_unwind(AssertUnwindSafe(|| a.emit_as(BinaryFormat::Elf))));
    emitted(&mut s, "mach", catch_unwind(AssertUnwindSafe(|| a.emit_as(BinaryFormat::Macho))));
    s
}
