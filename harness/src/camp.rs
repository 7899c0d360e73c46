//! Campaign machinery: parallel case execution, shrinking, replay files, evidence, verdict.
use crate::mon::*;
use crate::ops::*;
use crate::rng::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub msg: String,
    pub replay: String,
}
#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub judged: BTreeMap<String, u64>,
    pub extra: BTreeMap<String, u64>,
    pub ops: HashMap<String, u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn absorb(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.judged {
            *self.judged.entry(k).or_default() += v;
        }
        for (k, v) in o.extra {
            *self.extra.entry(k).or_default() += v;
        }
        for (k, v) in o.ops {
            *self.ops.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.to_string()).or_default() += n;
    }
    pub fn log(&mut self, l: &Log) {
        for (k, v) in &l.judged {
            *self.judged.entry(k.to_string()).or_default() += v;
        }
    }
    /// count a case; `nontrivial` decides whether it counts as such
    pub fn case(&mut self, text_hash: u64, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(text_hash);
        }
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 3 {
            self.samples.push(crate::exec::trunc(&s, 1500));
        }
    }
}

pub struct Camp {
    pub id: u32,
    pub thorough: bool,
    pub seed: u64,
    /// percentage applied to the number of cases
    pub scale: u64,
    pub start: Instant,
    pub st: Stats,
    pub rules: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, String>,
    pub inconclusive: Vec<String>,
    pub assumptions: Vec<String>,
    pub replay_dir: String,
    pub only: Option<(String, u64)>,
    /// replay one recorded history under the campaign of this label
    pub replay: Option<(String, u64, Hist)>,
    /// write the history about to be judged here (for cases that take the process down)
    pub dump: Option<String>,
    pub threads: usize,
}

/// per-worker progress slots, watched by the watchdog thread
pub static SLOTS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
pub static CLOCKS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
pub static LABEL: Mutex<String> = Mutex::new(String::new());

fn thread_clock() -> u64 {
    let mut c: libc::clockid_t = 0;
    unsafe {
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
    }
    c as u32 as u64
}
pub fn cpu_ns(clock: u64) -> Option<u64> {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let r = unsafe { libc::clock_gettime(clock as u32 as libc::clockid_t, &mut t) };
    if r == 0 {
        Some(t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64)
    } else {
        None
    }
}

pub type Judge<'a> = &'a (dyn Fn(&Hist, u64, &mut Stats) -> Log + Sync);
pub type Gen<'a> = &'a (dyn Fn(&mut Rng, u64) -> Hist + Sync);

impl Camp {
    pub fn cid(&self) -> String {
        format!("C{:02}", self.id)
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough { thorough } else { quick };
        (n * self.scale / 100).max(1)
    }
    pub fn case_seed(&self, label: &str, i: u64) -> u64 {
        mix(mix(self.seed ^ hash_bytes(label.as_bytes())) ^ mix(self.id as u64 * 1000003 + 17) ^ mix(i.wrapping_mul(0x9E37_79B9)))
    }
    /// Run `n` cases in parallel.
    pub fn cases(&mut self, label: &str, rule: &str, n: u64, gen: Gen, judge: Judge) {
        if !rule.is_empty() {
            self.rules.push(format!("{}: {}", label, rule));
        }
        if self.stop() {
            return;
        }
        if let Some((l, seed, h)) = self.replay.clone() {
            if l == label {
                let mut st = Stats::default();
                let log = judge(&h, seed, &mut st);
                self.st.absorb(st);
                match log.hits(self.id) {
                    Some(f) => {
                        let f = f.clone();
                        self.report(label, 0, seed, &h.text(), &f)
                    }
                    None => println!("# replayed {}: holds", label),
                }
            }
            return;
        }
        crate::shared_label(label);
        *LABEL.lock().unwrap() = label.to_string();
        let mut range: Vec<u64> = (0..n).collect();
        if let Some((l, i)) = &self.only {
            if l != label {
                return;
            }
            range = vec![*i];
        }
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let found: Mutex<Vec<(u64, Hist, u64, Fail)>> = Mutex::new(vec![]);
        let total = Mutex::new(Stats::default());
        let this = &*self;
        let (range, next, stop, found, total) = (&range, &next, &stop, &found, &total);
        std::thread::scope(|s| {
            for w in 0..this.threads {
                let th = std::thread::Builder::new().stack_size(8 << 20);
                th.spawn_scoped(s, move || {
                    CLOCKS[w].store(thread_clock(), SeqCst);
                    let mut st = Stats::default();
                    loop {
                        let k = next.fetch_add(1, SeqCst);
                        if k >= range.len() as u64 || stop.load(SeqCst) {
                            break;
                        }
                        let i = range[k as usize];
                        SLOTS[w].store(i + 1, SeqCst);
                        crate::shared_slot(w, i + 1);
                        let seed = this.case_seed(label, i);
                        let mut r = Rng::new(seed);
                        let h = gen(&mut r, i);
                        if let Some(d) = &this.dump {
                            let _ = std::fs::write(d, format!("campaign {}\ncaseseed {}\n{}", label, seed, h.text()));
                        }
                        if i < 2 {
                            st.sample(h.text());
                        }
                        let log = judge(&h, seed, &mut st);
                        st.log(&log);
                        if let Some(f) = log.hits(this.id) {
                            let mut v = found.lock().unwrap();
                            v.push((i, h, seed, f.clone()));
                            stop.store(true, SeqCst);
                        }
                    }
                    SLOTS[w].store(0, SeqCst);
                    crate::shared_slot(w, 0);
                    total.lock().unwrap().absorb(st);
                })
                .unwrap();
            }
        });
        let t = std::mem::take(&mut *total.lock().unwrap());
        self.st.absorb(t);
        let mut v = std::mem::take(&mut *found.lock().unwrap());
        v.sort_by_key(|x| x.0);
        if let Some((i, h, seed, f)) = v.into_iter().next() {
            let id = self.id;
            // a candidate may hang where the original does not
            CLOCKS[63].store(thread_clock(), SeqCst);
            crate::shared_slot(63, i + 1);
            let mut turn = 0;
            let (h2, f2) = shrink(h, f, &mut |h: &Hist| {
                turn += 1;
                SLOTS[63].store(turn, SeqCst);
                let mut st = Stats::default();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| judge(h, seed, &mut st)));
                match r {
                    Ok(l) => l.hits(id).cloned(),
                    Err(_) => None,
                }
            });
            SLOTS[63].store(0, SeqCst);
            crate::shared_slot(63, 0);
            self.report(label, i, seed, &h2.text(), &f2);
        }
    }
    pub fn report(&mut self, label: &str, case: u64, seed: u64, text: &str, f: &Fail) {
        let body = format!(
            "# property {}\n# {}: {}\n# campaign {} case {} case-seed {} run-seed {}\n# replay: /verif/check.sh {} replay <this file>\ncampaign {}\ncaseseed {}\n{}",
            self.cid(),
            f.sig,
            f.msg.replace('\n', " "),
            label,
            case,
            seed,
            self.seed,
            self.cid(),
            label,
            seed,
            text
        );
        let _ = std::fs::create_dir_all(&self.replay_dir);
        let path = format!("{}/{}-{:016x}.txt", self.replay_dir, self.cid(), hash_bytes(body.as_bytes()));
        let _ = std::fs::write(&path, body);
        println!("# {} [{}] {}", self.cid(), f.sig, f.msg);
        self.violations.push(Violation { sig: f.sig.to_string(), msg: f.msg.clone(), replay: path });
    }
    /// violation outside the generic case loop
    pub fn violate(&mut self, label: &str, sig: &'static str, msg: String, text: &str) {
        let f = Fail { props: 1 << self.id, sig, msg };
        self.report(label, 0, self.seed, text, &f);
    }
    pub fn stop(&self) -> bool {
        !self.violations.is_empty()
    }
}

/// Delta-debug the calls, then simplify payloads.
pub fn shrink(h: Hist, f: Fail, test: &mut dyn FnMut(&Hist) -> Option<Fail>) -> (Hist, Fail) {
    let (mut best, mut bf) = (h, f);
    let mut chunk = (best.ops.len() / 2).max(1);
    // big histories cost seconds each: what is reported then is simply larger
    let t0 = Instant::now();
    let mut budget = 1500;
    let late = move |b: &mut i32| {
        if t0.elapsed().as_secs() > 25 {
            *b = 0;
        }
        *b <= 0
    };
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < best.ops.len() && !late(&mut budget) {
            let mut c = best.clone();
            let e = (i + chunk).min(c.ops.len());
            c.ops.drain(i..e);
            budget -= 1;
            match test(&c) {
                Some(f) => {
                    best = c;
                    bf = f;
                    changed = true;
                }
                None => i += chunk,
            }
        }
        if budget <= 0 || (chunk == 1 && !changed) {
            break;
        }
        if chunk > 1 {
            chunk = (chunk / 2).max(1);
        }
    }
    // payloads
    for i in 0..best.ops.len() {
        for step in 0..4 {
            if late(&mut budget) {
                break;
            }
            let mut c = best.clone();
            let b = match &mut c.ops[i] {
                Op::Define(_, b) | Op::DeclareWith(_, _, b) | Op::DefineSyms(_, Pay::Blob(b), _) => b,
                _ => break,
            };
            let n = b.len();
            match step {
                0 => b.truncate(0),
                1 => b.truncate(n.min(8)),
                2 => b.truncate(n / 2),
                _ => b.iter_mut().for_each(|x| *x = 0),
            }
            budget -= 1;
            if let Some(f) = test(&c) {
                best = c;
                bf = f;
                if step < 2 {
                    break;
                }
            }
        }
    }
    if best.lib {
        let mut c = best.clone();
        c.lib = false;
        if let Some(f) = test(&c) {
            best = c;
            bf = f;
        }
    }
    if best.name != "t.o" {
        let mut c = best.clone();
        c.name = "t.o".into();
        if let Some(f) = test(&c) {
            best = c;
            bf = f;
        }
    }
    (best, bf)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Camp {
    pub fn evidence(&self) -> String {
        let mut o = String::new();
        let map = |m: &BTreeMap<String, u64>| {
            format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "))
        };
        let ops: BTreeMap<String, u64> = self.st.ops.iter().map(|(a, b)| (a.clone(), *b)).collect();
        o.push_str("{\n");
        o.push_str(&format!("  \"property\": {},\n", json_str(&self.cid())));
        o.push_str(&format!("  \"tier\": \"{}\",\n", if self.thorough { "thorough" } else { "quick" }));
        o.push_str(&format!("  \"seed\": {},\n", self.seed));
        o.push_str("  \"level\": \"exploration\",\n");
        o.push_str("  \"coverage\": {\n");
        o.push_str(&format!("    \"evaluations\": {},\n", self.st.evaluations));
        o.push_str(&format!("    \"distinct_nontrivial\": {},\n", self.st.distinct.len()));
        o.push_str(&format!("    \"rule\": {},\n", json_str(&self.rules.join(" | "))));
        o.push_str(&format!("    \"observed_by_monitors\": {},\n", map(&self.st.judged)));
        o.push_str(&format!("    \"workload\": {},\n", map(&self.st.extra)));
        o.push_str(&format!("    \"calls_by_outcome\": {},\n", map(&ops)));
        o.push_str(&format!(
            "    \"inconclusive\": [{}],\n",
            self.inconclusive.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")
        ));
        o.push_str(&format!(
            "    \"known_findings_observed\": [{}],\n",
            self.known.keys().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")
        ));
        o.push_str(&format!(
            "    \"samples\": [{}]\n  }},\n",
            self.st.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")
        ));
        o.push_str(&format!(
            "  \"assumptions\": [{}],\n",
            self.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")
        ));
        o.push_str(&format!("  \"wall_s\": {:.2},\n", self.start.elapsed().as_secs_f64()));
        o.push_str(&format!("  \"violations\": {}\n}}\n", self.violations.len()));
        o
    }
}
