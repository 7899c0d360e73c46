//! fmon: runtime monitors for faerie.
mod camp;
mod camps;
mod camps2;
mod camps3;
mod camps4;
mod camps5;
mod camps6;
mod camps7;
mod camps8;
mod elf;
mod exec;
mod far;
mod gen;
mod known;
mod macho;
mod model;
mod mon;
mod mon_elf;
mod mon_mach;
mod ops;
mod prog;
mod rng;
mod targets;

use camp::*;
use ops::Hist;
use std::cell::RefCell;
use std::io::Read;
use std::sync::atomic::{AtomicPtr, Ordering::SeqCst};
use std::time::{Duration, Instant};

// ---- progress shared with the supervising process: 64 slots, then the campaign label
static SHM: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
const SHM_LEN: usize = 4096;
pub fn shared_slot(w: usize, v: u64) {
    let p = SHM.load(SeqCst);
    if !p.is_null() && w < 64 {
        unsafe { p.add(w).write_volatile(v) }
    }
}
pub fn shared_label(l: &str) {
    let p = SHM.load(SeqCst);
    if !p.is_null() {
        let b = l.as_bytes();
        let n = b.len().min(200);
        unsafe {
            let q = (p as *mut u8).add(1024);
            std::ptr::copy_nonoverlapping(b.as_ptr(), q.add(1), n);
            q.write_volatile(n as u8);
        }
    }
}
fn map_shm(path: &str) {
    use std::os::fd::AsRawFd;
    if let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).open(path) {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                SHM_LEN,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            );
            if p != libc::MAP_FAILED {
                SHM.store(p as *mut u64, SeqCst);
            }
        }
    }
}

thread_local! {
    pub static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn last_panic_at() -> String {
    PANIC_AT.with(|p| p.borrow().clone())
}

pub const EXIT_INCONCLUSIVE: i32 = 3;
const EXIT_HANG: i32 = 97;
/// CPU seconds one case may take before it counts as hanging (ordinary cases take milliseconds,
/// the largest shapes a few seconds)
const CASE_CPU_S: u64 = 90;

/// Seconds without any CPU use after which a case counts as blocked for good. Cases that wait for
/// other programs get longer; those programs have time limits of their own.
fn blocked_s(id: u32) -> u64 {
    if matches!(id, 7 | 15 | 23 | 24 | 25 | 30) { 420 } else { 90 }
}

fn watchdog(id: u32) {
    std::thread::spawn(move || {
        let mut seen = [(0u64, 0u64, 0u64, Instant::now()); 64];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for w in 0..64 {
                let s = SLOTS[w].load(SeqCst);
                if s == 0 {
                    seen[w].0 = 0;
                    continue;
                }
                let cpu = match cpu_ns(CLOCKS[w].load(SeqCst)) {
                    Some(c) => c,
                    None => continue,
                };
                if seen[w].0 != s {
                    seen[w] = (s, cpu, cpu, Instant::now());
                    continue;
                }
                if cpu > seen[w].2 {
                    seen[w].2 = cpu;
                    seen[w].3 = Instant::now();
                }
                let busy = cpu.saturating_sub(seen[w].1) > CASE_CPU_S * 1_000_000_000;
                let blocked = seen[w].3.elapsed().as_secs() > blocked_s(id);
                if busy || blocked {
                    eprintln!("# case {} {}", s - 1, if busy { format!("uses more than {} s of CPU", CASE_CPU_S) } else { "is blocked".into() });
                    // leave only the offender in the shared slots; one that waits may
                    // wait for another
                    for x in 0..64 {
                        if x != w && busy {
                            shared_slot(x, 0);
                        }
                    }
                    unsafe { libc::_exit(EXIT_HANG) };
                }
            }
        }
    });
}

fn env(k: &str) -> Option<String> {
    std::env::var(k).ok().filter(|s| !s.is_empty())
}

fn child(id: u32, tier: &str) -> i32 {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = l);
        if std::env::var_os("FMON_PANICS").is_some() {
            eprintln!("{}", i);
        }
    }));
    unsafe {
        // sanitizer runtimes, which C25 and C30 start, reserve terabytes of address space
        if id != 25 && id != 30 {
            let lim = libc::rlimit { rlim_cur: 26 << 30, rlim_max: 26 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
    }
    if let Some(p) = env("FMON_SHM") {
        map_shm(&p);
    }
    watchdog(id);
    let mut c = Camp {
        id,
        thorough: tier == "thorough",
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        scale: env("FMON_SCALE").and_then(|s| s.parse().ok()).unwrap_or(100),
        start: Instant::now(),
        st: Stats::default(),
        rules: vec![],
        violations: vec![],
        known: Default::default(),
        inconclusive: vec![],
        assumptions: vec![],
        replay_dir: env("FMON_REPLAYS").unwrap_or("/verif/replays".into()),
        only: env("FMON_ONLY").map(|s| {
            let (l, i) = s.rsplit_once(':').expect("FMON_ONLY");
            (l.to_string(), i.parse().expect("FMON_ONLY"))
        }),
        replay: env("FMON_REPLAY").map(|f| {
            let t = std::fs::read_to_string(&f).expect("replay file");
            let mut label = String::new();
            let mut seed = 0;
            let mut rest = String::new();
            for l in t.lines() {
                if let Some(x) = l.strip_prefix("campaign ") {
                    label = x.into();
                } else if let Some(x) = l.strip_prefix("caseseed ") {
                    seed = x.parse().unwrap_or(0);
                } else {
                    rest.push_str(l);
                    rest.push('\n');
                }
            }
            let h = Hist::parse(&rest).unwrap_or(Hist { triple: String::new(), name: String::new(), lib: false, ops: vec![] });
            (label, seed, h)
        }),
        dump: env("FMON_DUMP"),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
    };
    if env("FMON_ONLY").is_some() {
        c.threads = 1;
    }
    camps::run(&mut c);
    for (k, v) in &c.known {
        println!("KNOWN-FINDING: property={} {}: {}", c.cid(), k, v);
    }
    for v in &c.violations {
        println!("VIOLATION property={} replay={}", c.cid(), v.replay);
    }
    let single = c.only.is_some() || c.replay.is_some();
    if let (Some(p), false) = (env("FMON_EVIDENCE"), single) {
        if let Err(e) = std::fs::write(&p, c.evidence()) {
            eprintln!("cannot write evidence {}: {}", p, e);
            return EXIT_INCONCLUSIVE;
        }
    }
    println!(
        "# {} {}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s",
        c.cid(),
        tier,
        c.st.evaluations,
        c.st.distinct.len(),
        c.violations.len(),
        c.start.elapsed().as_secs_f64()
    );
    if !c.violations.is_empty() {
        return 1;
    }
    if !c.inconclusive.is_empty() {
        for i in &c.inconclusive {
            println!("# inconclusive: {}", i);
        }
        return EXIT_INCONCLUSIVE;
    }
    if !single && c.st.distinct.len() < 2 {
        println!("# inconclusive: the monitors observed next to nothing");
        return EXIT_INCONCLUSIVE;
    }
    0
}

/// Run the child; if it dies, find the case that kills it.
fn supervise(id: u32, tier: &str) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let shm = format!("{}/fmon-shm-{}", std::env::temp_dir().display(), std::process::id());
    let spawn = |only: Option<&str>, dump: Option<&str>| -> (Option<i32>, Vec<u64>, String) {
        std::fs::write(&shm, vec![0u8; SHM_LEN]).expect("shm");
        let mut cmd = std::process::Command::new(&exe);
        cmd.args(["--child", &format!("C{:02}", id), tier]).env("FMON_SHM", &shm);
        if let Some(o) = only {
            cmd.env("FMON_ONLY", o);
        }
        if let Some(o) = dump {
            cmd.env("FMON_DUMP", o);
        }
        let st = cmd.status().expect("child");
        let mut b = vec![];
        std::fs::File::open(&shm).and_then(|mut f| f.read_to_end(&mut b)).expect("shm");
        let slots = (0..64).map(|i| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap())).collect();
        let n = b[1024] as usize;
        let label = String::from_utf8_lossy(&b[1025..1025 + n]).to_string();
        (st.code(), slots, label)
    };
    let (code, slots, label) = spawn(env("FMON_ONLY").as_deref(), None);
    let mut rc = match code {
        Some(c @ (0 | 1 | EXIT_INCONCLUSIVE)) => c,
        other => {
            println!("# child ended abnormally ({:?}) in campaign {:?}", other, label);
            let dir = env("FMON_REPLAYS").unwrap_or("/verif/replays".into());
            let _ = std::fs::create_dir_all(&dir);
            let mut rc = EXIT_INCONCLUSIVE;
            for s in slots.iter().filter(|s| **s != 0).take(16) {
                let path = format!("{}/C{:02}-{}-case{}.txt", dir, id, label, s - 1);
                let (c2, _, _) = spawn(Some(&format!("{}:{}", label, s - 1)), Some(&path));
                match c2 {
                    Some(0) | Some(EXIT_INCONCLUSIVE) => {
                        let _ = std::fs::remove_file(&path);
                    }
                    Some(1) => rc = 1,
                    c => {
                        println!(
                            "# case {} of {} takes the process down ({})",
                            s - 1,
                            label,
                            if c == Some(EXIT_HANG) { "does not finish".into() } else { format!("{:?}", c) }
                        );
                        println!("VIOLATION property=C{:02} replay={}", id, path);
                        rc = 1;
                    }
                }
                if rc == 1 {
                    break;
                }
            }
            rc
        }
    };
    let _ = std::fs::remove_file(&shm);
    if rc != 0 && rc != 1 {
        rc = EXIT_INCONCLUSIVE;
    }
    rc
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let pid = |s: &str| s.trim_start_matches('C').parse::<u32>().expect("property id");
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("--child") => child(pid(&a[2]), &a[3]),
        Some("--hash") => camps3::hash_worker(&a[2]),
        Some("--image") => camps5::image_worker(&a[2], &a[3]),
        Some("--sani") => camps6::worker(&a[2..]),
        Some("--fsize") => camps3::fsize_worker(&a[2..]),
        Some("replay") => {
            std::env::set_var("FMON_REPLAY", &a[3]);
            child(pid(&a[2]), "quick")
        }
        Some(s) if s.starts_with('C') => supervise(pid(s), a.get(2).map(|s| s.as_str()).unwrap_or("quick")),
        _ => {
            eprintln!("usage: fmon C<nn> quick|thorough | fmon replay C<nn> FILE");
            2
        }
    };
    std::process::exit(rc);
}
