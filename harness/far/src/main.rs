//! The worker that runs histories on a host other than the one the harness runs on (C30).
//! Usage: `far FILE SECONDS`: one line per history of FILE (they are separated by lines `%%`).
#![allow(dead_code)]
#[path = "../../src/far.rs"]
mod far;
#[path = "../../src/ops.rs"]
mod ops;
#[path = "../../src/rng.rs"]
mod rng;

/// What this host is like.
fn host() -> String {
    format!(
        "HOST {} {} {}",
        std::env::consts::ARCH,
        usize::BITS,
        if cfg!(target_endian = "big") { "big" } else { "little" }
    )
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let (file, secs) = (&a[1], a[2].parse::<u64>().unwrap());
    println!("{}", host());
    if secs == 0 {
        return;
    }
    let t0 = std::time::Instant::now();
    let t = std::fs::read_to_string(file).expect("histories");
    for (i, h) in t.split("%%\n").enumerate() {
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        println!("FAR {} {}", i, far::observe(&ops::Hist::parse(h).expect("history")));
    }
}
