//! Hand-written truth table of the supported targets (from the ELF/Mach-O machine registries).
#[derive(Clone, Copy, Debug)]
pub struct Tgt {
    pub triple: &'static str,
    pub em: u16,
    /// None: the target does not fix it
    pub is64: Option<bool>,
    pub le: Option<bool>,
    /// Mach-O cputype, where the Mach-O backend supports the architecture
    pub cpu: Option<u32>,
}
const A64: u32 = 0x0100_0000;
macro_rules! t {
    ($n:literal, $em:expr, $w:expr, $le:expr, $cpu:expr) => {
        Tgt { triple: $n, em: $em, is64: Some($w == 64), le: Some($le), cpu: $cpu }
    };
}
pub const TARGETS: &[Tgt] = &[
    t!("x86_64-unknown-unknown-unknown-elf", 62, 64, true, Some(A64 | 7)),
    t!("x86_64-unknown-linux-gnu", 62, 64, true, Some(A64 | 7)),
    t!("x86_64-unknown-freebsd", 62, 64, true, Some(A64 | 7)),
    t!("x86_64-apple-darwin", 62, 64, true, Some(A64 | 7)),
    t!("i686-unknown-linux-gnu", 3, 32, true, Some(7)),
    t!("i386-unknown-linux-gnu", 3, 32, true, Some(7)),
    t!("i586-unknown-linux-gnu", 3, 32, true, Some(7)),
    t!("aarch64-unknown-linux-gnu", 183, 64, true, Some(A64 | 12)),
    t!("aarch64_be-unknown-linux-gnu", 183, 64, false, Some(A64 | 12)),
    t!("aarch64-apple-darwin", 183, 64, true, Some(A64 | 12)),
    t!("arm-unknown-linux-gnueabi", 40, 32, true, Some(12)),
    t!("armv7-unknown-linux-gnueabihf", 40, 32, true, Some(12)),
    t!("armeb-unknown-linux-gnueabi", 40, 32, false, Some(12)),
    t!("thumbv7em-none-eabi", 40, 32, true, Some(12)),
    t!("mips-unknown-linux-gnu", 8, 32, false, None),
    t!("mipsel-unknown-linux-gnu", 8, 32, true, None),
    t!("mipsisa32r6-unknown-linux-gnu", 8, 32, false, None),
    t!("mips64-unknown-linux-gnuabi64", 8, 64, false, None),
    t!("mips64el-unknown-linux-gnuabi64", 8, 64, true, None),
    t!("powerpc-unknown-linux-gnu", 20, 32, false, Some(18)),
    t!("powerpc64-unknown-linux-gnu", 21, 64, false, Some(A64 | 18)),
    t!("powerpc64le-unknown-linux-gnu", 21, 64, true, Some(A64 | 18)),
    t!("riscv32gc-unknown-linux-gnu", 243, 32, true, None),
    t!("riscv32imac-unknown-none-elf", 243, 32, true, None),
    t!("riscv64gc-unknown-linux-gnu", 243, 64, true, None),
    t!("s390x-unknown-linux-gnu", 22, 64, false, None),
    t!("sparc-unknown-linux-gnu", 2, 32, false, Some(14)),
    t!("sparc64-unknown-linux-gnu", 43, 64, false, None),
    t!("sparcv9-sun-solaris", 43, 64, false, None),
    t!("msp430-none-elf", 105, 32, true, None),
    Tgt { triple: "unknown-unknown-unknown-unknown-elf", em: 0, is64: None, le: None, cpu: Some(0) },
];
pub fn find(triple: &str) -> &'static Tgt {
    TARGETS.iter().find(|t| t.triple == triple).expect("harness: triple not in the table")
}
pub const X64: &str = "x86_64-unknown-unknown-unknown-elf";
pub const X64_MAC: &str = "x86_64-apple-darwin";
