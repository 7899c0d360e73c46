//! Common parts of the monitors.
use std::collections::BTreeMap;

/// A set of property ids, as a bit mask (bit n = C<n>).
pub type Props = u64;
#[macro_export]
macro_rules! p { ($($n:expr),* $(,)?) => { 0u64 $(| 1u64 << $n)* } }

pub const ELF_ALL: Props = p!(7, 8, 9, 10, 11, 12, 13, 14);
pub const MACH_ALL: Props = p!(15, 16, 17, 18, 19, 20);

#[derive(Clone, Debug)]
pub struct Fail {
    pub props: Props,
    /// stable kind, used to keep the same failure while shrinking
    pub sig: &'static str,
    pub msg: String,
}
#[derive(Default, Clone)]
pub struct Log {
    pub fails: Vec<Fail>,
    /// observed facts per entity, in format-independent words
    pub obs: BTreeMap<String, String>,
    /// facts judged, by kind
    pub judged: BTreeMap<&'static str, u64>,
}
impl Log {
    pub fn fail(&mut self, props: Props, sig: &'static str, msg: String) {
        if self.fails.len() < 200 {
            let mut m = msg;
            if m.len() > 1500 {
                let mut k = 1500;
                while !m.is_char_boundary(k) {
                    k -= 1;
                }
                m.truncate(k);
                m.push('…');
            }
            self.fails.push(Fail { props, sig, msg: m });
        }
    }
    pub fn saw(&mut self, k: &'static str, n: u64) {
        *self.judged.entry(k).or_default() += n;
    }
    pub fn hits(&self, p: u32) -> Option<&Fail> {
        self.fails.iter().find(|f| f.props >> p & 1 == 1)
    }
}
/// Short printable form of a possibly huge or odd name.
pub fn nm(s: &str) -> String {
    if s.len() > 60 {
        let mut k = 40;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{:?}…({} bytes)", &s[..k], s.len())
    } else {
        format!("{:?}", s)
    }
}
