//! Shared result types.
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    /// Coarse class; minimisation keeps it.
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunResult {
    pub violations: Vec<Violation>,
    /// Counters, summed over runs.
    pub stats: BTreeMap<String, u64>,
    /// Identifies the schedule / state path of this run.
    pub signature: u64,
    /// Counts as non-trivial by the rule of the property.
    pub nontrivial: bool,
    /// One line describing the run.
    pub sample: String,
}

impl RunResult {
    pub fn bad(&mut self, class: &str, detail: impl Into<String>) {
        if self.violations.len() < 8 {
            let mut detail: String = detail.into();
            if detail.len() > 1500 {
                let mut n = 1500;
                while !detail.is_char_boundary(n) {
                    n -= 1;
                }
                detail.truncate(n);
                detail += "...";
            }
            self.violations.push(Violation { class: class.into(), detail });
        }
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.into()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.stats.entry(k.into()).or_default();
        *e = (*e).max(n);
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    // FNV-like over 8-byte words, finished with a mix
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9e3779b97f4a7c15);
        h ^= h >> 29;
    }
    for c in it.remainder() {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    crate::prng::mix(&[h])
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

/// How much bigger than usual this run is: rarely so in quick checks, often in thorough ones.
pub fn scale(r: &mut crate::prng::Rng) -> u64 {
    static DEEP: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    let deep = *DEEP.get_or_init(|| std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"));
    if r.pct(if deep { 25 } else { 2 }) {
        *r.pick(&[3, 8, 20])
    } else {
        1
    }
}
