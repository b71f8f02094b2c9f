//! What a run observed: counters, distinct non-trivial cases, samples, violations.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};

pub struct Violation {
    pub case_seed: u64,
    pub message: String,
    pub detail: Value,
}

#[derive(Default)]
pub struct Ctx {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub case_seed: u64,
    pub thorough: bool,
    /// nothing further can be observed in this process
    pub fatal: bool,
}

pub const MAX_VIOLATIONS: usize = 3;

impl Ctx {
    pub fn count(&mut self, key: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(key) {
            *v += n;
        } else {
            self.counters.insert(key.to_string(), n);
        }
    }
    pub fn max(&mut self, key: &str, n: u64) {
        let key = format!("max_{key}");
        let v = self.counters.entry(key).or_insert(0);
        *v = (*v).max(n);
    }
    /// One evaluated case, identified by a hash of its input.
    pub fn evaluated(&mut self, hash: u64, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(hash);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 3 {
            let v = f();
            self.samples.push(v);
        }
    }
    pub fn violate(&mut self, message: impl Into<String>, detail: Value) {
        if self.violations.len() < MAX_VIOLATIONS {
            self.violations.push(Violation {
                case_seed: self.case_seed,
                message: message.into(),
                detail,
            });
        }
    }
    pub fn stop(&self) -> bool {
        self.fatal || self.violations.len() >= MAX_VIOLATIONS
    }
    pub fn to_json(&self) -> Value {
        json!({
            "evaluations": self.evaluations,
            "distinct": self.distinct.iter().map(|v| format!("{v:016x}")).collect::<Vec<_>>(),
            "counters": self.counters,
            "samples": self.samples,
            "violations": self.violations.iter().map(|v| json!({
                "case_seed": v.case_seed.to_string(), "message": v.message, "detail": v.detail
            })).collect::<Vec<_>>(),
        })
    }
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h = (h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    crate::prng::mix(h)
}

/// A long text shortened for a report.
pub fn short(text: &str) -> String {
    let n = text.chars().count();
    if n <= 400 {
        text.to_string()
    } else {
        format!("{}… ({n} chars)", text.chars().take(400).collect::<String>())
    }
}
