//! What a check observed: counters, evaluations and their identities.

use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
pub struct Obs {
    pub counters: BTreeMap<String, u64>,
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    /// set by the case that should be shown as a sample
    pub interesting: bool,
}

impl Obs {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max {k}");
        let c = self.counters.entry(k).or_insert(0);
        *c = (*c).max(n);
    }
    /// One execution judged; `id` identifies what was executed.
    pub fn eval(&mut self, id: u64, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.nontrivial.insert(id);
            self.interesting = true;
        }
    }
    pub fn events(&mut self, evs: &[crate::ev::Ev]) {
        for e in evs {
            self.count(e.kind(), 1);
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    (a ^ b.wrapping_mul(0x9E3779B97F4A7C15))
        .rotate_left(29)
        .wrapping_mul(0xBF58476D1CE4E5B9)
}
