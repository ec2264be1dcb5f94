//! What a case observed: counters, whether it was distinct and non-trivial, samples.

use std::collections::BTreeMap;

#[derive(Default)]
pub struct Ctx {
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub cases: Vec<(u64, bool)>, // (hash, non-trivial)
    pub sample: Option<String>,
    pub thorough: bool,
}

impl Ctx {
    pub fn add(&mut self, name: &str, n: usize) {
        *self.counters.entry(name.to_string()).or_insert(0) += n as u64;
    }

    pub fn max(&mut self, name: &str, n: usize) {
        let e = self.maxima.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n as u64);
    }

    /// One evaluated case
    pub fn case(&mut self, what: &str, nontrivial: bool) {
        self.cases.push((crate::rng::hash_str(what), nontrivial));
        if nontrivial && self.sample.is_none() {
            self.sample = Some(what.chars().take(600).collect());
        }
    }
}
