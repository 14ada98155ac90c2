#[allow(dead_code)]
pub mod vpc {
  use std::collections::{BTreeMap, BTreeSet};
  pub fn env(k: &str, d: &str) -> String { std::env::var(k).unwrap_or_else(|_| d.to_string()) }
  pub fn thorough() -> bool { env("VP_TIER", "quick") == "thorough" }
  pub fn seed() -> u64 { env("VP_SEED", "1").parse().unwrap_or(1) }
  pub struct Rng(pub u64);
  impl Rng {
    pub fn new(salt: u64) -> Self { Rng(seed().wrapping_mul(0x9E3779B97F4A7C15) ^ salt.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567) }
    pub fn next(&mut self) -> u64 {
      self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
      let mut z = self.0;
      z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
      z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
      z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n.max(1) as u64)) as usize }
    pub fn flip(&mut self) -> bool { self.next() & 1 == 1 }
  }
  pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
      match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o
  }
  /// Counts what ran, keeps a few samples and reports failing inputs.
  pub struct Rep { pub evals: u64, pub seen: BTreeSet<u64>, pub bad: u64, pub nsample: u64, pub kinds: BTreeMap<String, u64> }
  pub fn h(s: &str) -> u64 { let mut x = 0xcbf29ce484222325u64; for b in s.bytes() { x ^= b as u64; x = x.wrapping_mul(0x100000001b3); } x }
  impl Rep {
    pub fn new() -> Self { Rep { evals: 0, seen: BTreeSet::new(), bad: 0, nsample: 0, kinds: BTreeMap::new() } }
    pub fn case(&mut self, kind: &str, input: &str) {
      self.evals += 1;
      *self.kinds.entry(kind.to_string()).or_default() += 1;
      if self.seen.len() < 2_000_000 { self.seen.insert(h(input)); }
      if self.nsample < 3 && self.evals % 97 == 1 { self.nsample += 1; println!("VP-SAMPLE {{\"kind\":\"{}\",\"input\":\"{}\"}}", esc(kind), esc(input)); }
    }
    pub fn count(&mut self, kind: &str) { self.evals += 1; *self.kinds.entry(kind.to_string()).or_default() += 1; }
    pub fn bad(&mut self, key: &str, input: &str, want: &str, got: &str) {
      self.bad += 1;
      if self.bad <= 10 {
        println!("VP-BAD {{\"key\":\"{}\",\"input\":\"{}\",\"expected\":\"{}\",\"got\":\"{}\"}}", esc(key), esc(input), esc(want), esc(got));
      }
    }
    pub fn done(&self) {
      let k = self.kinds.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(",");
      println!("VP-STAT {{\"evaluations\":{},\"distinct_inputs\":{},\"failing\":{},\"by_kind\":{{{}}}}}", self.evals, self.seen.len(), self.bad, k);
    }
  }
}
