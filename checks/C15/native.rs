include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
use vpc::*;
use super::*;
use crate::block::AquascopeBlock;
use std::collections::BTreeMap;

fn blk(ops: &[&str], cfg: &[(&str, &str)], code: &str) -> AquascopeBlock {
  AquascopeBlock { operations: ops.iter().map(|s| s.to_string()).collect(), config: cfg.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), code: code.to_string(), annotations: Default::default() }
}

#[test]
fn vp_c15() {
  let mut rep = Rep::new();
  let mut g = Rng::new(15);
  let dir = std::env::temp_dir().join(format!("vp-c15-{}", std::process::id()));
  std::fs::create_dir_all(&dir).unwrap();
  let home = std::env::current_dir().unwrap();
  std::env::set_current_dir(&dir).unwrap();

  // keys: equal blocks hash alike, different ones differently
  let mut all = vec![];
  let words = ["", "a", "b", "ab", "a+b", "true"];
  let opss: Vec<Vec<&str>> = words.iter().map(|w| vec![*w]).chain(words.iter().flat_map(|a| words.iter().map(move |b| vec![*a, *b]))).chain([vec![]]).collect();
  let cfgs: Vec<Vec<(&str, &str)>> = vec![vec![], vec![("a", "b")], vec![("b", "a")], vec![("a", "")], vec![("", "a")], vec![("ab", "")], vec![("a", "true")], vec![("a", "b"), ("a", "b")], vec![("shouldFail", "true")], vec![("showFlows", "true")], vec![("shouldFail", "true"), ("showFlows", "true")], vec![("shouldFail", "false")]];
  for o in &opss { for c in &cfgs { for k in ["", "a", "ab", "fn main() {}", "fn main() { }", "fn main() {\n}"] { all.push(blk(o, c, k)); } } }
  let mut by: BTreeMap<u64, usize> = BTreeMap::new();
  for (i, b) in all.iter().enumerate() {
    rep.count("key");
    if hash(b) != hash(&b.clone()) { rep.bad("unstable", &format!("{b:?}"), "one hash", "two"); }
    if let Some(j) = by.insert(hash(b), i) {
      if all[j] != *b { rep.bad("collision", &format!("{b:?}"), "a key of its own", &format!("{:?}", all[j])); }
    }
  }

  // histories
  let n = if thorough() { 3000 } else { 1500 };
  for t in 0..n {
    let _ = std::fs::remove_file(CACHE_PATH);
    let mut disk: BTreeMap<u64, String> = BTreeMap::new();
    let mut log = String::new();
    let mut c: Cache<u64, String> = match Cache::load() { Ok(c) => c, Err(e) => { rep.bad("load", "no file", "an empty cache", &e.to_string()); break; } };
    let mut m = disk.clone();
    for _ in 0..2 + g.below(10) {
      match g.below(7) {
        6 => {
          // the only change is to a key that is on disk
          let Some(k) = disk.keys().nth(g.below(disk.len().max(1))).copied() else { continue };
          let v = format!("n{}", g.below(99));
          log += &format!("load;set {k} {v};save;load;");
          drop(c); c = Cache::load().unwrap(); m = disk.clone();
          c.set(k, v.clone()); m.insert(k, v); if let Err(e) = c.save() { rep.bad("save", &log, "saved", &e.to_string()); } disk = m.clone();
          drop(c); c = Cache::load().unwrap();
        }
        0 | 1 => { let k = g.below(6) as u64; let v = "v".repeat(g.below(40)) + &g.below(9).to_string(); log += &format!("set {k} {v};"); c.set(k, v.clone()); m.insert(k, v); }
        2 => { log += "save;"; if let Err(e) = c.save() { rep.bad("save", &log, "saved", &e.to_string()); } disk = m.clone(); }
        3 => { log += "load;"; drop(c); c = Cache::load().unwrap(); m = disk.clone(); }
        4 => {
          log += "corrupt;";
          let mut b = std::fs::read(CACHE_PATH).unwrap();
          match g.below(4) { 0 => b.truncate(b.len() / 2), 1 => b = b"not gzip".to_vec(), 2 => b = vec![], _ => { if let Some(x) = b.get_mut(0) { *x = 0; } } }
          std::fs::write(CACHE_PATH, &b).unwrap();
          drop(c);
          match std::panic::catch_unwind(|| Cache::<u64, String>::load()) {
            Ok(Ok(x)) => c = x,
            Ok(Err(e)) => { rep.bad("corrupt", &log, "an empty cache", &e.to_string()); break; }
            Err(_) => { rep.bad("corrupt", &log, "an empty cache", "a panic"); break; }
          }
          disk.clear(); m.clear();
        }
        _ => {
          log += "unchanged save;";
          let mut d: Cache<u64, String> = Cache::load().unwrap();
          let before = std::fs::read(CACHE_PATH).unwrap();
          d.save().unwrap();
          if std::fs::read(CACHE_PATH).unwrap() != before { rep.bad("untouched", &log, "a file left alone", "a rewritten file"); }
        }
      }
      for k in 0..6u64 {
        let got = c.get(&k).cloned();
        // keys are hashed: what is stored under k
        let want = m.get(&k).cloned();
        if got != want { rep.bad("get", &log, &format!("{k} -> {want:?}"), &format!("{got:?}")); }
      }
    }
    rep.case("history", &format!("{t}:{log}"));
    if rep.bad > 20 { break; }
  }
  std::env::set_current_dir(&home).unwrap();
  let _ = std::fs::remove_dir_all(&dir);
  rep.done();
}
