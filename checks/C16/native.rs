include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
use vpc::*;
use super::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

/// Stands in for cargo: makes the project, and answers as the comments of the program say. It only writes in its own directory and the log directory.
const CARGO: &str = r##"#!/bin/sh
if [ "$1" = new ]; then
  [ -f "$VP16_LOG/fail-new" ] && exit 1
  echo "$*" > "$VP16_LOG/new"
  mkdir -p example/src; echo 'fn main() { println!("Hello, world!"); }' > example/src/main.rs; exit 0
fi
all="$*"; sum=`cksum < src/main.rs | cut -d' ' -f1,2`; op=
shift; for a in "$@"; do case "$a" in -*) ;; *) op="$a"; break ;; esac; done
id=`sed -n 's,^//@id=,,p' src/main.rs`
kind=`sed -n "s,^//@op-$op=,,p" src/main.rs`
echo "$all|`basename \`pwd\``|$SYSROOT|$MIRI_SYSROOT|$LD_LIBRARY_PATH|$sum" >> "$VP16_LOG/run-$id"
case "$kind" in
  obj) echo "{\"args\":\"$all\",\"sum\":\"$sum\"}" ;;
  ok) echo "{\"Ok\":{\"Err\":1,\"sum\":\"$sum\"},\"type\":\"Fine\"}" ;;
  arr) echo "[{\"Ok\":\"$sum\"},{\"Ok\":{\"Err\":2}}]" ;;
  empty) echo "[]" ;;
  scalar) echo "3" ;;
  text) echo "\"Err\"" ;;
  typ) echo "{\"type\":7,\"sum\":\"$sum\"}" ;;
  big) echo "{\"sum\":\"$sum\",\"big\":\"`head -c 200000 /dev/zero | tr '\\0' x`\"}" ;;
  bignoise) head -c 200000 /dev/zero | tr '\0' x >&2; echo "{\"sum\":\"$sum\"}" ;;
  noise) echo "{\"sum\":\"$sum\"}"; echo '{"Err":1}' >&2 ;;
  err) echo '{"Err":{"type":"AnalysisError"}}' ;;
  errnull) echo '{"Err":null}' ;;
  errarr) echo "[{\"Ok\":\"$sum\"},{\"Err\":2}]" ;;
  errarr0) echo "[{\"Err\":2}]" ;;
  build) echo '{"type":"BuildError","error":"e"}' ;;
  exit1) echo "{\"sum\":\"$sum\"}"; exit 1 ;;
  signal) echo "{\"sum\":\"$sum\"}"; kill -9 $$ ;;
  garbage) echo "warning: not JSON" ;;
  half) echo '{"sum":' ;;
  two) echo "{\"sum\":\"$sum\"} {}" ;;
  nothing) ;;
  bytes) printf '"\377\376"\n' ;;
  hang) echo "{\"sum\":\"$sum\"}"; exec sleep 14 ;;
  *) exit 3 ;;
esac
"##;
const GOOD: [&str; 10] = ["big", "bignoise", "obj", "ok", "arr", "empty", "scalar", "text", "typ", "noise"];
const BAD: [&str; 12] = ["err", "errnull", "errarr", "errarr0", "build", "exit1", "signal", "garbage", "half", "two", "nothing", "bytes"];

fn attrs(html: &str) -> Option<BTreeMap<String, String>> {
  let mut s = html.strip_prefix("<div")?.strip_suffix("></div>")?;
  let mut m = BTreeMap::new();
  while !s.is_empty() {
    s = s.strip_prefix(' ')?;
    let (k, r) = s.split_once("=\"")?;
    let (v, r) = r.split_once('"')?;
    let v = v.replace("&quot;", "\"").replace("&lt;", "<").replace("&gt;", ">").replace("&#x27;", "'").replace("&amp;", "&");
    if m.insert(k.to_string(), v).is_some() { return None; }
    s = r;
  }
  Some(m)
}
fn runs(log: &Path, id: usize) -> Vec<String> { fs::read_to_string(log.join(format!("run-{id}"))).unwrap_or_default().lines().map(String::from).collect() }
fn cksum(code: &str) -> String { let d = std::env::temp_dir().join(format!("vp-c16-sum-{}", std::process::id())); fs::write(&d, code).unwrap(); let o = Command::new("sh").arg("-c").arg("cksum < \"$0\" | cut -d' ' -f1,2").arg(&d).output().unwrap(); let _ = fs::remove_file(&d); String::from_utf8(o.stdout).unwrap().trim().to_string() }
fn answer(kind: &str, args: &str, sum: &str) -> serde_json::Value {
  use serde_json::json;
  match kind { "obj" => json!({"args": args, "sum": sum}), "ok" => json!({"Ok": {"Err": 1, "sum": sum}, "type": "Fine"}), "arr" => json!([{"Ok": sum}, {"Ok": {"Err": 2}}]),
    "empty" => json!([]), "scalar" => json!(3), "text" => json!("Err"), "big" => json!({"sum": sum, "big": "x".repeat(200000)}), "typ" => json!({"type": 7, "sum": sum}), _ => json!({"sum": sum}) }
}

struct Case { id: usize, ops: Vec<(String, &'static str)>, cfg: Vec<(String, String)>, code: String }
impl Case {
  fn make(g: &mut Rng, id: usize, good: bool) -> Case {
    let pool = ["permissions", "interpreter", "stepper", "boundaries"];
    let n = 1 + g.below(3);
    let mut ops: Vec<(String, &'static str)> = vec![];
    for i in 0..n { let mut k = pool[g.below(4)].to_string(); if ops.iter().any(|o| o.0 == k) { k = format!("{k}{i}"); } ops.push((k, GOOD[g.below(GOOD.len())])); }
    if !good { let i = g.below(n); ops[i].1 = BAD[g.below(BAD.len())]; }
    let mut cfg = vec![];
    for _ in 0..g.below(4) { let (k, v) = [("shouldFail", "true"), ("shouldFail", "false"), ("showFlows", "true"), ("boundaries", "true"), ("x", "a\"b<&>'"), ("shouldfail", "true"), ("showFlow", "x")][g.below(7)]; cfg.push((k.to_string(), v.to_string())); }
    let mut code = format!("//@id={id}\n");
    for (o, k) in &ops { code += &format!("//@op-{o}={k}\n"); }
    code += ["fn main() {}", "fn main() { let s = \"é\\\"<b>&amp;\"; }", "fn f<'a>(x: &'a str) {}\n\nfn main() {\n  f(\"x\");\n}"][g.below(3)];
    Case { id, ops, cfg, code }
  }
  fn block(&self) -> AquascopeBlock { AquascopeBlock { operations: self.ops.iter().map(|o| o.0.clone()).collect(), config: self.cfg.clone(), code: self.code.clone(), annotations: Default::default() } }
  fn args(&self, op: &str) -> String {
    let has = |k: &str| self.cfg.iter().any(|c| c.0 == k);
    format!("aquascope {}{op}{}", if has("shouldFail") { "--should-fail " } else { "" }, if has("showFlows") { " --show-flows" } else { "" })
  }
  fn log(&self, upto: usize) -> Vec<String> { let sum = cksum(&self.code); self.ops[..upto].iter().map(|o| format!("{}|example|/sys|/sys|/lib-x|{sum}", self.args(&o.0))).collect() }
  /// how many of its operations run before the answer is known
  fn fails_at(&self) -> Option<usize> { self.ops.iter().position(|o| !GOOD.contains(&o.1)) }
  fn show(&self) -> String { format!("{:?} {:?} {}", self.ops, self.cfg, self.code.lines().last().unwrap()) }
  fn check_html(&self, rep: &mut Rep, html: &str) {
    let Some(a) = attrs(html) else { rep.bad("html", &self.show(), "one element", html); return };
    let j = |k: &str| a.get(k).and_then(|v| serde_json::from_str::<serde_json::Value>(v).ok());
    let keys: BTreeSet<&str> = a.keys().map(|s| s.as_str()).collect();
    let want: BTreeSet<&str> = ["class", "data-code", "data-annotations", "data-operations", "data-responses", "data-config", "data-no-interact"].into();
    if keys != want { rep.bad("attributes", &self.show(), &format!("{want:?}"), &format!("{keys:?}")); }
    if a.get("class").map(|s| s.as_str()) != Some("aquascope-embed") { rep.bad("class", &self.show(), "aquascope-embed", &format!("{:?}", a.get("class"))); }
    let cfg: serde_json::Map<String, serde_json::Value> = self.cfg.iter().map(|(k, v)| (k.clone(), v.clone().into())).collect();
    let sum = cksum(&self.code);
    let res: serde_json::Map<String, serde_json::Value> = self.ops.iter().map(|(o, k)| (o.clone(), answer(k, &self.args(o), &sum))).collect();
    let ops: Vec<serde_json::Value> = self.ops.iter().map(|o| o.0.clone().into()).collect();
    for (k, w) in [("data-code", self.code.clone().into()), ("data-config", cfg.into()), ("data-responses", res.into()), ("data-operations", ops.into()), ("data-no-interact", true.into()),
                   ("data-annotations", serde_json::to_value(crate::annotations::AquascopeAnnotations::default()).unwrap())] {
      if j(k) != Some(w) { rep.bad(k, &self.show(), "as given", &format!("{:?}", a.get(k))); }
    }
  }
}

#[test]
fn vp_c16() {
  let mut rep = Rep::new();
  let mut g = Rng::new(16);
  let t0 = std::time::Instant::now();
  let home = std::env::current_dir().unwrap();
  let dir = std::env::temp_dir().join(format!("vp-c16-{}", std::process::id()));
  let (bin, log, tmp, book) = (dir.join("bin"), dir.join("log"), dir.join("tmp"), dir.join("book"));
  for d in [&bin, &log, &tmp, &book] { fs::create_dir_all(d).unwrap(); }
  fs::write(bin.join("cargo"), CARGO).unwrap();
  { use std::os::unix::fs::PermissionsExt; fs::set_permissions(bin.join("cargo"), fs::Permissions::from_mode(0o755)).unwrap(); }
  std::env::set_var("PATH", format!("{}:{}", bin.display(), std::env::var("PATH").unwrap()));
  std::env::set_var("VP16_LOG", &log);
  std::env::set_var("TMPDIR", &tmp);
  std::env::set_current_dir(&book).unwrap();
  let load = || AquascopePreprocessor { miri_sysroot: PathBuf::from("/sys"), target_libdir: PathBuf::from("/lib-x"), cache: RwLock::new(Cache::load().unwrap()) };
  let mut p = load();
  let n = if thorough() { 1500 } else { 140 };
  let mut id = 0;
  for t in 0..n {
    id += 1;
    let mut c = Case::make(&mut g, id, t % 3 != 0);
    if t < BAD.len() * 2 { let k = BAD[t / 2]; c = Case::make(&mut g, id, true); let i = g.below(c.ops.len()); let (o, old) = c.ops[i].clone(); c.code = c.code.replace(&format!("//@op-{o}={old}\n"), &format!("//@op-{o}={k}\n")); c.ops[i].1 = k; if t % 2 == 1 { c.cfg = vec![]; } }
    rep.case("block", &c.show());
    let r = p.process_code(c.block());
    match (c.fails_at(), &r) {
      (Some(i), Ok(h)) => rep.bad("failure shown", &c.show(), &format!("an error: operation {i} is not answered"), h),
      (None, Err(e)) => rep.bad("answer lost", &c.show(), "an element", &e.to_string()),
      (None, Ok(h)) => c.check_html(&mut rep, h),
      _ => {}
    }
    let want = c.log(c.fails_at().map_or(c.ops.len(), |i| i + 1));
    if runs(&log, c.id) != want { rep.bad("runs", &c.show(), &format!("{want:?}"), &format!("{:?}", runs(&log, c.id))); }
    if fs::read_to_string(log.join("new")).unwrap_or_default().trim() != "new --bin example" { rep.bad("new", &c.show(), "cargo new --bin example", "something else"); }
    // again: an answer comes from the cache, a failure is tried again
    if g.below(4) == 0 { p.save_cache(); if g.flip() { p = load(); } }
    let r = p.process_code(c.block());
    match (c.fails_at(), &r) {
      (Some(_), Ok(h)) => rep.bad("failure cached", &c.show(), "an error", h),
      (None, Err(e)) => rep.bad("cached answer lost", &c.show(), "an element", &e.to_string()),
      (None, Ok(h)) => c.check_html(&mut rep, h),
      _ => {}
    }
    let want2: Vec<String> = if c.fails_at().is_some() { want.iter().chain(&want).cloned().collect() } else { want.clone() };
    if runs(&log, c.id) != want2 { rep.bad("rerun", &c.show(), &format!("{} runs", want2.len()), &format!("{} runs", runs(&log, c.id).len())); }
    // a block that differs in its options, operations or code is not answered with this one's answers
    let mut d = Case { id: c.id, ops: c.ops.clone(), cfg: c.cfg.clone(), code: c.code.clone() };
    match g.below(4) {
      0 => { if d.cfg.iter().any(|k| k.0 == "shouldFail") { d.cfg.retain(|k| k.0 != "shouldFail"); } else { d.cfg.push(("shouldFail".into(), "true".into())); } }
      1 => { if d.cfg.iter().any(|k| k.0 == "showFlows") { d.cfg.retain(|k| k.0 != "showFlows"); } else { d.cfg.push(("showFlows".into(), "true".into())); } }
      2 => { if d.ops.len() > 1 { d.ops.pop(); } else { d.ops.push(("boundariesx".into(), "obj")); d.code = d.code.replacen('\n', "\n//@op-boundariesx=obj\n", 1); } }
      _ => { d.code += "\n// more"; }
    }
    let before = runs(&log, d.id).len();
    let r = p.process_code(d.block());
    match (d.fails_at(), &r) {
      (Some(_), Ok(h)) => rep.bad("failure shown", &d.show(), "an error", h),
      (None, Err(e)) => rep.bad("answer lost", &d.show(), "an element", &e.to_string()),
      (None, Ok(h)) => d.check_html(&mut rep, h),
      _ => {}
    }
    let want = d.log(d.fails_at().map_or(d.ops.len(), |i| i + 1));
    let got = runs(&log, d.id)[before..].to_vec();
    if got != want { rep.bad("other block", &d.show(), &format!("{want:?}"), &format!("{got:?}")); }
    if rep.bad > 20 || t0.elapsed().as_secs() > 400 { break; }
  }
  // no project, no answer
  {
    fs::write(log.join("fail-new"), "").unwrap();
    id += 1;
    let c = Case::make(&mut g, id, true);
    rep.case("project", &c.show());
    if let Ok(h) = p.process_code(c.block()) { rep.bad("no project", &c.show(), "an error", &h); }
    fs::remove_file(log.join("fail-new")).unwrap();
    match p.process_code(c.block()) { Ok(h) => c.check_html(&mut rep, &h), Err(e) => rep.bad("answer lost", &c.show(), "an element", &e.to_string()) }
  }
  // a run that does not end
  {
    id += 1;
    let mut c = Case::make(&mut g, id, true);
    let (o, old) = c.ops[0].clone();
    c.code = c.code.replace(&format!("//@op-{o}={old}\n"), &format!("//@op-{o}=hang\n")); c.ops[0].1 = "hang";
    rep.case("hang", &c.show());
    if let Ok(h) = p.process_code(c.block()) { rep.bad("timeout", &c.show(), "an error", &h); }
    if p.cache.read().unwrap().get(&c.block()).is_some() { rep.bad("timeout", &c.show(), "nothing cached", "an answer"); }
  }
  // whole pages: every block and every inline permission is replaced, once, at its place; one failing block fails the page
  for _ in 0..(if thorough() { 300 } else { 40 }) {
    let mut page = String::from("# Page\n");
    let mut want: Vec<(std::ops::Range<usize>, Option<Case>)> = vec![];
    let nb = g.below(4); let fail = g.below(4) == 0; let which = g.below(nb.max(1));
    for i in 0..nb {
      id += 1;
      let c = Case::make(&mut g, id, !(fail && i == which));
      let mut s = format!("```aquascope,{}", c.ops.iter().map(|o| o.0.clone()).collect::<Vec<_>>().join("+"));
      let mut c = c; c.cfg.retain(|k| k.0 != "x");
      for (k, v) in &c.cfg { s += &format!(",{k}={v}"); }
      s += &format!("\n{}\n```", c.code);
      let from = page.len(); page += &s; want.push((from..page.len(), Some(c))); page += "\ntext\n";
      if g.flip() { let from = page.len(); page += "@Perm{own}"; want.push((from..page.len(), None)); page += " é\n"; }
    }
    rep.case("page", &page);
    match p.replacements(&page) {
      Err(e) => if !(fail && nb > 0) { rep.bad("page", &page, "its replacements", &e.to_string()); },
      Ok(mut v) => {
        if fail && nb > 0 { rep.bad("page", &page, "an error", "replacements"); continue; }
        v.sort_by_key(|x| x.0.start);
        if v.iter().map(|x| x.0.clone()).collect::<Vec<_>>() != want.iter().map(|x| x.0.clone()).collect::<Vec<_>>() { rep.bad("places", &page, &format!("{:?}", want.iter().map(|x| &x.0).collect::<Vec<_>>()), &format!("{:?}", v.iter().map(|x| &x.0).collect::<Vec<_>>())); continue; }
        for (x, w) in v.iter().zip(&want) { match &w.1 { Some(c) => c.check_html(&mut rep, &x.1), None => if x.1 != "<span class=\"perm own\">O</span>" { rep.bad("perm", &page, "own", &x.1); } } }
      }
    }
    if rep.bad > 20 || t0.elapsed().as_secs() > 400 { break; }
  }
  std::env::set_current_dir(&home).unwrap();
  let _ = fs::remove_dir_all(&dir);
  rep.done();
}
