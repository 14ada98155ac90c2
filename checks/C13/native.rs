include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
use vpc::*;
use super::*;

type W = (usize, usize, Vec<String>, Vec<(String, String)>, String);

fn sym(s: &str, p: &mut usize) -> String {
  let n = s[*p..].find(|c| matches!(c, ',' | '=' | '\n' | '+')).map_or(s.len(), |k| *p + k);
  let r = s[*p..n].to_string();
  *p = n;
  r
}

/// One block at byte p, by hand.
fn block(s: &str, start: usize) -> Option<W> {
  if !s[start..].starts_with("```aquascope,") { return None; }
  let mut p = start + "```aquascope,".len();
  let mut ops = vec![sym(s, &mut p)];
  while s[p..].starts_with('+') { p += 1; ops.push(sym(s, &mut p)); }
  let mut cfg = vec![];
  while s[p..].starts_with(',') {
    p += 1;
    let k = sym(s, &mut p);
    if s[p..].starts_with('=') { p += 1; let v = sym(s, &mut p); cfg.push((k, v)); } else { cfg.push((k, "true".to_string())); }
  }
  let k = s[p..].find("```")?;
  let code = s[p..p + k].trim().to_string();
  Some((start, p + k + 3, ops, cfg, code))
}

fn want(s: &str) -> Vec<W> {
  let mut out = vec![];
  let mut p = 0;
  while p < s.len() {
    if let Some(b) = block(s, p) { p = b.1; out.push(b); } else { p += s[p..].chars().next().unwrap().len_utf8(); }
  }
  out
}

const PARTS: &[&str] = &["  indented\n", "\t", " ", "\n  x\n  y  \n", "\u{a0}", "\r\n", "a b", "```aquascope", ",interpreter", ",stepper", "+boundaries", ",a=b", ",flag", ",", "+", "=", "\n", "fn main() {}\n", "```", "``", "`", "text ", "é", "日本\n", "```rust\nx\n```", "```aquascope,interpreter\nlet x = 1;\n```", "```aquascope,stepper+boundaries,shouldFail,k=v\nlet y;\n```\n", "aquascope", "`[]`", "#hidden\n", " ",
  "```aquascope\nno op\n```", "@Perm{read}", "```aquascope,permissions,boundaries=true,stepper\n#fn main() {\nlet s = \"é\";\n#}\n```"];

#[test]
fn vp_c13() {
  std::panic::set_hook(Box::new(|_| {}));
  let mut rep = Rep::new();
  let mut g = Rng::new(13);
  let mut one = |s: &str, rep: &mut Rep| {
    rep.case("page", s);
    let w = want(s);
    match std::panic::catch_unwind(|| AquascopeBlock::parse_all(s)) {
      Err(_) => rep.bad("panic", s, &format!("{w:?}"), "a panic"),
      Ok(v) => {
        let ok = v.len() == w.len() && v.iter().zip(&w).all(|((r, b), (a, e, ops, cfg, code))| {
          let (clean, ann) = crate::annotations::parse_annotations(code).unwrap();
          r.start == *a && r.end == *e && b.operations == *ops && b.config == *cfg && b.code == clean && b.annotations == ann
        });
        if !ok { rep.bad("blocks", s, &format!("{w:?}"), &format!("{v:?}")); }
      }
    }
  };
  for a in PARTS { for b in PARTS { one(&format!("{a}{b}"), &mut rep); one(&format!("```aquascope,x{a}{b}```"), &mut rep); } }
  let n = if thorough() { 150_000 } else { 4_000 };
  for _ in 0..n {
    let mut s = String::new();
    for _ in 0..g.below(10) { s.push_str(PARTS[g.below(PARTS.len())]); }
    one(&s, &mut rep);
  }
  rep.done();
}
