include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
use vpc::*;
use super::*;

/// Scans by hand; the byte range of each markup and what it becomes (None: refused).
fn want(s: &str) -> Vec<(usize, usize, Option<String>)> {
  let b = s.as_bytes();
  let mut out = vec![];
  let mut i = 0;
  while i < b.len() {
    if !s.is_char_boundary(i) || !s[i..].starts_with("@Perm") { i += 1; continue; }
    let mut j = i + 5;
    let mut opt = None;
    if s[j..].starts_with('[') { if let Some(k) = s[j..].find(']') { opt = Some(s[j + 1..j + k].to_string()); j += k + 1; } }
    if !s[j..].starts_with('{') { i += 1; continue; }
    let Some(k) = s[j..].find('}') else { i += 1; continue; };
    let p = &s[j + 1..j + k];
    let end = j + k + 1;
    let letter = match p { "read" => "R", "write" => "W", "own" => "O", "flow" => "F", _ => "" };
    let plain = format!("<span class=\"perm {p}\">{letter}</span>");
    let html = if letter.is_empty() { None } else {
      match opt.as_deref() {
        None => Some(plain),
        Some("gained") => Some(format!("<span><span class=\"perm-diff-add\">+</span>{plain}</span>")),
        Some("lost") => Some(format!("<span class=\"perm-diff-sub-container\"><div class=\"perm-diff-sub\"></div>{plain}</span>")),
        Some("missing") => Some(format!("<span class=\"perm missing {p}\">{letter}</span>")),
        _ => None,
      }
    };
    out.push((i, end, html));
    i = end;
  }
  out
}

const PARTS: &[&str] = &["@Perm{read}", "@Perm{write}", "@Perm{own}", "@Perm{flow}", "@Perm[gained]{read}", "@Perm[lost]{own}", "@Perm[missing]{write}", "@Perm[gain]{read}", "@Perm[]{own}", "@Perm[lost ]{flow}",
  "@Perm{x}", "@Perm{}", "@Perm{READ}", "@Perm", "@Perm[lost]", "@Perm[lost", "@perm{read}", "{read}", "é", " ", "\n", "@", "[gained]", "}", "{", "]", "@Perm[a]]{own}", "text", "日", "@Perm[\n]{own}", "@Perm{ read}", "@Perm[missing]{flow}", "@Perm[Lost]{own}"];

#[test]
fn vp_c14() {
  std::panic::set_hook(Box::new(|_| {}));
  let mut rep = Rep::new();
  let mut g = Rng::new(14);
  let mut one = |s: &str, rep: &mut Rep| {
    rep.case("text", s);
    let w = want(s);
    let r = std::panic::catch_unwind(|| parse_perms(s).map(|r| r.ok()).collect::<Vec<_>>());
    match r {
      Err(_) => rep.bad("panic", s, &format!("{w:?}"), "a panic"),
      Ok(v) => {
        let ok = v.len() == w.len() && v.iter().zip(&w).all(|(a, b)| match (a, &b.2) { (Some((r, t)), Some(h)) => r.start == b.0 && r.end == b.1 && t == h, (None, None) => true, _ => false });
        if !ok { rep.bad("markup", s, &format!("{w:?}"), &format!("{v:?}")); }
      }
    }
  };
  for a in PARTS { one(a, &mut rep); for b in PARTS { one(&format!("{a}{b}"), &mut rep); one(&format!("{a} {b}"), &mut rep); } }
  let n = if thorough() { 2_000_000 } else { 40_000 };
  for _ in 0..n {
    let mut s = String::new();
    for _ in 0..g.below(9) { s.push_str(PARTS[g.below(PARTS.len())]); }
    one(&s, &mut rep);
  }
  rep.done();
}
