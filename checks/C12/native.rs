include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
use vpc::*;
use super::*;

#[derive(Debug, PartialEq, Default)]
struct Want {
  out: String,
  hidden: Vec<usize>,
  locs: Vec<usize>,
  focus: Vec<usize>,
  bounds: Vec<usize>,
  paths: std::collections::BTreeMap<usize, Vec<String>>,
}

/// The same thing, character by character and without regular expressions.
fn want(code: &str) -> Want {
  let mut w = Want::default();
  let mut chars = 0;
  let lines: Vec<&str> = code.lines().collect();
  for (n, l) in lines.iter().enumerate() {
    if n > 0 { w.out.push('\n'); chars += 1; }
    let c: Vec<char> = l.chars().collect();
    if c.first() == Some(&'#') {
      w.hidden.push(n + 1);
      for x in &c[1..] { w.out.push(*x); chars += 1; }
      continue;
    }
    if c.len() > 1 && c[0] == '\\' && c[1] == '#' {
      for x in &c[1..] { w.out.push(*x); chars += 1; }
      continue;
    }
    let mut i = 0;
    while i < c.len() {
      let close = if c[i] == '`' && i + 1 < c.len() { match c[i + 1] { '[' => Some(']'), '(' => Some(')'), '{' => Some('}'), _ => None } } else { None };
      if let Some(cl) = close {
        let mut j = i + 2;
        while j < c.len() && c[j] != cl { j += 1; }
        if j + 1 < c.len() && c[j + 1] == '`' {
          let inner: String = c[i + 2..j].iter().collect();
          match cl {
            ']' => w.locs.push(chars),
            '}' => w.bounds.push(n + 1),
            _ => {
              let mut m = std::collections::BTreeMap::new();
              for part in inner.split(',') {
                if part.is_empty() { continue; }
                match part.find(':') { Some(k) => m.insert(part[..k].to_string(), part[k + 1..].to_string()), None => m.insert(part.to_string(), String::new()) };
              }
              if m.contains_key("focus") { w.focus.push(n + 1); }
              if let Some(p) = m.get("paths") { w.paths.entry(n + 1).or_default().push(format!("L{p}")); }
              if let Some(p) = m.get("rxpaths") { w.paths.entry(n + 1).or_default().push(format!("R{p}")); }
            }
          }
          i = j + 2;
          continue;
        }
      }
      w.out.push(c[i]);
      chars += 1;
      i += 1;
    }
  }
  w
}

fn got(code: &str) -> Option<Want> {
  let (out, a) = parse_annotations(code).ok()?;
  Some(Want {
    out,
    hidden: a.hidden_lines.iter().map(|l| l.0).collect(),
    locs: a.interp.state_locations.iter().map(|l| l.0).collect(),
    focus: a.stepper.focused_lines.iter().map(|l| l.0).collect(),
    bounds: a.boundaries.focused_lines.iter().map(|l| l.0).collect(),
    paths: a.stepper.focused_paths.iter().map(|(k, v)| (k.0, v.iter().map(|m| match m { PathMatcher::Literal(s) => format!("L{s}"), PathMatcher::Regex(s) => format!("R{s}") }).collect())).collect(),
  })
}

const PARTS: &[&str] = &["let x = 1;", "é", "日本", "`[]`", "`[a]`", "`(focus)`", "`(paths:x)`", "`(focus,paths:*x,rxpaths:s.*:y)`", "`(rxpaths:y$,,focus:no)`", "`{}`", "`{b}`", "`", "#", "\\#", "\\",
  " ", "[", "]`", "`(", "`[", "(a)", "`(paths:a,paths:b)`", "x", "}", "`{x", "😀", "``", "`(é:focus,paths:日)`", ":", ",", "#[derive(Clone)]", "`[", "]", "\t", "`(paths: a b )`", "`( paths:a,rxpaths:\tb)`", "`( focus )`", "`(focus )`", "`(paths:)`", "`(:a)`", "`( )`", " `[]` "];

#[test]
fn vp_c12() {
  std::panic::set_hook(Box::new(|_| {}));
  let mut rep = Rep::new();
  let mut g = Rng::new(12);
  let mut one = |code: &str, kind: &str, rep: &mut Rep| {
    rep.case(kind, code);
    let w = want(code);
    match std::panic::catch_unwind(|| got(code)) {
      Ok(Some(o)) => if o != w { rep.bad("annotations", code, &format!("{w:?}"), &format!("{o:?}")); },
      Ok(None) => rep.bad("error", code, &format!("{w:?}"), "an error"),
      Err(_) => rep.bad("panic", code, &format!("{w:?}"), "a panic"),
    }
    // what a marker's position means: the output before it, and nothing of the marker, in characters
    if let Ok(Some(o)) = std::panic::catch_unwind(|| got(code)) {
      let n = o.out.chars().count();
      for l in &o.locs { if *l > n { rep.bad("outside", code, "a position inside the output", &l.to_string()); } }
    }
  };
  // every sequence of up to two lines of up to two parts
  for a in PARTS { for b in PARTS { one(&format!("{a}{b}"), "line", &mut rep); one(&format!("{a}\n{b}"), "lines", &mut rep); } }
  let n = if thorough() { 400_000 } else { 5_000 };
  for _ in 0..n {
    let mut s = String::new();
    for l in 0..1 + g.below(5) {
      if l > 0 { s.push('\n'); }
      for _ in 0..g.below(6) { s.push_str(PARTS[g.below(PARTS.len())]); }
    }
    one(&s, "random", &mut rep);
  }
  rep.done();
}
