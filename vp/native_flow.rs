// Random control flow over a few variables: needs vpc (native_common.rs) beside it.
#[allow(dead_code)]
pub mod vpf {
  use super::vpc::Rng;
  pub struct Gen<'a> { r: &'a mut Rng, loops: usize, n: usize }
  impl Gen<'_> {
    fn cond(&mut self) -> String { let k = self.r.below(9); match k { 0 => "c && d".into(), 1 => "c || n > 3".into(), 2 => "!d".into(), 3 => format!("n > {}", self.n), 4 => "if c { d } else { n > 1 }".into(), 5 => "let Some(k) = o".into(), 6 => "match n { 0 => c, 1 => d, _ => true }".into(), 7 => "{ take(n); c }".into(), _ => "c".into() } }
    fn pat(&mut self) -> (&'static str, Vec<&'static str>) {
      match self.r.below(6) {
        0 => ("n", vec!["0", "1 | 2", "3 ..= 9", "_"]),
        1 => ("o", vec!["Some(0)", "Some(k)", "None"]),
        2 => ("(c, d)", vec!["(true, true)", "(false, _)", "(_, false)"]),
        3 => ("(o, n)", vec!["(Some(a), 0)", "(Some(1), b)", "(None, _)", "(_, _)"]),
        4 => ("n", vec!["y"]),
        _ => ("o.map(|x| x > 3)", vec!["Some(true)", "Some(false)", "None"]),
      }
    }
    fn stmt(&mut self, d: usize) -> String {
      self.n += 1; let n = self.n;
      let top = if d == 0 { 6 } else { 16 };
      match self.r.below(top) {
        0 => format!("let v{n} = n + {n};"), 1 => "take(n);".into(), 2 => format!("n += {n};"), 3 => format!("let v{n} = String::new(); take(v{n});"),
        4 => match self.r.below(5) { 0 if self.loops > 0 => "continue;".into(), 1 if self.loops > 0 => "break;".into(), 2 => "return n;".into(), 3 => "panic!();".into(), _ => format!("let v{n} = &mut n; *v{n} = 1;") },
        5 => "o = None;".into(),
        6 | 7 => { let c = self.cond(); let b = self.block(d - 1); format!("if {c} {b}") }
        8 | 9 => { let c = self.cond(); let b = self.block(d - 1); let e = self.block(d - 1); format!("if {c} {b} else {e}") }
        10 => { let c = self.cond(); self.loops += 1; let b = self.block(d - 1); self.loops -= 1; format!("while {c} {b}") }
        11 => { self.loops += 1; let b = self.block(d - 1); self.loops -= 1; if self.r.below(2) == 0 { format!("loop {b}") } else { format!("for v{n} in 0 .. n {b}") } }
        12 | 13 => { let (s, ps) = self.pat(); let arms: Vec<String> = ps.iter().map(|p| format!("{p} => {}", self.block(d - 1))).collect(); format!("match {s} {{ {} }}", arms.join(" ")) }
        14 => { let c = self.cond(); let (a, b) = (self.val(d - 1), self.val(d - 1)); format!("let v{n} = if {c} {{ {a} }} else {{ {b} }}; take(v{n});") }
        _ => { let (s, ps) = self.pat(); let arms: Vec<String> = ps.iter().map(|p| format!("{p} => {},", self.val(d - 1))).collect(); format!("let v{n} = match {s} {{ {} }}; take(v{n});", arms.join(" ")) }
      }
    }
    fn val(&mut self, d: usize) -> String {
      match self.r.below(8) { 0 => "return 3".into(), 1 if self.loops > 0 => "continue".into(), 2 if self.loops > 0 => "break".into(), 3 => "panic!()".into(), 4 if d > 0 => { let b = self.block(d - 1); format!("{{ {b} n }}") } 5 if d > 0 => { let c = self.cond(); let (a, b) = (self.val(d - 1), self.val(d - 1)); format!("if {c} {{ {a} }} else {{ {b} }}") } _ => "n".into() }
    }
    fn block(&mut self, d: usize) -> String { let k = 1 + self.r.below(2); let s: Vec<String> = (0 .. k).map(|_| self.stmt(d)).collect(); format!("{{ {} }}", s.join(" ")) }
  }
  /// ten functions, the deeper ones later
  pub fn program(r: &mut Rng, i: usize) -> String {
    let mut src = "#![allow(warnings)]\nfn take<T>(_: T) {}\n".to_string();
    for k in 0 .. 10 {
      let d = 1 + k % 3;
      let mut g = Gen { r: &mut *r, loops: 0, n: 0 };
      let (b, more) = (g.block(d), g.block(d));
      src += &format!("fn g{i}_{k}(c: bool, d: bool, mut n: i32, mut o: Option<i32>) -> i32 {{ {b} {more} n }}\n");
    }
    src
  }
}
