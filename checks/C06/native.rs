// The real `smooth_elements` and the real `Bounded` impls, against a position-by-position oracle.
include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
use super::*;
use rustc_span::BytePos;
use rustc_utils::source_map::filename::FilenameIndex;
use vpc::*;

const N: u32 = 7;

trait Elt: Bounded + Copy {
  fn mk(lo: u32, hi: u32) -> Self;
  fn ends(&self) -> (u32, u32);
}
impl Elt for Span {
  fn mk(lo: u32, hi: u32) -> Self { Span::with_root_ctxt(BytePos(lo), BytePos(hi)) }
  fn ends(&self) -> (u32, u32) { (Span::lo(*self).0, Span::hi(*self).0) }
}
// a range's line and column both vary: position p is line p / 3, column p % 3
impl Elt for CharRange {
  fn mk(lo: u32, hi: u32) -> Self {
    let c = |p: u32| CharPos { line: (p / 3) as usize, column: (p % 3) as usize };
    CharRange { start: c(lo), end: c(hi), filename: FilenameIndex::from_u32(0) }
  }
  fn ends(&self) -> (u32, u32) {
    let c = |p: CharPos| (p.line * 3 + p.column) as u32;
    (c(self.start), c(self.end))
  }
}

/// every other span comes from a macro expansion
#[derive(Copy, Clone)] struct Mixed;
impl Mixed { fn spans(v: &[(u32, u32)]) -> Vec<Span> {
  let m = rustc_span::hygiene::LocalExpnId::fresh_empty().to_expn_id();
  v.iter().enumerate().map(|(i, &(a, b))| { let s = Span::with_root_ctxt(BytePos(a), BytePos(b)); if i % 2 == 1 { s.apply_mark(m, rustc_span::hygiene::Transparency::Opaque) } else { s } }).collect() } }

fn judge<T: Elt>(kind: &str, v: &[(u32, u32)], els: Vec<T>, rep: &mut Rep) {
  let input = format!("{kind} {v:?}");
  rep.case(kind, &input);
  let out = smooth_elements(els);
  let got: Vec<(u32, u32)> = out.iter().map(|e| e.ends()).collect();
  compare(&input, v, &got, rep);
}

fn check<T: Elt>(kind: &str, v: &[(u32, u32)], rep: &mut Rep) {
  judge::<T>(kind, v, v.iter().map(|&(a, b)| T::mk(a, b)).collect(), rep);
}

fn compare(input: &str, v: &[(u32, u32)], got: &[(u32, u32)], rep: &mut Rep) {
  // oracle: maximal runs of covered positions
  let mut want = vec![];
  let mut p = 0;
  let cov = |p: u32| v.iter().any(|&(a, b)| a <= p && p < b);
  while p <= 64 {
    if cov(p) {
      let s = p;
      while cov(p) { p += 1; }
      want.push((s, p));
    } else { p += 1; }
  }
  if got != want { rep.bad("smooth", input, &format!("{want:?}"), &format!("{got:?}")); }
}

fn all<T: Elt>(kind: &str, rep: &mut Rep) {
  let spans: Vec<(u32, u32)> = (0 .. N).flat_map(|a| (a + 1 ..= N).map(move |b| (a, b))).collect();
  check::<T>(kind, &[], rep);
  for &a in &spans {
    check::<T>(kind, &[a], rep);
    for &b in &spans {
      check::<T>(kind, &[a, b], rep);
      for &c in &spans { check::<T>(kind, &[a, b, c], rep); }
    }
  }
  let mut r = Rng::new(6);
  for _ in 0 .. if thorough() { 400_000 } else { 20_000 } {
    let n = 2 + r.below(9);
    let v: Vec<_> = (0 .. n).map(|_| { let a = r.below(50) as u32; (a, a + 1 + r.below(12) as u32) }).collect();
    check::<T>(kind, &v, rep);
  }
}

#[test]
fn vp_c06() {
  let mut rep = Rep::new();
  all::<Span>("Span", &mut rep);
  all::<CharRange>("CharRange", &mut rep);
  rustc_span::create_default_session_globals_then(|| {
    let mut r = Rng::new(66);
    for _ in 0 .. if thorough() { 100_000 } else { 10_000 } {
      let n = 2 + r.below(6);
      let v: Vec<_> = (0 .. n).map(|_| { let a = 1 + r.below(30) as u32; (a, a + 1 + r.below(12) as u32) }).collect();
      judge::<Span>("mixed", &v, Mixed::spans(&v), &mut rep);
    }
    // an empty range behind everything else, as the end of a borrow may be
    for n in 1 .. 40 { let v = vec![(n, n + 2), (n + 5, n + 9), (n + 9, n + 9)]; judge::<Span>("empty end", &v, Mixed::spans(&v), &mut rep); }
  });
  rep.done();
}
