// Random histories of compiler messages through the real tracker, against a list kept here; and what compiled bodies report.
include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_rustc.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_progs.rs"));
use super::*;
use rustc_errors::Level;
use rustc_middle::ty::TyCtxt;
use rustc_span::BytePos;
use vpc::*;

/// bodies with borrow errors (the compiler still makes MIR of them) at the start, in the middle, at the end, several of them
pub const WRONG: &[&str] = &[
  "fn e0() { let s = String::new(); let t = s; take(s.len()); take(t); let mut n = 1; n += 1; take(n); }",
  "fn e1() { let mut v = vec![1]; let r = &v[0]; v.push(2); take(*r); let w = &v; take(w.len()); v.push(3); }",
  "fn e2(x: &String) { x.push('a'); let n = x.len(); take(n); }",
  "fn e3(c: bool) -> String { let s = String::new(); if c { take(s.clone()); drop(s); } let n = 3; take(n); s }",
  "fn e4<'a, 'b>(x: &'a mut Vec<&'b str>, y: &'a str) { x.push(y); let n = x.len(); take(n); }",
  "fn e5() -> usize { let r; { let s = String::new(); r = &s; } let n = r.len(); let v = vec![n]; v.push(3); v.len() }",
  "fn e6() { let n = 1; n = 2; let m = &mut n; *m += 1; take(n); }",
  "fn e7(mut v: Vec<i32>) { for x in &v { v.push(*x); } while v.len() > 3 { v.pop(); } }",
  "fn e8() { let mut s = String::new(); let c = || s.push('x'); take(&s); c(); take(s); }",
  "fn e9(p: (String, String)) { let a = p.0; let b = p; take(a); take(b); }",
  "fn f0<'a>(x: &'a str, y: &str) -> &'a str { if x.len() > 2 { x } else { y } }",
  "fn f1() { let a = vec![String::new()]; let b = a[0]; take(b); let z = &a; let t = &mut *z; take(t); }",
  "fn f2(x: &mut i32) -> &'static i32 { *x = 1; let y = &*x; *x = 2; y }",
  "fn f3() { let x: i32; take(x); let y = 3; take(y); y = 4; }",
];
/// bodies that do not build
pub const BROKEN: &[&str] = &[
  "fn g0() { let x: i32 = \"a\"; take(x); }", "fn g1() { take(nowhere); let y = 3; take(y); }", "fn g2(x: i32) { x.nothing(); }", "fn g3() -> String { 3 }", "fn g4() { let n = 3; take(n); }",
];

fn history(rep: &mut Rep, r: &mut Rng, id: LocalDefId, spans: &[Span], tainted: bool) {
  track_body_diagnostics(id);
  let mut kept: Vec<(Span, bool)> = vec![];
  for _ in 0..1 + r.below(3) {
    if r.below(3) == 0 { track_body_diagnostics(id); kept.clear(); }
    for _ in 0..r.below(9) {
      let level = [Level::Error, Level::Warning, Level::Note, Level::Help, Level::Fatal, Level::Error, Level::Error][r.below(7)];
      let mut d = DiagInner::new(level, "m");
      let s = spans[r.below(spans.len())];
      d.sort_span = s;
      if r.flip() { d.span = rustc_errors::MultiSpan::from_span(spans[r.below(spans.len())]); }
      let is = matches!(level, Level::Error | Level::Fatal);
      let mut seen = None;
      let mut sink = |d: DiagInner| { seen = Some((d.sort_span, d.level() == level)); 7usize };
      let got = track_diagnostic(d, &mut sink);
      if got != 7 || seen != Some((s, true)) { rep.bad("forwarded", &format!("{s:?} {is}"), "the message reaches the compiler", &format!("{got} {seen:?}")); }
      kept.push((s, is));
      if errors_exist() == kept.is_empty() { rep.bad("exist", &format!("{kept:?}"), &format!("{}", !kept.is_empty()), "the opposite"); }
      let mut want: Option<Span> = None;
      for (s, is) in &kept { if *is && want.is_none_or(|w| s.lo() < w.lo()) { want = Some(*s); } }
      let text = format!("{kept:?}");
      rep.case(if tainted { "history (body with errors)" } else { "history" }, &text);
      let got = get_span_of_first_error(id);
      if got != want { rep.bad("first", &text, &format!("{want:?}"), &format!("{got:?}")); }
    }
  }
  track_body_diagnostics(id);
  if get_span_of_first_error(id).is_some() || errors_exist() { rep.bad("fresh", &format!("{kept:?}"), "nothing recorded for the next body", "something"); }
}

fn each<'tcx>(rep: &mut Rep, r: &mut Rng, tcx: TyCtxt<'tcx>, body_id: rustc_hir::BodyId) {
  let span = tcx.hir().span(tcx.hir().body_owner(body_id));
  let text = tcx.sess.source_map().span_to_snippet(span).unwrap_or_default();
  let run = crate::analysis::AquascopeAnalysis::run(tcx, body_id);
  let id = tcx.hir().body_owner_def_id(body_id);
  let tainted = rustc_utils::mir::borrowck_facts::get_body_with_borrowck_facts(tcx, id).body.tainted_by_errors.is_some();
  rep.case(if tainted { "body that does not build" } else { "body" }, &text);
  let refused = matches!(run, Err(crate::analysis::AquascopeError::BuildError { range: Some(_) }));
  if refused != tainted { rep.bad("refused", &text, &format!("{tainted}"), &format!("{:?}", run.as_ref().err())); }
  crate::analysis::boundaries::vp_c11b::cutoff(rep, r, tcx, body_id, &text);
  let spans: Vec<Span> = (0..12).map(|_| { let n = span.hi().0 - span.lo().0; let a = r.below(n as usize) as u32; let b = a + r.below((n - a) as usize + 1) as u32; span.with_lo(span.lo() + BytePos(a)).with_hi(span.lo() + BytePos(b)) }).collect();
  for _ in 0..if thorough() { 60 } else { 12 } { history(rep, r, id, &spans, tainted); }
}

#[test]
fn vp_c11() {
  let mut rep = Rep::new();
  let mut r = Rng::new(11);
  for src in vpp::groups().into_iter().chain([format!("{}{}", vpp::PRE, WRONG.join("\n")), vpp::FLOWS.join("\n")]).chain(BROKEN.iter().map(|b| format!("{}{b}", vpp::PRE))) {
    vprc::each_body(&src, |tcx, id| each(&mut rep, &mut r, tcx, id));
  }
  rep.done();
}
