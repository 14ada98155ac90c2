// The ranges the real code highlights for the loans and moves of compiled bodies, against a recomputation position by position.
include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_rustc.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_progs.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_flow.rs"));
use super::*;
use std::collections::{BTreeMap, BTreeSet};
use vpc::*;

const MORE: &[&str] = &[
  "fn m0(s: String, c: bool) { if c { take(s); } else { let t = s; take(t.len()); } let v = vec![1, 2]; println!(\"{:?}\", v); }",
  "fn m1(mut s: String) { let t = s; take(&t); s = String::new(); let u = s; println!(\"{} {}\", t, u); let w = vec![t, u]; take(w); }",
  "fn m2(p: P) { let P { a, b: (x, _), .. } = p; take(a); take(x); let v = vec![p.d]; take(v); }",
  "fn m3(v: Vec<String>) { for s in v { let t = s; if t.is_empty() { continue; } take(t); println!(\"x\"); } let k = format!(\"{}\", 3); take(k); }",
  "fn m4(o: Option<String>) -> usize { match o { Some(s) => { let t = s; assert!(t.len() > 0); t.len() } None => { println!(\"none\"); 0 } } }",
  "fn m5(mut a: Vec<i32>, c: bool) { let x = if c { &mut a } else { println!(\"{}\", 1); return; }; x.push(1); let l = &a; take(l.len()); a.push(2); }",
  "fn m6(mut a: Vec<i32>, mut b: Vec<i32>, c: bool) { let x = if c { &mut a } else { &mut b }; x.push(1); a.push(2); println!(\"{:?} {:?}\", a, b); }",
  "fn m7(mut s: String) { let f = move || s.len(); take(f()); let mut n = 0; let mut g = || { n += 1; n }; g(); g(); take(n); }",
  "fn m8(b: Box<(String, String)>) { let (x, y) = *b; take(x); let z = y; println!(\"{z}\"); }",
  "fn m9(mut v: Vec<i32>) { v.push(v.len() as i32); let f = &v[0]; println!(\"{}\", f); v.push(1); let g = v.iter_mut().map(|x| { *x += 1; *x }).max(); take(g); }",
  "fn n0(mut s: String) { while s.len() < 9 { let r = &mut s; r.push('a'); { let q = &*r; if q.len() > 3 { break; } } } let t = s; take(t); }",
  "macro_rules! mv { ($e:expr) => {{ let q = $e; take(q); }} }\nfn n1(s: String, t: String) { mv!(s); mv!(&t); let u = t; mv!(vec![u]); }",
];

fn runs(at: &BTreeSet<u32>) -> Vec<(u32, u32)> {
  let mut v: Vec<(u32, u32)> = vec![];
  for &p in at { match v.last_mut() { Some(l) if l.1 == p => l.1 = p + 1, _ => v.push((p, p + 1)) } }
  v
}

fn put(at: &mut BTreeSet<u32>, s: Span) { for p in Span::lo(s).0 .. Span::hi(s).0 { at.insert(p); } }

fn show(a: &AquascopeAnalysis, v: &[(u32, u32)]) -> String {
  let mut o = vec![];
  for &(l, h) in v { o.push(format!("{:?}", a.span_to_range(Span::with_root_ctxt(rustc_span::BytePos(l), rustc_span::BytePos(h))))); }
  o.join(" ")
}

fn body<'tcx>(rep: &mut Rep, tcx: TyCtxt<'tcx>, body_id: rustc_hir::BodyId) {
  let text = tcx.sess.source_map().span_to_snippet(tcx.hir().body(body_id).value.span).unwrap_or_default();
  let a = AquascopeAnalysis::new(tcx, body_id);
  let c = &a.permissions;
  let b = &c.body_with_facts.body;
  if b.tainted_by_errors.is_some() { return; }
  rep.case("loans", &text);
  let loc = |p: Point| c.location_table_vp(p);
  let instr = |l: rustc_middle::mir::Location| { let s = b.source_info(l).span; s.as_local(b.span).unwrap_or(s) };
  let node = |p: Point| tcx.hir().span(b.location_to_hir_id(loc(p)));
  // loans
  let mut live: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
  for (p, ls) in &c.polonius_output.loan_live_at { for l in ls { live.entry(l.as_u32()).or_default().insert(p.as_u32()); } }
  let (pts, regs) = a.construct_loan_info();
  let mut want_p = BTreeMap::new();
  let mut want_r: BTreeMap<u32, BTreeSet<String>> = BTreeMap::new();
  for (l, ps) in &live {
    let span = instr(c.borrow_set[Loan::from_u32(*l)].reserve_location());
    if Span::lo(span) == Span::hi(span) { continue; }
    want_p.insert(*l, format!("{:?}", a.span_to_range(span)));
    let ps: Vec<Point> = ps.iter().map(|p| Point::from_u32(*p)).collect();
    let first = ps.iter().map(|p| Span::lo(instr(loc(*p)))).min().unwrap();
    let last = ps.iter().map(|p| Span::hi(instr(loc(*p)))).max().unwrap();
    for s in ps.iter().map(|p| instr(loc(*p))).filter(|s| Span::lo(*s) == first) {
      let s = if Span::lo(s) < Span::lo(span) { span } else { s };
      for e in ps.iter().map(|p| instr(loc(*p))).filter(|e| Span::hi(*e) == last) {
        let mut at = BTreeSet::new();
        for n in ps.iter().map(|p| node(*p)) {
          if !n.is_dummy() && !n.is_empty() && Span::lo(s) <= Span::lo(n) && Span::hi(n) <= Span::hi(e) { put(&mut at, n.as_local(b.span).unwrap_or(n)); }
        }
        for n in [s, e] { if Span::lo(s) <= Span::lo(n) && Span::hi(n) <= Span::hi(e) { put(&mut at, n.as_local(b.span).unwrap_or(n)); } }
        want_r.entry(*l).or_default().insert(show(&a, &runs(&at)));
      }
    }
  }
  let got_p: BTreeMap<u32, String> = pts.0.iter().map(|(k, v)| (k.0, format!("{v:?}"))).collect();
  if got_p != want_p { rep.bad("loan points", &text, &format!("{want_p:?}"), &format!("{got_p:?}")); }
  let got_r: BTreeMap<u32, String> = regs.0.iter().map(|(k, v)| (k.0, v.refined_ranges.iter().filter(|r| r.start != r.end).map(|r| format!("{r:?}")).collect::<Vec<_>>().join(" "))).collect();
  let fits = got_r.keys().eq(want_r.keys()) && got_r.iter().all(|(k, v)| want_r[k].contains(v)) && regs.0.iter().all(|(k, v)| v.refiner_point == Refiner::Loan(*k));
  if !fits { rep.bad("loan regions", &text, &format!("{want_r:?}"), &format!("{got_r:?}")); }
  // moves
  rep.case("moves", &text);
  let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.construct_move_info()));
  let Ok((pts, regs)) = got else { rep.bad("moves", &text, "points and regions", "a panic"); return };
  let mut want_p = BTreeMap::new();
  let mut want_r = BTreeMap::new();
  for (m, out) in c.move_data.moves.iter_enumerated() {
    let span = instr(out.source);
    if span.is_dummy() || Span::lo(span) == Span::hi(span) { continue; }
    want_p.insert(m.as_u32(), format!("{:?}", a.span_to_range(span)));
    let ps: Vec<Point> = c.permissions_output.move_refined.iter().filter(|(_, r)| r.values().any(|x| *x == m)).map(|(p, _)| *p).collect();
    if ps.is_empty() { continue; }
    let mut at = BTreeSet::new();
    for p in ps {
      let l = loc(p);
      let bb = &b.basic_blocks[l.block];
      let works = l.statement_index == bb.statements.len() || matches!(bb.statements[l.statement_index].kind, rustc_middle::mir::StatementKind::Assign(..));
      if bb.is_cleanup || bb.is_empty_unreachable() || !works { continue; }
      let n = node(p);
      if n.is_dummy() || n.is_empty() { continue; }
      if let Some(n) = n.as_local(b.span) { if Span::lo(span) <= Span::lo(n) { put(&mut at, n); } }
    }
    want_r.insert(m.as_u32(), show(&a, &runs(&at)));
  }
  let got_p: BTreeMap<u32, String> = pts.0.iter().map(|(k, v)| (k.0, format!("{v:?}"))).collect();
  if got_p != want_p { rep.bad("move points", &text, &format!("{want_p:?}"), &format!("{got_p:?}")); }
  let got_r: BTreeMap<u32, String> = regs.0.iter().map(|(k, v)| (k.0, v.refined_ranges.iter().filter(|r| r.start != r.end).map(|r| format!("{r:?}")).collect::<Vec<_>>().join(" "))).collect();
  if got_r != want_r || !regs.0.iter().all(|(k, v)| v.refiner_point == Refiner::Move(*k)) { rep.bad("move regions", &text, &format!("{want_r:?}"), &format!("{got_r:?}")); }
}

trait Table { fn location_table_vp(&self, p: Point) -> rustc_middle::mir::Location; }
impl Table for PermissionsCtxt<'_> {
  fn location_table_vp(&self, p: Point) -> rustc_middle::mir::Location {
    use rustc_borrowck::consumers::RichLocation::*;
    match self.body_with_facts.location_table.as_ref().unwrap().to_location(p) { Start(l) | Mid(l) => l }
  }
}

#[test]
fn vp_c17() {
  let mut rep = Rep::new();
  let mut r = Rng::new(1717);
  for src in vpp::groups().into_iter().chain([format!("{}{}", vpp::PRE, MORE.join("\n")), vpp::STEPS.join("\n")]).chain((0 .. if thorough() { 60 } else { 12 }).map(|i| vpf::program(&mut r, i))) {
    vprc::each_body(&src, |tcx, id| body(&mut rep, tcx, id));
  }
  rep.done();
}
