// Every flow between two regions of compiled bodies, against reachability recomputed from the borrow checker's facts.
include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_rustc.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_progs.rs"));
use super::*;
use std::collections::{BTreeMap, BTreeSet};
use vpc::*;

fn flows(rep: &mut Rep, tcx: rustc_middle::ty::TyCtxt<'_>, body_id: rustc_hir::BodyId) {
  let def = tcx.hir().body_owner_def_id(body_id);
  let bwf = rustc_utils::mir::borrowck_facts::get_body_with_borrowck_facts(tcx, def);
  let mut c = crate::analysis::permissions::compute(tcx, body_id, bwf);
  let text = tcx.sess.source_map().span_to_snippet(tcx.hir().body(body_id).value.span).unwrap_or_default();
  compute_flows(&mut c);
  let rf = c.region_flows();
  let inp = &c.polonius_input_facts;
  rep.case("body", &text);
  let edges: BTreeSet<(Origin, Origin)> = inp.subset_base.iter().map(|x| (x.0, x.1)).collect();
  let nodes: BTreeSet<Origin> = edges.iter().flat_map(|x| [x.0, x.1]).collect();
  let closure = |nodes: &BTreeSet<Origin>, edges: &BTreeSet<(Origin, Origin)>| {
    let mut r: BTreeMap<Origin, BTreeSet<Origin>> = BTreeMap::new();
    for &n in nodes {
      let mut seen = BTreeSet::from([n]);
      let mut todo = vec![n];
      while let Some(x) = todo.pop() { for e in edges { if e.0 == x && seen.insert(e.1) { todo.push(e.1); } } }
      r.insert(n, seen);
    }
    r
  };
  let mut all = nodes.clone();
  let ret: BTreeSet<Origin> = bwf.body.regions_in_return().filter(|r| r.is_var()).map(|r| PoloniusRegionVid::from(r.as_var())).collect();
  all.extend(ret.iter().copied());
  let reach = closure(&all, &edges);
  let same = |a: Origin, b: Origin| reach[&a].contains(&b) && reach[&b].contains(&a);
  // regions a caller names
  let named: BTreeSet<Origin> = inp.placeholder.iter().map(|x| x.0).filter(|o| nodes.contains(o)).chain(ret.iter().copied()).collect();
  let is_named = |o: Origin| named.iter().any(|p| same(*p, o));
  let mut local: BTreeSet<Origin> = BTreeSet::new();
  for (_, bd) in c.borrow_set.location_map().iter() {
    if !bd.borrowed_place().projection.iter().any(|e| matches!(e, rustc_middle::mir::ProjectionElem::Deref)) { local.insert(bd.region().into()); }
  }
  let mut dangling: BTreeSet<Origin> = BTreeSet::new();
  for loans in c.polonius_output.errors.values() { for &l in loans {
    let bd = c.loan_to_borrow(l);
    let place = bd.borrowed_place();
    if c.locals_are_invalidated_at_exit && places_conflict(tcx, &bwf.body, place, rustc_middle::mir::Place::from(place.local), PlaceConflictBias::Overlap) {
      dangling.insert(bd.region().into());
    }
  } }
  // declared outlives between named regions, up to mutual reachability
  let decl: Vec<(Origin, Origin)> = inp.known_placeholder_subset.iter().copied().filter(|x| nodes.contains(&x.0) && nodes.contains(&x.1)).collect();
  let outlives = |f: Origin, t: Origin| {
    if same(f, t) { return true; }
    let mut seen = vec![f];
    let mut k = 0;
    while k < seen.len() {
      let x = seen[k];
      k += 1;
      for e in &decl { if same(e.0, x) && !seen.iter().any(|y| same(*y, e.1)) { seen.push(e.1); } }
    }
    seen.iter().any(|x| same(*x, t))
  };
  let from_named = |o: Origin| named.iter().copied().filter(|p| reach[p].contains(&o)).collect::<Vec<_>>();
  let from_local = |o: Origin| local.iter().copied().filter(|p| reach.get(p).is_some_and(|r| r.contains(&o))).collect::<Vec<_>>();
  let list: Vec<Origin> = all.iter().copied().collect();
  for &a in &list {
    rep.count("region");
    let g = (rf.is_abstract_member(a), rf.has_abstract_member(a), rf.has_local_member(a));
    let w = (is_named(a), !from_named(a).is_empty(), !from_local(a).is_empty());
    if g != w { rep.bad("region", &format!("{text} region {a:?}"), &format!("{w:?}"), &format!("{g:?}")); }
    for &b in &list {
      let want = if same(a, b) { "Ok" }
        else if !from_local(a).is_empty() && is_named(b) { "LocalOutlivesUniversal" }
        else if from_named(a).iter().any(|f| from_named(b).iter().any(|t| !outlives(*f, *t))) { "MissingUniversalConstraint" }
        else if from_local(a).iter().any(|l| dangling.iter().any(|d| same(*l, *d))) { "LocalInvalidatedAtExit" }
        else { "Ok" };
      let k = rf.flow_kind(a, b);
      let got = format!("{k:?}");
      rep.count(want);
      if got != want { rep.bad("flow", &format!("{text}: {a:?} -> {b:?}"), want, &got); }
      if k.is_valid_flow() != (got == "Ok") { rep.bad("valid", &text, &got, &format!("{}", k.is_valid_flow())); }
    }
  }
}

const RETURNS: &[&str] = &[
  "fn f<'a>() -> &'a str { loop {} }",
  "fn f<'a>() -> &'a str { panic!() }",
  "fn f() -> Option<&'static u8> { None }",
  "fn f<'a>(x: &'a u8) -> std::marker::PhantomData<&'a u8> { std::marker::PhantomData }",
  "fn g(x: &u8) -> &u8 { x }\nfn f() -> fn(&u8) -> &u8 { g }",
  "fn f() -> Box<dyn Fn(&u8) -> u8> { Box::new(|x: &u8| *x) }",
  "fn f() -> Box<dyn for<'a> Fn(&'a u8) -> &'a u8> { loop {} }",
  "fn f() -> impl Fn(&u8) -> u8 { |x: &u8| *x }",
];

/// Several loans invalidated at one point; bodies with many regions; statics and thread locals borrowed.
const MORE: &[&str] = &[
  "fn take<T>(_: T) {}\nfn f() { let r; let s; let t; { let x = 1u8; r = &x; s = &x; t = &x; } take(r); take(s); take(t); }",
  "fn take<T>(_: T) {}\nfn f(c: bool) { let mut r: &u8 = &0; let mut s: &u8 = &1; { let x = 1u8; let y = 2u8; if c { r = &x; s = &y; } else { r = &y; s = &x; } } take((r, s)); }",
  "struct D<'a>(&'a u8); impl<'a> Drop for D<'a> { fn drop(&mut self) {} }\nfn f<'a>() -> (D<'a>, D<'a>) { let x = 1u8; let a = D(&x); let b = D(&x); (a, b) }",
  "fn f<'a>() -> &'a u8 { let x = 0u8; let y = 1u8; let v0 = &x; let w0: (&u8, &u8) = (v0, &y); let v1 = &x; let w1: (&u8, &u8) = (v1, &y); let v2 = &x; let w2: (&u8, &u8) = (v2, &y); let v3 = &x; let w3: (&u8, &u8) = (v3, &y); let v4 = &x; let w4: (&u8, &u8) = (v4, &y); let v5 = &x; let w5: (&u8, &u8) = (v5, &y); let v6 = &x; let w6: (&u8, &u8) = (v6, &y); let v7 = &x; let w7: (&u8, &u8) = (v7, &y); let v8 = &x; let w8: (&u8, &u8) = (v8, &y); let v9 = &x; let w9: (&u8, &u8) = (v9, &y); let v10 = &x; let w10: (&u8, &u8) = (v10, &y); let v11 = &x; let w11: (&u8, &u8) = (v11, &y); let v12 = &x; let w12: (&u8, &u8) = (v12, &y); let v13 = &x; let w13: (&u8, &u8) = (v13, &y); let v14 = &x; let w14: (&u8, &u8) = (v14, &y); let v15 = &x; let w15: (&u8, &u8) = (v15, &y); let v16 = &x; let w16: (&u8, &u8) = (v16, &y); let v17 = &x; let w17: (&u8, &u8) = (v17, &y); let v18 = &x; let w18: (&u8, &u8) = (v18, &y); let v19 = &x; let w19: (&u8, &u8) = (v19, &y); let v20 = &x; let w20: (&u8, &u8) = (v20, &y); let v21 = &x; let w21: (&u8, &u8) = (v21, &y); let v22 = &x; let w22: (&u8, &u8) = (v22, &y); let v23 = &x; let w23: (&u8, &u8) = (v23, &y); if *v3 == 0 { v7 } else { w9.1 } }",
  "fn f<'a, 'b>(p: &'a u8, q: &'b u8) -> (&'a u8, &'b u8) { let x = 0u8; let y = 1u8; let v0 = &x; let w0: (&u8, &u8) = (v0, &y); let v1 = &x; let w1: (&u8, &u8) = (v1, &y); let v2 = &x; let w2: (&u8, &u8) = (v2, &y); let v3 = &x; let w3: (&u8, &u8) = (v3, &y); let v4 = &x; let w4: (&u8, &u8) = (v4, &y); let v5 = &x; let w5: (&u8, &u8) = (v5, &y); let v6 = &x; let w6: (&u8, &u8) = (v6, &y); let v7 = &x; let w7: (&u8, &u8) = (v7, &y); let v8 = &x; let w8: (&u8, &u8) = (v8, &y); let v9 = &x; let w9: (&u8, &u8) = (v9, &y); let v10 = &x; let w10: (&u8, &u8) = (v10, &y); let v11 = &x; let w11: (&u8, &u8) = (v11, &y); let v12 = &x; let w12: (&u8, &u8) = (v12, &y); let v13 = &x; let w13: (&u8, &u8) = (v13, &y); let v14 = &x; let w14: (&u8, &u8) = (v14, &y); let v15 = &x; let w15: (&u8, &u8) = (v15, &y); let v16 = &x; let w16: (&u8, &u8) = (v16, &y); let v17 = &x; let w17: (&u8, &u8) = (v17, &y); let v18 = &x; let w18: (&u8, &u8) = (v18, &y); let v19 = &x; let w19: (&u8, &u8) = (v19, &y); let v20 = &x; let w20: (&u8, &u8) = (v20, &y); let v21 = &x; let w21: (&u8, &u8) = (v21, &y); let v22 = &x; let w22: (&u8, &u8) = (v22, &y); let v23 = &x; let w23: (&u8, &u8) = (v23, &y); let _ = (v1, w2); (q, p) }",
  "static G: u8 = 1; fn f<'a>() -> &'a u8 { let r = &G; r }\nfn g() -> &'static u8 { let b = Box::new(1u8); let r: &u8 = &*b; &G }",
];

#[test]
fn vp_c07() {
  let mut rep = Rep::new();
  let mut progs = vpp::groups();
  progs.push(vpp::FLOWS.join("\n"));
  // return types whose regions are bound in them, or are in no constraint of the body
  progs.extend(RETURNS.iter().chain(MORE).map(|s| s.to_string()));
  for src in progs {
    let r = &mut rep;
    let one = RETURNS.contains(&src.as_str());
    vprc::each_body(&src.clone(), move |tcx, id| {
      if !one { return flows(r, tcx, id); }
      if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| flows(r, tcx, id))).is_err() { r.bad("answers", &src, "the flows of the body", "the analysis crashed"); }
    });
  }
  rep.done();
}
