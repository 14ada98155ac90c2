include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_rustc.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_progs.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_flow.rs"));
use super::*;
use rustc_hir::intravisit::Visitor as _;
use std::collections::BTreeSet;
use vpc::*;
type B<'a, 'tcx> = SegmentedMirBuilder<'a, 'tcx>;
// the end of the first block with a switch on the only way on
fn switch_after(m: &IRMapper, l: Location) -> Option<Location> {
  let body = m.cleaned_graph.body();
  let (mut at, mut seen) = (l.block, BTreeSet::new());
  loop {
    let d = &body.basic_blocks[at];
    if let rustc_middle::mir::TerminatorKind::SwitchInt { .. } = d.terminator().kind { return Some(Location { block: at, statement_index: d.statements.len() }); }
    if !seen.insert(at) { return None; }
    let s: Vec<_> = m.cleaned_graph.successors(at).collect();
    if s.len() != 1 { return None; }
    at = s[0];
  }
}
fn behind(m: &IRMapper, root: BasicBlock) -> Vec<BasicBlock> {
  let (mut seen, mut todo) = (BTreeSet::from([root]), vec![root]);
  while let Some(b) = todo.pop() { for s in m.cleaned_graph.successors(b) { if seen.insert(s) { todo.push(s); } } }
  seen.into_iter().filter(|&b| m.dominates(root, b)).collect()
}
// where the ways from a block may meet again
fn meets(m: &IRMapper, root: BasicBlock) -> BTreeSet<Option<BasicBlock>> {
  let all = behind(m, root);
  let most: Vec<_> = all.iter().copied().filter(|&c| all.iter().all(|&n| m.post_dominates(c, n))).collect();
  if most.is_empty() { return BTreeSet::from([None]); }
  most.iter().map(|&top| {
    let j: Vec<_> = all.iter().copied().filter(|&b| b != root && !m.cleaned_graph.is_false_edge(b) && m.dominates(b, top)).collect();
    j.iter().copied().find(|&b| j.iter().all(|&n| m.dominates(b, n)))
  }).collect()
}
fn past(at: Location, d: &BranchData) -> Location { if d.reach.to != d.reach.from { d.reach.to } else { at } }
/// what is wrong with the structure as a whole, if anything
fn wrong(b: &B) -> Option<String> {
  let m = b.mapper;
  let (nc, nb, ns) = (b.collections.len(), b.branches.len(), b.segments.len());
  let (mut uc, mut ub, mut us) = (vec![0; nc], vec![0; nb], vec![0; ns]);
  let mut starts = vec![None; nc]; let mut ends = vec![None; nc];
  let first = m.cleaned_graph.start_node().start_location();
  if b.first_collection.as_usize() != 0 || nc == 0 { return Some("first collection".into()); }
  uc[0] = 1; starts[0] = Some(first);
  for c in 0 .. nc {
    let col = &b.collections[CollectionId::from_usize(c)];
    let Some(mut at) = starts[c] else { return Some(format!("collection {c} begins nowhere")) };
    for k in col.data.iter() {
      match *k {
        CFKind::Linear(s) => {
          if s.as_usize() >= ns { return Some(format!("no segment {s:?}")); }
          us[s.as_usize()] += 1;
          let g = b.segments[s].segment;
          if g.from != at { return Some(format!("{g:?} begins away from {at:?}")); }
          let whole = m.ldominates(g.from, g.to) && m.lpost_dominates(g.to, g.from);
          let cut = match col.kind { LengthKind::Bounded { phi, .. } => g.to == phi, _ => false };
          if !whole && !cut { return Some(format!("{g:?} is not the whole way")); }
          at = g.to;
        }
        CFKind::Branch(x) => {
          if x.as_usize() >= nb { return Some(format!("no branch {x:?}")); }
          ub[x.as_usize()] += 1;
          let d = &b.branches[x];
          if d.reach.from != switch_after(m, at).unwrap_or(at) { return Some(format!("branch at {at:?} splits at {:?}", d.reach.from)); }
          let ok = meets(m, d.reach.from.block).into_iter().map(|p| p.map_or(d.reach.from, |p| p.start_location())).any(|t| t == d.reach.to);
          if !ok { return Some(format!("ways from {:?} do not meet at {:?}", d.reach.from, d.reach.to)); }
          let ss: Vec<_> = m.cleaned_graph.successors(d.reach.from.block).collect();
          if d.splits.len() != ss.len() || d.nested.len() != ss.len() || !d.joins.is_empty() { return Some(format!("branch at {at:?}: {} ways, {} collections for {} targets", d.splits.len(), d.nested.len(), ss.len())); }
          let kind = if d.reach.to != d.reach.from { Some(d.reach.to) } else { None };
          for (s, n) in d.splits.iter().zip(&d.nested) {
            if s.as_usize() >= ns || n.as_usize() >= nc || n.as_usize() <= c { return Some(format!("branch at {at:?}: {s:?} {n:?}")); }
            us[s.as_usize()] += 1; uc[n.as_usize()] += 1;
            let g = b.segments[*s].segment;
            if g.from != at { return Some(format!("way {g:?} of the branch at {at:?}")); }
            starts[n.as_usize()] = Some(g.to);
            let same = match (b.collections[*n].kind, kind) { (LengthKind::Bounded { root, phi }, Some(p)) => phi == p && root == at, (LengthKind::Unbounded { root }, None) => root == at, _ => false };
            if !same { return Some(format!("collection {n:?} bounded by {:?}, branch meets at {kind:?}", b.collections[*n].kind)); }
          }
          at = past(at, d);
        }
      }
    }
    ends[c] = Some(at);
  }
  if uc.iter().chain(&ub).chain(&us).any(|&n| n != 1) { return Some(format!("parts used {uc:?} {ub:?} {us:?}")); }
  let mut seen = BTreeSet::new();
  for o in b.processing.0.iter() {
    if !seen.insert(o.collection.as_usize()) { return Some(format!("{:?} open twice", o.collection)); }
    if ends[o.collection.as_usize()] != Some(o.current_location) { return Some(format!("{:?} ends at {:?}, open at {:?}", o.collection, ends[o.collection.as_usize()], o.current_location)); }
  }
  if b.processing.0.first().map(|o| o.collection) != Some(b.first_collection) { return Some("first collection closed".into()); }
  if b.open_scopes.first() != Some(&*BASE_SCOPE) { return Some("base scope closed".into()); }
  None
}
fn pick(b: &B, l: Location) -> Option<usize> { (0 .. b.processing.0.len()).rev().find(|&i| b.mapper.ldominates(b.processing.0[i].current_location, l)) }
type Shape = (usize, usize, usize, Vec<(CollectionId, Location)>, Vec<ScopeId>);
fn shape(b: &B) -> Shape { (b.collections.len(), b.branches.len(), b.segments.len(), b.processing.0.iter().map(|o| (o.collection, o.current_location)).collect(), b.open_scopes.clone()) }
fn locations(m: &IRMapper) -> Vec<Location> {
  m.cleaned_graph.blocks().flat_map(|block| (0 ..= m.cleaned_graph.body().basic_blocks[block].statements.len()).map(move |statement_index| Location { block, statement_index })).collect()
}
// one operation, what it must do to the structure checked
fn step<'a, 'tcx: 'a>(rep: &mut Rep, text: &str, b: &mut B<'a, 'tcx>, r: &mut Rng, all: &[Location], open: &mut Vec<BranchId>, scopes: &mut Vec<ScopeId>, log: &mut Vec<String>) -> bool {
  let m = b.mapper;
  let was = shape(b);
  let mut l = all[r.below(all.len())];
  if r.below(3) == 0 { l.statement_index = m.cleaned_graph.body().basic_blocks[l.block].statements.len(); }
  let cur = b.processing.0[r.below(b.processing.0.len())].current_location;
  match r.below(9) {
    0 ..= 3 => {
      log.push(format!("insert {l:?}"));
      let i = pick(b, l);
      let res = b.insert(l, None, rustc_span::DUMMY_SP);
      let now = shape(b);
      match i {
        None => { rep.count("nowhere"); if res.is_err() || now != was { rep.bad("nowhere", text, &format!("{log:?} {was:?}"), &format!("{now:?}")); } }
        Some(i) if m.lpost_dominates(l, was.3[i].1) => {
          rep.count("put");
          let col = &b.collections[was.3[i].0];
          let end = match col.kind { LengthKind::Bounded { phi, .. } if m.ldominates(phi, l) => phi, _ => l };
          let ok = res.is_ok() && now.0 == was.0 && now.1 == was.1 && now.2 == was.2 + 1 && now.4 == was.4 && now.3.len() == was.3.len()
            && now.3.iter().enumerate().all(|(j, o)| if j == i { *o == (was.3[i].0, end) } else { *o == was.3[j] })
            && b.segments[SegmentId::from_usize(was.2)].segment == (MirSegment { from: was.3[i].1, to: end }) && Some(&b.segments[SegmentId::from_usize(was.2)].scope) == was.4.last()
            && matches!(col.data.last(), Some(CFKind::Linear(s)) if s.as_usize() == was.2);
          if !ok { rep.bad("put", text, &format!("{log:?} {was:?} to {end:?}"), &format!("{now:?}")); }
        }
        Some(_) => {
          rep.count(if res.is_ok() { "branched" } else { "refused" });
          // put behind new branches, or there is no place for it
          if res.is_ok() {
            let last = b.segments.iter().last().map(|s| s.segment);
            let there = now.3.iter().any(|o| last.map(|s| s.to) == Some(o.1)) && last.map_or(false, |s| s.to == l || m.ldominates(s.to, l));
            let nowhere = match pick(b, l) { None => true, Some(j) => !m.lpost_dominates(l, b.processing.0[j].current_location) && !b.branches.iter().any(|x| x.nested.contains(&b.processing.0[j].collection)) };
            if !there && !nowhere { rep.bad("branched", text, &format!("{log:?} {was:?}"), &format!("{now:?}")); }
          }
          if res.is_err() { return false; }
        }
      }
    }
    4 | 5 => {
      // mostly where a collection ends
      let at = if r.below(8) == 0 { l } else { cur };
      log.push(format!("open {at:?}"));
      let i = pick(b, at);
      let skip = r.flip();
      let body: Vec<Location> = all.to_vec();
      let res = b.open_branch(at, move |to: &mut Location| { if skip { if let Some(x) = body.iter().find(|x| x.block == to.block && x.statement_index == 1) { *to = *x; } } rustc_span::DUMMY_SP });
      let now = shape(b);
      let fits = i.map_or(false, |i| was.3[i].1 == at);
      rep.count(if fits { "opened" } else { "not-opened" });
      if fits != res.is_ok() { rep.bad("open", text, &format!("{log:?} {was:?} fits: {fits}"), &format!("{res:?}")); }
      match res {
        Ok(id) => {
          let sw = switch_after(m, at).unwrap_or(at);
          let ss: Vec<_> = m.cleaned_graph.successors(sw.block).collect();
          let ends: Vec<Location> = ss.iter().map(|s| { let mut x = s.start_location(); if skip && all.contains(&Location { block: *s, statement_index: 1 }) { x.statement_index = 1; } x }).collect();
          let k = ss.len();
          let ok = now.0 == was.0 + k && now.1 == was.1 + 1 && now.2 == was.2 + k && id.as_usize() == was.1 && b.branches[id].reach.from == sw
            && now.3[was.3.len() ..].iter().map(|o| o.1).eq(ends.iter().copied()) && was.4.last() == Some(&b.branches[id].scope)
            && b.branches[id].splits.iter().zip(&ends).all(|(s, e)| b.segments[*s].segment == (MirSegment { from: at, to: *e }))
            && (0 .. was.3.len()).all(|j| now.3[j] == if Some(j) == i { (was.3[j].0, past(at, &b.branches[id])) } else { was.3[j] });
          if !ok { rep.bad("opened", text, &format!("{log:?} {was:?} ways {ends:?}"), &format!("{now:?}")); }
          open.push(id);
        }
        Err(_) => { if now != was { rep.bad("not-opened", text, &format!("{log:?} {was:?}"), &format!("{now:?}")); } }
      }
    }
    6 => {
      let Some(id) = (if open.is_empty() { None } else { Some(if r.below(4) == 0 { open[r.below(open.len())] } else { *open.last().unwrap() }) }) else { return true };
      log.push(format!("close {id:?}"));
      let t = b.branches[id].table_id;
      let inside: Vec<CollectionId> = (0 .. was.1).map(BranchId::from_usize).filter(|&x| { let u = b.branches[x].table_id; b.branch_roots.unioned(u, t) }).flat_map(|x| b.branches[x].nested.clone()).collect();
      let res = b.close_branch(id);
      let want: Vec<_> = was.3.iter().copied().filter(|o| !inside.contains(&o.0)).collect();
      let now = shape(b);
      rep.count("closed");
      if res.is_err() || (now.0, now.1, now.2, &now.3, &now.4) != (was.0, was.1, was.2, &want, &was.4) { rep.bad("close", text, &format!("{log:?} {was:?} closing {inside:?}"), &format!("{now:?}")); }
    }
    7 => { log.push("scope".into()); let s = b.open_scope().unwrap(); rep.count("scope"); if scopes.contains(&s) || s == *BASE_SCOPE || b.open_scopes.last() != Some(&s) || b.open_scopes.len() != was.4.len() + 1 { rep.bad("scope", text, &format!("{log:?} {:?}", was.4), &format!("{s:?} {:?}", b.open_scopes)); } scopes.push(s); }
    _ => {
      let s = if r.below(3) == 0 { *BASE_SCOPE } else { scopes.get(r.below(scopes.len() + 1)).copied().unwrap_or(*BASE_SCOPE) };
      log.push(format!("end of scope {s:?}"));
      let fits = s != *BASE_SCOPE && was.4.last() == Some(&s);
      let res = b.close_scope(s);
      let mut want = was.4.clone(); if fits { want.pop(); }
      rep.count("scope-end");
      if res.is_ok() != fits || b.open_scopes != want { rep.bad("scope-end", text, &format!("{log:?} {want:?} fits: {fits}"), &format!("{res:?} {:?}", b.open_scopes)); }
    }
  }
  true
}
fn go<'tcx>(rep: &mut Rep, r: &mut Rng, walks: usize, tcx: rustc_middle::ty::TyCtxt<'tcx>, id: rustc_hir::BodyId) {
  let text = tcx.sess.source_map().span_to_snippet(tcx.hir().span_with_body(tcx.hir().body_owner(id))).unwrap_or_default();
  let a = crate::analysis::AquascopeAnalysis::new(tcx, id);
  let m = &a.ir_mapper;
  rep.case("body", &text);
  // as the visitor drives it
  let mut h = super::super::hir_steps::HirStepPoints::make(tcx, &a.permissions.body_with_facts.body, id, m).unwrap();
  h.visit_nested_body(id);
  if h.get_unsupported_feature().is_some() || h.get_internal_error().is_some() { rep.count("refused-body"); }
  else {
    let b = h.vp_builder();
    rep.count("segmented-body");
    if let Some(w) = wrong(&b) { rep.bad("structure", &text, "segments following control flow", &w); }
    let (n, was) = (b.processing.len(), shape(&b));
    match b.freeze() {
      Ok(s) => {
        let got = (s.collections.len(), s.branches.len(), s.segments.len());
        if n != 1 || got != (was.0, was.1, was.2) || s.first_collection.as_usize() != 0 || s.segments().count() != was.2 { rep.bad("freeze", &text, &format!("{n} open, {was:?}"), &format!("{got:?}")); }
      }
      Err(_) => if n == 1 { rep.bad("freeze", &text, "ok", "refused"); }
    }
  }
  // as anyone could drive it
  let all = locations(m);
  for _ in 0 .. if all.is_empty() { 0 } else { walks } {
    let mut b = SegmentedMirBuilder::make(m);
    if let Some(w) = wrong(&b) { rep.bad("make", &text, "an empty structure", &w); }
    let (mut open, mut scopes, mut log) = (vec![], vec![], vec![]);
    for _ in 0 .. 4 + r.below(16) {
      let on = step(rep, &text, &mut b, r, &all, &mut open, &mut scopes, &mut log);
      if let Some(w) = wrong(&b) { rep.bad("walk", &text, &format!("{log:?}"), &w); break; }
      if !on { break; }
    }
    if log.iter().any(|x| x.starts_with("scope")) {
      // which scope was opened in which
      let mut up: Vec<Vec<ScopeId>> = vec![]; let mut stack = vec![*BASE_SCOPE]; let mut it = scopes.iter();
      for x in &log { if x == "scope" { let s = *it.next().unwrap(); up.push(stack.clone()); stack.push(s); } else if x.starts_with("end of scope") { let s = stack.last().copied().unwrap(); if s != *BASE_SCOPE && *x == format!("end of scope {s:?}") { stack.pop(); } } }
      b.processing.0.truncate(1);
      if let Ok(f) = b.freeze() { for (s, p) in scopes.iter().zip(&up) { let g: BTreeSet<usize> = f.parent_scopes(*s).map(|x| x.as_usize()).collect(); if g != p.iter().map(|x| x.as_usize()).collect() { rep.bad("parents", &text, &format!("{log:?} {s:?}: {p:?}"), &format!("{g:?}")); } } }
    }
  }
}
#[test]
fn vp_c09() {
  let mut rep = Rep::new();
  let mut r = Rng::new(9);
  let (n, walks) = if thorough() { (150, 12) } else { (10, 3) };
  let random: Vec<String> = (0 .. n).map(|i| vpf::program(&mut r, i)).collect();
  for src in random.into_iter().chain(vpp::groups()).chain(vpp::FLOWS.iter().map(|x| x.to_string())).chain(vpp::STEPS.iter().map(|x| format!("{}{x}", vpp::PRE))) {
    vprc::each_body(&src, |tcx, id| go(&mut rep, &mut r, walks, tcx, id));
  }
  rep.done();
}
