include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_rustc.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_progs.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_flow.rs"));
use super::*;
use rustc_data_structures::graph::{self, vec_graph::VecGraph};
use rustc_hir::intravisit::Visitor as _;
use std::collections::{BTreeMap, BTreeSet};
use vpc::*;
type E = BTreeMap<usize, BTreeSet<usize>>;
fn reach(e: &E, from: usize, without: Option<usize>) -> BTreeSet<usize> {
  if Some(from) == without { return BTreeSet::new(); }
  let (mut seen, mut todo) = (BTreeSet::from([from]), vec![from]);
  while let Some(b) = todo.pop() { for &s in e.get(&b).into_iter().flatten() { if Some(s) != without && seen.insert(s) { todo.push(s); } } }
  seen
}
/// pdom[a]: what every way from a to each exit goes through
fn post(e: &E, n: usize, exits: &[usize]) -> Vec<BTreeSet<usize>> {
  let full: Vec<_> = (0 .. n).map(|a| reach(e, a, None)).collect();
  let cut: Vec<Vec<_>> = (0 .. n).map(|a| (0 .. n).map(|d| reach(e, a, Some(d))).collect()).collect();
  (0 .. n).map(|a| (0 .. n).filter(|&d| exits.iter().all(|x| full[a].contains(x) && !cut[a][d].contains(x))).collect()).collect()
}
fn domin(e: &E, n: usize, entry: usize) -> Vec<BTreeSet<usize>> {
  let full = reach(e, entry, None);
  let cut: Vec<_> = (0 .. n).map(|d| reach(e, entry, Some(d))).collect();
  (0 .. n).map(|b| (0 .. n).filter(|&d| full.contains(&b) && !cut[d].contains(&b)).collect()).collect()
}
struct VG { source: usize, forward: VecGraph<usize>, backward: VecGraph<usize> }
impl graph::DirectedGraph for VG { type Node = usize; fn num_nodes(&self) -> usize { self.forward.num_nodes() } }
impl graph::StartNode for VG { fn start_node(&self) -> usize { self.source } }
impl graph::Successors for VG { fn successors(&self, n: usize) -> impl Iterator<Item = usize> { self.forward.successors(n).to_vec().into_iter() } }
impl graph::Predecessors for VG { fn predecessors(&self, n: usize) -> impl Iterator<Item = usize> { self.backward.successors(n).to_vec().into_iter() } }
fn graphs(rep: &mut Rep, r: &mut Rng, count: usize) {
  for _ in 0 .. count {
    let n = 1 + r.below(9);
    let mut e = E::new();
    for _ in 0 .. r.below(2 * n + 2) { e.entry(r.below(n)).or_default().insert(r.below(n)); }
    let list: Vec<(usize, usize)> = e.iter().flat_map(|(a, s)| s.iter().map(move |b| (*a, *b))).collect();
    let exits: Vec<usize> = (0 .. r.below(4)).map(|_| r.below(n)).collect();
    let g = VG { source: 0, forward: VecGraph::new(n, list.clone()), backward: VecGraph::new(n, list.iter().map(|&(a, b)| (b, a)).collect()) };
    let text = format!("{n} nodes, edges {list:?}, exits {exits:?}");
    rep.case("graph", &text);
    let got = AllPostDominators::build(&g, exits.iter().copied());
    for (a, w) in post(&e, n, &exits).iter().enumerate() {
      let h: BTreeSet<usize> = (0 .. n).filter(|&d| got.is_postdominated_by(a, d)).collect();
      if h != *w { rep.bad("post", &text, &format!("{a}: {w:?}"), &format!("{h:?}")); }
    }
  }
}
struct Lets<'v>(Vec<&'v hir::LetStmt<'v>>);
impl<'v> hir::intravisit::Visitor<'v> for Lets<'v> { fn visit_local(&mut self, l: &'v hir::LetStmt<'v>) { self.0.push(l); hir::intravisit::walk_local(self, l); } }
fn go<'tcx>(rep: &mut Rep, tcx: TyCtxt<'tcx>, id: hir::BodyId) {
  let text = tcx.sess.source_map().span_to_snippet(tcx.hir().span_with_body(tcx.hir().body_owner(id))).unwrap_or_default();
  let facts = rustc_utils::mir::borrowck_facts::get_body_with_borrowck_facts(tcx, tcx.hir().body_owner_def_id(id));
  let body: &'tcx Body<'tcx> = &facts.body;
  rep.case("body", &text);
  let n = body.basic_blocks.len();
  let bb = BasicBlock::from_usize;
  let kept: BTreeSet<usize> = (0 .. n).filter(|&b| { let d = &body.basic_blocks[bb(b)]; !d.is_cleanup && !matches!(d.terminator().kind, mir::TerminatorKind::Unreachable) }).collect();
  let full: E = (0 .. n).map(|b| (b, body.basic_blocks[bb(b)].terminator().successors().map(|x| x.as_usize()).collect())).collect();
  let live = reach(&full, 0, None);
  for mode in [GatherMode::IgnoreCleanup, GatherMode::All] {
    let m = IRMapper::new(tcx, body, mode);
    let g = &m.cleaned_graph;
    rep.count("mapper");
    // the graph
    let blocks: Vec<usize> = g.blocks().map(|x| x.as_usize()).collect();
    let set: BTreeSet<usize> = blocks.iter().copied().collect();
    let want: BTreeSet<usize> = kept.intersection(&live).copied().collect();
    if set != want || blocks.len() != set.len() { rep.bad("blocks", &text, &format!("{want:?}"), &format!("{blocks:?}")); }
    if g.num_nodes() != n || g.start_node() != mir::START_BLOCK { rep.bad("graph", &text, &format!("{n}"), &format!("{:?} {:?}", g.num_nodes(), g.start_node())); }
    let mut e = E::new();
    for b in 0 .. n {
      let d = &body.basic_blocks[bb(b)];
      let got: Vec<usize> = g.successors(bb(b)).map(|x| x.as_usize()).collect();
      let gs: BTreeSet<usize> = got.iter().copied().collect();
      let im = match d.terminator().kind { mir::TerminatorKind::FalseEdge { imaginary_target, real_target } if imaginary_target != real_target => Some(imaginary_target.as_usize()), _ => None };
      let open: BTreeSet<usize> = full[&b].intersection(&kept).copied().collect();
      let mut want = open.clone(); if let Some(i) = im { want.remove(&i); }
      if gs != want {
        if gs == open && im.is_some() { if !rep.kinds.contains_key("imaginary edge kept") { rep.bad("imaginary", &format!("{text} block {b}"), &format!("{want:?}"), &format!("{gs:?}")); } rep.count("imaginary edge kept"); }
        else { rep.bad("edges", &format!("{text} block {b}"), &format!("{want:?}"), &format!("{gs:?}")); }
      }
      let before: BTreeSet<usize> = g.predecessors(bb(b)).map(|x| x.as_usize()).collect();
      let wb: BTreeSet<usize> = (0 .. n).filter(|a| kept.contains(a) && full[a].contains(&b)).collect();
      if before != wb { rep.bad("predecessors", &format!("{text} block {b}"), &format!("{wb:?}"), &format!("{before:?}")); }
      e.insert(b, gs);
      for i in 0 ..= d.statements.len() {
        let l = Location { block: bb(b), statement_index: i };
        let w = if i < d.statements.len() { Some(l.successor_within_block()) } else if got.len() == 1 { Some(bb(got[0]).start_location()) } else { None };
        let x = g.location_successor(l);
        if x != w { rep.bad("next", &format!("{text} {l:?}"), &format!("{w:?}"), &format!("{x:?}")); }
      }
      let t = &d.terminator().kind;
      let l = bb(b).start_location();
      let w = (matches!(t, mir::TerminatorKind::SwitchInt { .. }), matches!(t, mir::TerminatorKind::FalseEdge { .. }));
      let x = (m.is_terminator_switchint(l), g.is_false_edge(bb(b)));
      if x != w { rep.bad("terminator", &format!("{text} block {b}"), &format!("{w:?}"), &format!("{x:?}")); }
    }
    // dominance, of the graph as it is
    let exits: Vec<usize> = (0 .. n).filter(|&b| matches!(body.basic_blocks[bb(b)].terminator().kind, mir::TerminatorKind::Return)).collect();
    let (doms, pdoms) = (domin(&e, n, 0), post(&e, n, &exits));
    for a in 0 .. n { for b in 0 .. n {
      let w = (doms[b].contains(&a), pdoms[b].contains(&a));
      let x = (m.dominates(bb(a), bb(b)), m.post_dominates(bb(a), bb(b)));
      if x != w { rep.bad("dominance", &format!("{text} {a} {b}"), &format!("{w:?}"), &format!("{x:?}")); }
      let (la, lb) = (body.basic_blocks[bb(a)].statements.len(), body.basic_blocks[bb(b)].statements.len());
      for (i, j) in [(0, 0), (0, lb), (la, 0), (la, lb), (la / 2, lb / 2), (la / 2 + 1, lb / 2)] {
        let (p, q) = (Location { block: bb(a), statement_index: i }, Location { block: bb(b), statement_index: j });
        let w = if a == b { (i <= j, i >= j) } else { w };
        let x = (m.ldominates(p, q), m.lpost_dominates(p, q));
        if x != w { rep.bad("dominance", &format!("{text} {p:?} {q:?}"), &format!("{w:?}"), &format!("{x:?}")); }
      }
    } }
    rep.count("dominance");
    // the map of source nodes
    let mut at: BTreeMap<Location, HirId> = BTreeMap::new();
    for b in 0 .. n {
      let d = &body.basic_blocks[bb(b)];
      if d.is_cleanup && mode == GatherMode::IgnoreCleanup { continue; }
      for i in 0 ..= d.statements.len() { let l = Location { block: bb(b), statement_index: i };
        let info = if i < d.statements.len() { d.statements[i].source_info } else { d.terminator().source_info };
        at.insert(l, body.source_scopes[info.scope].local_data.as_ref().assert_crate_local().lint_root); }
    }
    let mut nodes: Vec<HirId> = vec![];
    for h in at.values() { for x in std::iter::once(*h).chain(tcx.hir().parent_id_iter(*h)) { if !nodes.contains(&x) { nodes.push(x); } } }
    let mut lets = Lets(vec![]); lets.visit_body(tcx.hir().body(id));
    for l in &lets.0 { if !nodes.contains(&l.hir_id) { nodes.push(l.hir_id); } }
    let shown = |l: &Location| { let d = &body.basic_blocks[l.block]; use mir::TerminatorKind as T;
      !(d.statements.is_empty() && matches!(d.terminator().kind, T::FalseUnwind { .. } | T::FalseEdge { .. })) && !matches!(d.terminator().kind, T::Unreachable) };
    let listed = |h: HirId, nested: bool| -> (BTreeSet<Location>, bool) { let all: Vec<Location> = at.iter().filter(|(_, x)| **x == h || (nested && tcx.hir().parent_id_iter(**x).any(|y| y == h))).map(|(l, _)| *l).collect(); (all.iter().copied().filter(|l| shown(l)).collect(), all.is_empty()) };
    for &h in &nodes { for depth in [GatherDepth::Outer, GatherDepth::Nested] {
      let nested = depth == GatherDepth::Nested;
      let (want, none) = listed(h, nested);
      let what = format!("{text} {h:?} nested: {nested} cleanup: {}", mode == GatherMode::All);
      rep.count("locations");
      match m.get_mir_locations(h, depth) {
        None => if !none { rep.bad("locations", &what, &format!("{want:?}"), "none"); },
        Some(x) => {
          let got: Vec<Location> = x.values().collect(); let gs: BTreeSet<Location> = got.iter().copied().collect();
          if none || gs != want || gs.len() != got.len() { rep.bad("locations", &what, &format!("{want:?} none: {none}"), &format!("{got:?}")); continue; }
          if x.locations.values().any(|v| v.is_empty() || v.windows(2).any(|w| w[0] >= w[1])) { rep.bad("order", &what, "rising indices", &format!("{x:?}")); }
          let bs: BTreeSet<usize> = want.iter().map(|l| l.block.as_usize()).collect();
          let first: Vec<usize> = bs.iter().copied().filter(|&c| bs.iter().all(|&b| doms[b].contains(&c))).collect();
          let last: Vec<usize> = bs.iter().copied().filter(|&c| bs.iter().all(|&b| pdoms[b].contains(&c))).collect();
          let fits = |o: Option<BasicBlock>, v: &[usize]| match o { Some(b) => v.contains(&b.as_usize()), None => v.is_empty() };
          if !fits(x.entry_block, &first) || !fits(x.exit_block, &last) { rep.bad("ends", &what, &format!("{first:?} {last:?} of {bs:?}"), &format!("{:?} {:?}", x.entry_block, x.exit_block)); continue; }
          if bs.is_empty() { continue; }
          let lo = x.entry_block.map(|b| *want.iter().filter(|l| l.block == b).min().unwrap());
          let hi = x.exit_block.map(|b| *want.iter().filter(|l| l.block == b).max().unwrap());
          let both = match (lo, hi) { (Some(a), Some(b)) => Some((a, b)), _ => None };
          if x.entry_location() != lo || x.exit_location() != hi || x.get_entry_exit_locations() != both { rep.bad("ends", &what, &format!("{lo:?} {hi:?}"), &format!("{:?} {:?} {:?}", x.entry_location(), x.exit_location(), x.get_entry_exit_locations())); }
        }
      }
    } }
    for l in &lets.0 {
      let places = |v: Vec<mir::Place>| -> BTreeSet<String> { v.iter().map(|p| format!("{p:?}")).collect() };
      let want: BTreeSet<String> = listed(l.hir_id, false).0.iter().filter_map(|x| match body.basic_blocks[x.block].statements.get(x.statement_index).map(|s| &s.kind) { Some(mir::StatementKind::FakeRead(f)) => match f.0 { mir::FakeReadCause::ForLet(_) => Some(format!("{:?}", f.1)), _ => None }, _ => None }).collect();
      rep.count(if want.is_empty() { "let-without" } else { "let" });
      let got = places(m.local_assigned_place(l));
      if got != want { rep.bad("let", &format!("{text} {:?}", l.hir_id), &format!("{want:?}"), &format!("{got:?}")); }
    }
  }
}
#[test]
fn vp_c08() {
  let mut rep = Rep::new();
  let mut r = Rng::new(8);
  let (n, k) = if thorough() { (150, 60000) } else { (10, 4000) };
  graphs(&mut rep, &mut r, k);
  let random: Vec<String> = (0 .. n).map(|i| vpf::program(&mut r, i)).collect();
  for src in random.into_iter().chain(vpp::groups()).chain(vpp::FLOWS.iter().map(|x| x.to_string())).chain(vpp::STEPS.iter().map(|x| format!("{}{x}", vpp::PRE))) {
    vprc::each_body(&src, |tcx, id| go(&mut rep, tcx, id));
  }
  rep.done();
}
