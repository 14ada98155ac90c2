include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_rustc.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_progs.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_flow.rs"));
use super::*;
use rustc_hir::intravisit::Visitor as _;
use vpc::*;
type Rows<'tcx> = Vec<(Place<'tcx>, PermissionsDataDiff)>;
type Step<'tcx> = (Location, MirSegment, rustc_span::Span, Rows<'tcx>);
fn diff<'tcx>(b: &TableBuilder<'_, 'tcx>, s: MirSegment, keep: impl Fn(Local) -> bool) -> Rows<'tcx> {
  let at = |l| b.ctxt.permissions_domain_at_point(b.ctxt.location_to_point(l));
  let (x, y) = (at(s.from), at(s.to));
  let d = (&x).diff(&y);
  d.into_iter().filter(|(p, _)| keep(p.local)).collect()
}
fn linear<'tcx>(b: &TableBuilder<'_, 'tcx>, id: SegmentId, out: &mut Vec<Step<'tcx>>) {
  let s = b.mir.get_segment(id);
  if s.segment.from == s.segment.to { return; }
  let above: Vec<Local> = b.mir.parent_scopes(s.scope).flat_map(|c| b.locals_at_scope.get(&c).cloned().unwrap_or_default()).collect();
  out.push((s.segment.to, s.segment, s.span, diff(b, s.segment, |l| !above.contains(&l))));
}
// every step the segmented body stands for
fn want<'tcx>(b: &TableBuilder<'_, 'tcx>, cid: CollectionId, out: &mut Vec<Step<'tcx>>) {
  for &p in b.mir.get_collection(cid).data.iter() {
    match p {
      CFKind::Linear(s) => linear(b, s, out),
      CFKind::Branch(x) => {
        let br = b.mir.get_branch(x);
        for &s in br.splits.iter() { linear(b, s, out); }
        for &c in br.nested.iter() { want(b, c, out); }
        let here = b.locals_at_scope.get(&b.mir.get_branch_scope(x)).cloned().unwrap_or_default();
        let sp = b.ctxt.location_to_span(br.reach.from).with_hi(b.ctxt.location_to_span(br.reach.to).hi());
        out.push((br.reach.to, br.reach, sp, diff(b, br.reach, |l| here.contains(&l))));
      }
    }
  }
}
fn show(s: &Step) -> String {
  let mut r: Vec<String> = s.3.iter().map(|x| format!("{:?}: {}", x.0, json(&x.1))).collect(); r.sort();
  format!("{:?} {:?} {:?} {}", s.0, s.1, s.2, r.join(";"))
}
fn none<A: Stepable>(v: &ValueStep<A>) -> bool { if let ValueStep::None { .. } = v { true } else { false } }
fn opp(a: &ValueStep<bool>, b: &ValueStep<bool>) -> bool {
  match (a, b) { (ValueStep::High { .. }, ValueStep::Low) | (ValueStep::Low, ValueStep::High { .. }) => true, _ => none(a) && none(b) }
}
fn vs<A: Stepable>(v: &ValueStep<A>) -> String { match v { ValueStep::High { value } => format!("+{value:?}"), ValueStep::Low => "-".into(), ValueStep::None { value } => format!("={value:?}") } }
fn json(d: &PermissionsDataDiff) -> String {
  [vs(&d.permissions.read), vs(&d.permissions.write), vs(&d.permissions.drop), vs(&d.is_live), vs(&d.type_droppable), vs(&d.type_writeable), vs(&d.path_moved),
   vs(&d.path_uninitialized), vs(&d.loan_read_refined), vs(&d.loan_write_refined), vs(&d.loan_drop_refined)].join(" ")
}
// what the lines show, from the steps alone; where the order of steps is not fixed every outcome is accepted
fn lines<'tcx>(rep: &mut Rep, text: &str, b: &TableBuilder<'_, 'tcx>, steps: &[Step<'tcx>], mode: PermIncludeMode, got: &[PermissionsLineDisplay]) {
  let (tcx, body) = (b.ctxt.tcx, &b.ctxt.body_with_facts.body);
  let sm = tcx.sess.source_map();
  let err = errors::get_span_of_first_error(b.ctxt.def_id.expect_local()).and_then(|s| s.as_local(body.span));
  if err.is_some() { rep.count("with-error"); }
  let mut by: std::collections::BTreeMap<usize, Vec<(&Step<'tcx>, rustc_span::Span, Rows<'tcx>)>> = Default::default();
  for s in steps {
    let sp = sm.span_extend_to_line(s.2).shrink_to_hi();
    let rows: Rows = s.3.iter().filter(|(p, d)| {
      let dead = if let ValueStep::None { value: Some(false) } = d.is_live { true } else { false };
      let unchanged = none(&d.permissions.read) && none(&d.permissions.write) && none(&d.permissions.drop);
      p.is_source_visible(tcx, body) && !dead && (mode == PermIncludeMode::All || !unchanged)
    }).cloned().collect();
    if rows.is_empty() { continue; }
    if let Some(e) = err { if sp.lo() > e.hi() { continue; } }
    by.entry(sm.lookup_char_pos(sp.hi()).line).or_default().push((s, sp, rows));
  }
  let mut seen = 0;
  for (line, parts) in &by {
    let mut per: std::collections::BTreeMap<(usize, usize, String), (Place<'tcx>, Vec<PermissionsDataDiff>)> = Default::default();
    for (_, _, rows) in parts { for (p, d) in rows {
      per.entry((p.local.as_usize(), p.projection.len(), format!("{p:?}"))).or_insert((*p, vec![])).1.push(*d);
    } }
    // each place: what may be shown of it
    let mut may: Vec<((usize, usize), String, Vec<Option<String>>)> = vec![];
    for ((l, n, _), (p, ds)) in &per {
      let cancel = |a: &PermissionsDataDiff, b: &PermissionsDataDiff| opp(&a.permissions.read, &b.permissions.read) && opp(&a.permissions.write, &b.permissions.write) && opp(&a.permissions.drop, &b.permissions.drop);
      let opts: Vec<Option<String>> = match ds.len() {
        1 => vec![Some(json(&ds[0]))],
        2 if cancel(&ds[0], &ds[1]) => vec![None],
        2 => ds.iter().map(|d| Some(json(d))).collect(),
        _ => ds.iter().map(|d| Some(json(d))).chain(std::iter::once(None)).collect(),
      };
      if ds.len() > 1 { rep.count(if opts.len() == 1 { "cancels" } else { "clashes" }); }
      may.push(((*l, *n), p.to_string(tcx, body).unwrap_or_else(|| "<var>".into()), opts));
    }
    let at = b.analysis.span_to_range(parts[0].1);
    let here: Vec<&PermissionsLineDisplay> = got.iter().filter(|d| d.location == at).collect();
    let must = may.iter().any(|m| !m.2.contains(&None));
    let could = may.iter().any(|m| m.2.iter().any(|o| o.is_some()));
    let desc = || format!("line {line}: {may:?}");
    if here.len() > 1 || (must && here.is_empty()) || (!could && !here.is_empty()) {
      rep.bad("line", text, &desc(), &format!("{here:?}")); continue;
    }
    seen += here.len();
    let Some(d) = here.first() else { continue };
    rep.count("line");
    if d.state.len() != 1 { rep.bad("tables", text, "one table", &format!("{d:?}")); continue; }
    let t = &d.state[0];
    let ends: Vec<_> = parts.iter().map(|(s, _, _)| (b.analysis.span_to_range(b.ctxt.location_to_span(s.1.from)), b.analysis.span_to_range(b.ctxt.location_to_span(s.1.to)))).collect();
    if !ends.contains(&(t.from, t.to)) { rep.bad("ends", text, &format!("line {line} {ends:?}"), &format!("{:?} {:?}", t.from, t.to)); }
    let rows: Vec<(String, String)> = t.state.iter().map(|(n, d)| (n.clone(), json(d))).collect();
    // by variable, then by depth: rows consumed group by group
    let mut rest = &rows[..];
    let mut ok = true;
    let mut keys: Vec<(usize, usize)> = may.iter().map(|m| m.0).collect(); keys.dedup();
    for k in keys {
      let mut grp: Vec<_> = may.iter().filter(|m| m.0 == k).collect();
      while !rest.is_empty() {
        let Some(i) = grp.iter().position(|m| m.1 == rest[0].0 && m.2.contains(&Some(rest[0].1.clone()))) else { break };
        grp.remove(i); rest = &rest[1..];
      }
      if grp.iter().any(|m| !m.2.contains(&None)) { ok = false; }
    }
    if !ok || !rest.is_empty() { rep.bad("rows", text, &desc(), &format!("{rows:?}")); }
  }
  if seen != got.len() { rep.bad("extra", text, &format!("{seen} lines"), &format!("{got:?}")); }
}
fn go<'tcx>(rep: &mut Rep, tcx: rustc_middle::ty::TyCtxt<'tcx>, id: rustc_hir::BodyId) {
  let a = AquascopeAnalysis::new(tcx, id);
  let c = &a.permissions; let body = &c.body_with_facts.body;
  let text = tcx.sess.source_map().span_to_snippet(tcx.hir().span_with_body(tcx.hir().body_owner(id))).unwrap_or_default();
  let mut h = super::super::hir_steps::HirStepPoints::make(tcx, body, id, &a.ir_mapper).unwrap();
  h.visit_nested_body(id);
  if h.get_unsupported_feature().is_some() || h.get_internal_error().is_some() { rep.count("refused"); return; }
  rep.case("body", &text);
  let (start, m, l) = h.vp_parts();
  let Ok(m) = m.freeze() else { rep.count("refused"); return; };
  let b = TableBuilder { analysis: &a, ctxt: c, mir: &m, locals_at_scope: l };
  let mut got = Tables::default();
  b.insert_collection(&mut got, m.first_collection);
  let mut w = vec![]; want(&b, m.first_collection, &mut w);
  let mut g: Vec<String> = got.iter().flat_map(|(k, v)| v.iter().map(move |t| show(&(*k, t.segment, t.span, t.data.iter().map(|(p, d)| (*p, *d)).collect())))).collect();
  let mut ws: Vec<String> = w.iter().map(show).collect();
  ws.sort(); g.sort();
  if ws != g { rep.bad("steps", &text, &format!("{ws:?}"), &format!("{g:?}")); }
  let sp = tcx.hir().span(tcx.hir().body(id).value.hir_id);
  let first = c.domain_bottom();
  let then = c.permissions_domain_at_point(c.location_to_point(start));
  w.push((start, MirSegment { from: start, to: start }, sp.shrink_to_lo(), (&first).diff(&then).into_iter().collect()));
  for mode in [PermIncludeMode::Changes, PermIncludeMode::All] { lines(rep, &text, &b, &w, mode, &b.finalize_body(start, sp, mode)); }
}
#[test]
fn vp_c10() {
  let mut rep = Rep::new();
  let mut r = Rng::new(10);
  let random: Vec<String> = (0 .. if thorough() { 200 } else { 12 }).map(|i| vpf::program(&mut r, i).replace(" ; ", ";\n").replace("{ ", "{\n")).collect();
  for src in random.into_iter().chain(vpp::groups()).into_iter().chain(vpp::FLOWS.iter().map(|x| x.to_string())).chain(vpp::STEPS.iter().map(|x| format!("{}{x}", vpp::PRE))) {
    vprc::each_body(&src, |tcx, id| { go(&mut rep, tcx, id); });
  }
  rep.done();
}
