// Every use the real code finds in compiled bodies, resolved again here place by place, against the boundary it reports.
include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_rustc.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_progs.rs"));
use super::*;
use vpc::*;

const MORE: &[&str] = &[
  "fn k0(mut a: [[i32; 3]; 3], i: usize, j: usize) -> i32 { a[i][j] = a[j][i]; let r = &mut a[i]; r[j] += a[0][0]; a[i][j] }",
  "fn k1(mut p: P, q: P) { p.a = q.a; p.b.0 = q.b.0; p.b.1 += q.b.1; take(&p.c); take((p.a, q.c)); }",
  "fn k2(mut v: Vec<String>, s: String) { v.push(s); v[0] = v[1].clone(); let n = v.len() + v.capacity(); take(n); take(P { a: v.remove(0), b: (String::new(), 3), c: Box::new(String::new()), d: [1, 2, 3] }); }",
  "fn k3<'a, 'b>(x: &'a mut Vec<&'b str>, y: &'b str, z: &'a str) { x.push(y); x.push(z); let w = &*x; take(w.len()); }",
  "fn k4<'a>(x: &'a mut i32, y: &mut i32) -> &'a mut i32 { *y = *x; if *x > 0 { x } else { y } }",
  "fn k5(e: E) -> i32 { if let E::B { x, y: ref z } = e { take(z); x } else { match e { E::A(ref s) if s.len() > 2 => 1, _ => 0 } } }",
  "fn k6(x: &mut (i32, i32), f: &dyn Fn(i32) -> i32) { let (ref mut a, ref b) = *x; *a = f(*b); x.0 = f(x.1) + f(x.0); println!(\"{} {:?}\", x.0, x); }",
  "fn k7(mut s: String) { let t = &mut s; let c = || t.push('a'); take(c); s.push('b'); let n = s.len(); let d = move |k: usize| s.len() + n + k; take(d(1)); }",
  "fn k8(v: &[i32], mut i: usize) -> i32 { let mut t = 0; while i < v.len() { t += v[i]; i += 1; } let [a, .., b] = v else { return t }; a + b - -t }",
  "fn k9(mut b: Box<(String, Box<i32>)>) { *b.1 = 3; b.0.push('x'); let (s, n) = *b; take(s); take(*n as u8); }",
  "fn l0(x: &str, xs: &str) -> usize { let xx = x; xx.len() + xs.len() }\nfn l1(aa: String, ab: String) { take((&aa, &ab)); let c = [aa, ab]; take(c); }",
  "fn l2(mut n: u32, c: bool) -> u32 { if c && n > 0 || n < 9 { n = n * n + n; } let f = !c; take(f); n }",
];

type U<'tcx> = (Location, Place<'tcx>);

fn used<'tcx>(tcx: TyCtxt<'tcx>, b: &Body<'tcx>, l: Location, lhs: bool) -> Vec<U<'tcx>> {
  let mut out: Vec<Place<'tcx>> = vec![];
  let Either::Left(s) = b.stmt_at(l) else { return vec![] };
  match &s.kind {
    StatementKind::Assign(a) => {
      if lhs { out.push(a.0); } else {
        let mut ops: Vec<&Operand<'tcx>> = vec![];
        match &a.1 {
          Rvalue::Use(o) | Rvalue::Repeat(o, _) | Rvalue::Cast(_, o, _) | Rvalue::UnaryOp(_, o) | Rvalue::ShallowInitBox(o, _) => ops.push(o),
          Rvalue::Ref(_, _, p) | Rvalue::Len(p) | Rvalue::Discriminant(p) | Rvalue::CopyForDeref(p) | Rvalue::RawPtr(_, p) => out.push(*p),
          Rvalue::BinaryOp(_, two) => { ops.push(&two.0); ops.push(&two.1); }
          Rvalue::Aggregate(_, f) => ops.extend(f.iter()),
          _ => {}
        }
        for o in ops { match o { Operand::Copy(p) | Operand::Move(p) => out.push(*p), Operand::Constant(_) => {} } }
      }
    }
    StatementKind::SetDiscriminant { place, .. } => out.push(**place),
    StatementKind::FakeRead(f) => out.push(f.1),
    _ => {}
  }
  out.into_iter().filter(|p| p.is_source_visible(tcx, b)).map(|p| (l, p)).collect()
}

fn candidates<'tcx>(a: &AquascopeAnalysis<'tcx>, b: &Body<'tcx>, h: HirId, lhs: bool) -> Option<Vec<U<'tcx>>> {
  let locs = a.ir_mapper.get_mir_locations(h, GatherDepth::Nested)?;
  let mut v = vec![];
  for l in locs.values() { v.extend(used(a.permissions.tcx, b, l, lhs)); }
  Some(v)
}

fn choose<'tcx>(tcx: TyCtxt<'tcx>, b: &Body<'tcx>, h: HirId, c: &[U<'tcx>]) -> Option<U<'tcx>> {
  if c.len() < 2 { return c.first().copied(); }
  if let Some(s) = locals_by_visible_distance(tcx, h, b) {
    for x in c { if x.1.local == s.local { return Some(*x); } }
    return None;
  }
  let mut best: Option<U<'tcx>> = None;
  for x in c {
    if x.1.local != c[0].1.local { continue; }
    if best.is_none_or(|y| x.1.projection.len() > y.1.projection.len()) { best = Some(*x); }
  }
  best
}

fn constraints<'tcx>(a: &AquascopeAnalysis<'tcx>, h: HirId) -> Option<Vec<(Origin, Origin)>> {
  let locs = a.ir_mapper.get_mir_locations(h, GatherDepth::Nested)?;
  let p = &a.permissions;
  let mut v = vec![];
  for l in locs.values() {
    let pts = p.location_to_points(l);
    for x in &p.polonius_input_facts.subset_base { if pts.contains(&x.2) && !p.is_universal_subset((x.0, x.1)) { v.push((x.0, x.1)); } }
  }
  Some(v)
}

fn flow<'tcx>(a: &AquascopeAnalysis<'tcx>, ctx: HirId, h: HirId, shown: bool) -> Option<(FlowEdgeKind, bool)> {
  if !shown { return None; }
  let rf = a.permissions.region_flows();
  let around = constraints(a, ctx)?;
  if !around.iter().any(|x| rf.is_abstract_member(x.1)) { return None; }
  let here = constraints(a, h)?;
  for (f, t) in around {
    let k = rf.flow_kind(f, t);
    if rf.is_abstract_member(t) && !matches!(k, FlowEdgeKind::Ok) && here.iter().any(|y| y.1 == f || y.1 == t) { return Some((k, true)); }
  }
  Some((FlowEdgeKind::Ok, false))
}

fn body<'tcx>(rep: &mut Rep, tcx: TyCtxt<'tcx>, body_id: rustc_hir::BodyId) {
  let text = tcx.sess.source_map().span_to_snippet(tcx.hir().span(tcx.hir().body_owner(body_id))).unwrap_or_default();
  for shown in [false, true] {
    fluid_let::fluid_set!(ENABLE_FLOW_PERMISSIONS, shown);
    let a = AquascopeAnalysis::new(tcx, body_id);
    let c = &a.permissions;
    let b = &c.body_with_facts.body;
    if b.tainted_by_errors.is_some() { return; }
    let (Ok(uses), Ok(again)) = (get_path_boundaries(c), get_path_boundaries(c)) else { continue };
    for (pb, pb2) in uses.into_iter().zip(again) {
      let hir = tcx.hir();
      let input = format!("{} in {text}{}", hir.node_to_string(pb.hir_id), if shown { " (flows)" } else { "" });
      rep.case(if shown { "use with flows" } else { "use" }, &input);
      let mut at = None;
      for h in std::iter::once(pb.hir_id).chain(hir.parent_iter(pb.hir_id).map(|x| x.0)) {
        at = candidates(&a, b, h, pb.is_lhs).and_then(|v| choose(tcx, b, h, &v));
        if at.is_some() { break; }
      }
      let want = at.map(|(l, p)| {
        let d = c.permissions_data_at_point(c.place_to_path(&p), c.location_to_point(l));
        let s = pb.location.as_local(b.span).unwrap_or(pb.location);
        let f = flow(&a, pb.flow_context, pb.hir_id, shown).map(|(k, v)| format!("{k:?} {v} {:?}", a.span_to_range(hir.span(pb.flow_context).as_local(b.span).unwrap_or(b.span))));
        format!("{d:?} {:?} {:?} {:?} {:?} {f:?}", d.permissions_ignore_liveness(), pb.expected.0, a.span_to_range(s).end, ByteRange::from_span(s, tcx.sess.source_map()).unwrap().end)
      });
      let got = path_to_perm_boundary(pb2, &a).map(|r| {
        let f = r.expecting_flow.as_ref().map(|f| format!("{:?} {} {:?}", f.kind, f.is_violation, f.flow_context));
        format!("{:?} {:?} {:?} {:?} {:?} {f:?}", r.data, r.actual, r.expected, r.location, r.byte_location)
      });
      if want != got { rep.bad("boundary", &input, &format!("{want:?}"), &format!("{got:?}")); }
    }
  }
}

#[test]
fn vp_c24() {
  let mut rep = Rep::new();
  for src in vpp::groups().into_iter().chain([format!("{}{}", vpp::PRE, MORE.join("\n")), vpp::FLOWS.join("\n")]) {
    vprc::each_body(&src, |tcx, id| body(&mut rep, tcx, id));
  }
  rep.done();
}
