// Which uses are shown when the first error stands at some place of the body: own filter over the real list of uses.
include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
use super::*;

fn text(b: &PermissionsBoundary) -> String { format!("{:?} {:?} {:?} {:?} {:?}", b.location, b.byte_location, b.expected, b.actual, b.expecting_flow.as_ref().map(|f| (f.is_violation, format!("{:?}", f.kind)))) }

pub fn cutoff<'tcx>(rep: &mut crate::errors::vp_c11::vpc::Rep, r: &mut crate::errors::vp_c11::vpc::Rng, tcx: TyCtxt<'tcx>, body_id: rustc_hir::BodyId, src: &str) {
  let id = tcx.hir().body_owner_def_id(body_id);
  for shown in [false, true] {
    fluid_let::fluid_set!(ENABLE_FLOW_PERMISSIONS, shown);
    let a = AquascopeAnalysis::new(tcx, body_id);
    let outer = a.permissions.body_with_facts.body.span;
    if a.permissions.body_with_facts.body.tainted_by_errors.is_some() { return; }
    let n = (outer.hi().0 - outer.lo().0) as usize;
    for round in 0..6 {
      // the first round keeps the compiler's own errors
      if round > 0 {
        errors::track_body_diagnostics(id);
        for _ in 0..r.below(4) {
          let x = r.below(n) as u32; let y = x + r.below(9) as u32;
          let s = if r.below(8) == 0 { rustc_span::DUMMY_SP } else { outer.with_lo(outer.lo() + rustc_span::BytePos(x)).with_hi(outer.lo() + rustc_span::BytePos(y.min(n as u32))) };
          let mut d = rustc_errors::DiagInner::new(if r.below(4) > 0 { rustc_errors::Level::Error } else { rustc_errors::Level::Warning }, "m");
          d.sort_span = s;
          let f = &rustc_errors::TRACK_DIAGNOSTIC;
          (**f)(d, &mut |_| None);
        }
      }
      let cut = errors::get_span_of_first_error(id).and_then(|s| s.as_local(outer)).map(|s| ByteRange::from_span(s, tcx.sess.source_map()).unwrap().end);
      let Ok(uses) = get_path_boundaries(&a.permissions) else { continue };
      let mut want = vec![];
      for u in uses {
        let Some(b) = path_to_perm_boundary(u, &a) else { continue };
        let past = match cut { Some(c) => b.byte_location > c, None => false };
        if b.expecting_flow.is_some() || !past { want.push(text(&b)); }
        let v = (b.expected.read && !b.actual.read) || (b.expected.write && !b.actual.write) || (b.expected.drop && !b.actual.drop);
        if v != b.is_violation() { rep.bad("violation", &text(&b), &format!("{v}"), &format!("{}", b.is_violation())); }
      }
      let got: Vec<String> = compute_permission_boundaries(&a).unwrap().iter().map(text).collect();
      let input = format!("cut at {cut:?} in {src}");
      rep.case(if cut.is_some() { "cut" } else { "no error" }, &input);
      if want != got { rep.bad("shown", &input, &format!("{want:?}"), &format!("{got:?}")); }
    }
    errors::track_body_diagnostics(id);
  }
}
