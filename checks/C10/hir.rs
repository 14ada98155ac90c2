use super::*;
impl<'a, 'tcx: 'a> HirStepPoints<'a, 'tcx> {
  pub(crate) fn vp_parts(self) -> (Location, SegmentedMirBuilder<'a, 'tcx>, HashMap<ScopeId, Vec<Local>>) { (self.start_loc, self.mir_segments, self.locals_at_scope) }
}
