use super::*;
impl<'a, 'tcx: 'a> HirStepPoints<'a, 'tcx> {
  pub(crate) fn vp_builder(self) -> SegmentedMirBuilder<'a, 'tcx> { self.mir_segments }
}
