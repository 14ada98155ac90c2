"""C11: what is shown stops at the first error of the body under analysis."""
import iters
import maps

E = "crates/aquascope/src/errors/mod.rs"
B = "crates/aquascope/src/analysis/boundaries/mod.rs"

BASE = maps.USE + "verus! {\n" + r"""
#[derive(Copy, Clone)]
pub struct Span { pub x: u64 }
pub uninterp spec fn lo_of(s: Span) -> u32;
impl Span { #[verifier::external_body] pub fn lo(&self) -> (r: u32) ensures r == lo_of(*self) { unimplemented!() } }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub struct LocalDefId { pub x: u64 }
"""

DIAGS = r"""
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, x: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(x);
/// a message of the compiler
pub struct DiagInner { pub sort_span: Span, pub x: u64 }
pub uninterp spec fn an_error(d: DiagInner) -> bool;
impl DiagInner { #[verifier::external_body] pub fn is_error(&self) -> (r: bool) ensures r == an_error(*self) { unimplemented!() } }
/// where the compiler reports its messages
#[verifier::external_body] #[verifier::reject_recursive_types(R)] pub struct Report<R> { p: core::marker::PhantomData<R> }
impl<R> Report<R> {
  pub uninterp spec fn reported(&self) -> Seq<DiagInner>;
  pub uninterp spec fn answer(&self, d: DiagInner) -> R;
  #[verifier::external_body] pub fn call(&mut self, d: DiagInner) -> (r: R) ensures final(self).reported() == old(self).reported().push(d), r == old(self).answer(d) { unimplemented!() }
}
"""

FIRST = r"""
/// The first error: of the errors recorded the one that starts first, the earliest recorded of those.
pub open spec fn first_error(d: Seq<DiagnosticInfo>, r: Option<Span>) -> bool {
  match r {
    Some(s) => exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).is_error && d[i].primary_span == s
      && forall|j: int| 0 <= j < d.len() && (#[trigger] d[j]).is_error ==> lo_of(s) <= lo_of(d[j].primary_span) && (j < i ==> lo_of(s) < lo_of(d[j].primary_span)),
    None => forall|j: int| 0 <= j < d.len() ==> !(#[trigger] d[j]).is_error,
  }
}
pub open spec fn err_span(d: DiagnosticInfo) -> Option<Span> { if d.is_error { Some(d.primary_span) } else { None } }
/// where in the list the k-th present one is
pub open spec fn at_of(s: Seq<Option<Span>>) -> Seq<int> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else { let r = at_of(s.drop_last()); if s.last() is Some { r.push(s.len() - 1) } else { r } }
}
pub proof fn lemma_at(s: Seq<Option<Span>>)
  ensures at_of(s).len() == vp_somes(s).len(),
    forall|k: int| 0 <= k < at_of(s).len() ==> 0 <= #[trigger] at_of(s)[k] < s.len() && s[at_of(s)[k]] == Some(vp_somes(s)[k]),
    forall|k: int, l: int| 0 <= k < l < at_of(s).len() ==> #[trigger] at_of(s)[k] < #[trigger] at_of(s)[l],
    forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Some ==> exists|k: int| 0 <= k < at_of(s).len() && #[trigger] at_of(s)[k] == i,
  decreases s.len()
{
  if s.len() > 0 {
    let p = s.drop_last(); lemma_at(p); let r = at_of(p);
    assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Some implies exists|k: int| 0 <= k < at_of(s).len() && #[trigger] at_of(s)[k] == i by {
      if i < s.len() - 1 { assert(p[i] is Some); let k = choose|k: int| 0 <= k < r.len() && #[trigger] r[k] == i; assert(at_of(s)[k] == i); } else { assert(at_of(s)[r.len() as int] == i); }
    }
  }
}
/// what filtering the errors and taking the one that starts first finds
pub proof fn lemma_found(d: Seq<DiagnosticInfo>, o: Seq<Option<Span>>, s: Seq<Span>, r: Option<Span>)
  requires o.len() == d.len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == err_span(d[i]), s == vp_somes(o), r is None <==> s.len() == 0,
    r is Some ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == r->Some_0 && forall|j: int| 0 <= j < s.len() ==> lo_of(s[i]) <= lo_of(#[trigger] s[j]) && (j < i ==> lo_of(s[i]) < lo_of(s[j])),
  ensures first_error(d, r)
{
  lemma_at(o);
  if r is Some {
    let k = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == r->Some_0 && forall|j: int| 0 <= j < s.len() ==> lo_of(s[i]) <= lo_of(#[trigger] s[j]) && (j < i ==> lo_of(s[i]) < lo_of(s[j]));
    let i = at_of(o)[k]; assert(o[i] == err_span(d[i])); assert(d[i].is_error && d[i].primary_span == r->Some_0);
    assert forall|j: int| 0 <= j < d.len() && (#[trigger] d[j]).is_error implies lo_of(s[k]) <= lo_of(d[j].primary_span) && (j < i ==> lo_of(s[k]) < lo_of(d[j].primary_span)) by {
      assert(o[j] == err_span(d[j])); assert(o[j] is Some); let l = choose|l: int| 0 <= l < at_of(o).len() && #[trigger] at_of(o)[l] == j; assert(s[l] == d[j].primary_span); if j < i { if l >= k { if l > k { assert(at_of(o)[k] < at_of(o)[l]); } } } }
  } else {
    assert forall|j: int| 0 <= j < d.len() implies !(#[trigger] d[j]).is_error by { if d[j].is_error { assert(o[j] == err_span(d[j])); assert(o[j] is Some); let l = choose|l: int| 0 <= l < at_of(o).len() && #[trigger] at_of(o)[l] == j; } }
  }
}
"""

STATE = [(r"(?s)CURRENT_BODY\.with\(\|id\| \{(.*?)\n  \}\);", r"{ let id = vp_body;\1\n  }", "thread-local state read as a parameter"),
         (r"(?s)BODY_DIAGNOSTICS\.with\(\|diagnostics\| \{(.*?)\n  \}\)", r"{ let diagnostics = vp_diags;\1\n  }", "thread-local state read as a parameter"),
         (r"BODY_DIAGNOSTICS\.with\(\|diagnostics\| ([^{}]*)\)\n", r"{ let diagnostics = vp_diags; \1 }\n", "thread-local state read as a parameter"),
         (r"let (mut )?(\w+) = \2\.borrow(_mut)?\(\);", "", "borrow of the state"), (r"\.borrow\(\)", "", "borrow of the state")]


def errors(ctx):
    u = ctx.unit("errors")
    u.raw(BASE + iters.STUBS + DIAGS)
    u.item(E, "struct", "DiagnosticInfo", attrs="#[derive(Copy, Clone)]")
    u.raw(FIRST)
    u.fn(E, "track_diagnostic", ret="r", spec="""ensures final(vp_diags)@ == old(vp_diags)@.push(DiagnosticInfo { primary_span: d.sort_span, is_error: an_error(d) }),
    final(f).reported() == old(f).reported().push(d), r == old(f).answer(d)""",
         subst=STATE + [(r"f: &mut dyn FnMut\(DiagInner\) -> R\)", "f: &mut Report<R>, vp_diags: &mut Vec<DiagnosticInfo>)", "callback by contract; state as a parameter"), (r"\(\*f\)\(", "f.call(", "callback by contract")])
    u.fn(E, "track_body_diagnostics", spec="ensures *final(vp_body) == Some(def_id), final(vp_diags)@ == Seq::<DiagnosticInfo>::empty()",
         subst=STATE + [(r"\(def_id: LocalDefId\)", "(def_id: LocalDefId, vp_body: &mut Option<LocalDefId>, vp_diags: &mut Vec<DiagnosticInfo>)", "state as a parameter")])
    u.fn(E, "errors_exist", ret="r", spec="ensures r == (vp_diags@.len() > 0)", subst=STATE + [(r"errors_exist\(\)", "errors_exist(vp_diags: &Vec<DiagnosticInfo>)", "state as a parameter")])
    u.fn(E, "get_span_of_first_error", ret="r", spec="requires *vp_body == Some(def_id),\n  ensures first_error(vp_diags@, r)",
         subst=STATE + iters.SUBST + [(r"\(def_id: LocalDefId\)", "(def_id: LocalDefId, vp_body: &Option<LocalDefId>, vp_diags: &Vec<DiagnosticInfo>)", "state as a parameter"),
                        (r"assert_eq!\(def_id, id\.unwrap\(\)\);", "let vp_x = id.unwrap(); assert(def_id == vp_x);", "an assertion that must hold"),
                        (r"(?s)(diagnostics\s*\.vp_iter\(\)\s*\.filter_map\(.*?\))(\s*)\.min_by_key\((.*?)\)\n",
                         r"let vp_f = \1; let ghost o = vp_f.opts(); let ghost s = vp_f.s(); let vp_r = vp_f\2.min_by_key(\3); proof { broadcast use {group_vp_ext}; assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] == err_span(vp_diags@[i]) by { assert(vp_refs(vp_diags@)[i] == &vp_diags@[i]); } lemma_found(vp_diags@, o, s, vp_r); } vp_r\n", "iterator named for the proof")],
         closures=[None, None, dict(types=["&DiagnosticInfo"], ret="r: Option<Span>", spec="ensures r == err_span(*d)"), dict(types=["&Span"], ret="r: u32", spec="ensures r == lo_of(*s)")])
    u.helpers()
    u.raw("} fn main() {}")
    return u


CUT = BASE + r"""
pub struct SourceMap { pub x: u64 }
pub struct Session { pub x: u64 }
impl Session { #[verifier::external_body] pub fn source_map(&self) -> &SourceMap { unimplemented!() } }
#[derive(Copy, Clone)] pub struct TyCtxt<'tcx> { pub sess: &'tcx Session }
pub struct DefId { pub x: u64 }
impl DefId { #[verifier::external_body] pub fn expect_local(&self) -> (r: LocalDefId) ensures r.x == self.x { unimplemented!() } }
pub struct Body { pub span: Span }
pub struct BodyWithFacts { pub body: Body }
pub struct PermissionsCtxt<'tcx> { pub tcx: TyCtxt<'tcx>, pub def_id: DefId, pub body_with_facts: BodyWithFacts }
pub struct AquascopeAnalysis<'tcx> { pub permissions: PermissionsCtxt<'tcx> }
#[derive(Copy, Clone)] pub struct CharPos { pub x: usize }
#[derive(Copy, Clone)] pub struct BytePos(pub usize);
impl vstd::std_specs::cmp::PartialOrdSpecImpl for BytePos { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &BytePos) -> Option<std::cmp::Ordering> { Some(if self.0 < o.0 { std::cmp::Ordering::Less } else if self.0 == o.0 { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater }) } }
impl PartialEqSpecImpl for BytePos { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &BytePos) -> bool { *self == *o } }
impl PartialEq for BytePos { #[verifier::external_body] fn eq(&self, o: &BytePos) -> bool { unimplemented!() } }
impl PartialOrd for BytePos { #[verifier::external_body] fn partial_cmp(&self, o: &BytePos) -> Option<std::cmp::Ordering> { unimplemented!() } }
pub struct ByteRange { pub start: BytePos, pub end: BytePos }
pub uninterp spec fn bytes_of(s: Span) -> ByteRange;
impl ByteRange { #[verifier::external_body] pub fn from_span(s: Span, m: &SourceMap) -> (r: core::result::Result<ByteRange, u8>) ensures r is Ok, r->Ok_0 == bytes_of(s) { unimplemented!() } }
pub uninterp spec fn local_part(s: Span, outer: Span) -> Option<Span>;
impl Span { #[verifier::external_body] pub fn as_local(self, outer: Span) -> (r: Option<Span>) ensures r == local_part(self, outer) { unimplemented!() } }
pub uninterp spec fn first_error_of(d: u64) -> Option<Span>;
pub mod errors { use super::*;
  verus! { #[verifier::external_body] pub fn get_span_of_first_error(d: LocalDefId) -> (r: Option<Span>) ensures r == first_error_of(d.x) { unimplemented!() } }
}
pub struct Error { pub x: u64 }
pub type Result<T> = core::result::Result<T, Error>;
#[derive(Copy, Clone)] pub struct Permissions { pub read: bool, pub write: bool, pub drop: bool }
#[derive(Copy, Clone)] pub struct PermissionsData { pub x: u64 }
#[derive(Copy, Clone)] pub struct FlowBoundary { pub x: u64 }
#[derive(Copy, Clone)] pub struct PathBoundary { pub x: u64 }
/// the uses the analysis marks, and what each reports (C24)
pub uninterp spec fn uses<'tcx>(c: &PermissionsCtxt<'tcx>) -> Result<Seq<PathBoundary>>;
pub uninterp spec fn reports<'tcx>(u: PathBoundary, a: &AquascopeAnalysis<'tcx>) -> Option<PermissionsBoundary>;
#[verifier::external_body] pub fn get_path_boundaries(c: &PermissionsCtxt<'_>) -> (r: Result<Vec<PathBoundary>>) ensures match r { Ok(v) => uses(c) is Ok && v@ == uses(c)->Ok_0, Err(e) => uses(c) is Err && uses(c)->Err_0 == e } { unimplemented!() }
#[verifier::external_body] pub fn path_to_perm_boundary(u: PathBoundary, a: &AquascopeAnalysis<'_>) -> (r: Option<PermissionsBoundary>) ensures r == reports(u, a) { unimplemented!() }
"""

CUT_SPEC = r"""
pub open spec fn cut<'tcx>(a: &AquascopeAnalysis<'tcx>) -> Option<Span> {
  match first_error_of(a.permissions.def_id.x) { Some(s) => local_part(s, a.permissions.body_with_facts.body.span), None => None }
}
/// shown: no error, or the use has a flow to show, or it does not lie behind the error
pub open spec fn shown<'tcx>(a: &AquascopeAnalysis<'tcx>, b: PermissionsBoundary) -> bool {
  cut(a) is None || b.expecting_flow is Some || b.byte_location.0 <= bytes_of(cut(a)->Some_0).end.0
}
pub open spec fn all<'tcx>(a: &AquascopeAnalysis<'tcx>) -> Seq<PermissionsBoundary> { vp_somes(Seq::new(uses(&a.permissions)->Ok_0.len(), |i: int| reports(uses(&a.permissions)->Ok_0[i], a))) }
"""


def cutoff(ctx):
    u = ctx.unit("cutoff")
    u.raw(CUT + iters.STUBS, stubs=("get_path_boundaries", "path_to_perm_boundary"))
    u.item(B, "struct", "PermissionsBoundary", attrs="#[derive(Copy, Clone)]", subst=[(r"\n  byte_location", "\n  pub byte_location", "visibility")])
    u.raw(CUT_SPEC)
    u.impl(B, "PermissionsBoundary", None, {"is_violation": dict(ret="r", spec="ensures r == ((self.expected.read && !self.actual.read) || (self.expected.write && !self.actual.write) || (self.expected.drop && !self.actual.drop))")})
    u.fn(B, "compute_permission_boundaries", ret="r", spec="""ensures match r { Ok(v) => uses(&analysis.permissions) is Ok && v@ == vp_pick(all(analysis), Seq::new(all(analysis).len(), |i: int| shown(analysis, all(analysis)[i]))), Err(e) => uses(&analysis.permissions) is Err }""",
         subst=iters.SUBST, start="  broadcast use {group_vp_ext};",
         closures=[dict(types=["PathBoundary"], ret="r: Option<PermissionsBoundary>", spec="ensures r == reports(pb, analysis)"),
                   dict(types=["Span"], ret="r: Option<Span>", spec="ensures r == local_part(s, analysis.permissions.body_with_facts.body.span)"),
                   dict(types=["&PermissionsBoundary"], ret="r: bool", spec="ensures r == shown(analysis, *pb)"),
                   dict(types=["Span"], ret="r: bool", spec="ensures r == (pb.expecting_flow is Some || pb.byte_location.0 <= bytes_of(error_span).end.0)")])
    u.helpers()
    u.raw("} fn main() {}")
    return u


RUN = r"""use vstd::prelude::*;
verus! {
#[derive(Copy, Clone)] pub struct Span { pub x: u64 }
#[derive(Copy, Clone)] pub struct CharRange { pub x: u64 }
#[derive(Copy, Clone)] pub struct ErrorGuaranteed { pub x: u64 }
#[derive(Copy, Clone)] pub struct BodyId { pub x: u64 }
pub struct SourceMap { pub x: u64 }
pub struct Session { pub x: u64 }
impl Session { #[verifier::external_body] pub fn source_map(&self) -> &SourceMap { unimplemented!() } }
#[derive(Copy, Clone)] pub struct TyCtxt<'tcx> { pub sess: &'tcx Session }
pub uninterp spec fn chars_of(s: Span) -> CharRange;
impl CharRange { #[verifier::external_body] pub fn from_span(s: Span, m: &SourceMap) -> (r: core::result::Result<CharRange, u8>) ensures r is Ok, r->Ok_0 == chars_of(s) { unimplemented!() }
  #[verifier::external_body] pub fn into(self) -> (r: Option<CharRange>) ensures r == Some(self) { unimplemented!() } }
pub struct Body { pub span: Span, pub tainted_by_errors: Option<ErrorGuaranteed> }
pub struct BodyWithFacts { pub body: Body }
pub struct PermissionsCtxt<'tcx> { pub tcx: TyCtxt<'tcx>, pub body_with_facts: BodyWithFacts }
pub struct AquascopeAnalysis<'tcx> { pub permissions: PermissionsCtxt<'tcx> }
pub struct PermissionsBoundary { pub x: u64 }
pub struct PermissionsLineDisplay { pub x: u64 }
pub struct LoanPoints { pub x: u64 }
pub struct LoanRegions { pub x: u64 }
pub struct MovePoints { pub x: u64 }
pub struct MoveRegions { pub x: u64 }
pub struct Failed { pub msg: String }
pub type AquascopeResult<T> = core::result::Result<T, AquascopeError>;
/// what the parts compute (C24 and this property, C10, C06)
pub uninterp spec fn analysed<'tcx>(tcx: TyCtxt<'tcx>, b: BodyId) -> AquascopeAnalysis<'tcx>;
pub uninterp spec fn the_uses<'tcx>(a: AquascopeAnalysis<'tcx>) -> core::result::Result<Vec<PermissionsBoundary>, Failed>;
pub uninterp spec fn the_steps<'tcx>(a: AquascopeAnalysis<'tcx>) -> core::result::Result<Vec<PermissionsLineDisplay>, Failed>;
pub uninterp spec fn the_loans<'tcx>(a: AquascopeAnalysis<'tcx>) -> (LoanPoints, LoanRegions);
pub uninterp spec fn the_moves<'tcx>(a: AquascopeAnalysis<'tcx>) -> (MovePoints, MoveRegions);
#[verifier::external_body] pub fn compute_permission_boundaries(a: &AquascopeAnalysis<'_>) -> (r: core::result::Result<Vec<PermissionsBoundary>, Failed>) ensures r == the_uses(*a) { unimplemented!() }
#[verifier::external_body] pub fn compute_permission_steps(a: &AquascopeAnalysis<'_>) -> (r: core::result::Result<Vec<PermissionsLineDisplay>, Failed>) ensures r == the_steps(*a) { unimplemented!() }
impl<'tcx> AquascopeAnalysis<'tcx> {
  #[verifier::external_body] pub fn new(tcx: TyCtxt<'tcx>, b: BodyId) -> (r: Self) ensures r == analysed(tcx, b) { unimplemented!() }
  #[verifier::external_body] pub fn construct_loan_info(&self) -> (r: (LoanPoints, LoanRegions)) ensures r == the_loans(*self) { unimplemented!() }
  #[verifier::external_body] pub fn construct_move_info(&self) -> (r: (MovePoints, MoveRegions)) ensures r == the_moves(*self) { unimplemented!() }
  #[verifier::external_body] pub fn span_to_range(&self, s: Span) -> (r: CharRange) ensures r == chars_of(s) { unimplemented!() }
}
"""

RUN_SPEC = r"""
/// a failed part reports its own message
impl From<Failed> for AquascopeError { #[verifier::external_body] fn from(e: Failed) -> (r: AquascopeError) ensures r == (AquascopeError::AnalysisError { msg: e.msg }) { unimplemented!() } }
pub open spec fn whole<'tcx>(a: AquascopeAnalysis<'tcx>, o: AnalysisOutput) -> bool {
  &&& the_uses(a) == Ok::<_, Failed>(o.boundaries) && the_steps(a) == Ok::<_, Failed>(o.steps)
  &&& the_loans(a) == (o.loan_points, o.loan_regions) && the_moves(a) == (o.move_points, o.move_regions)
  &&& o.body_range == chars_of(a.permissions.body_with_facts.body.span)
}
"""


def run(ctx):
    A = "crates/aquascope/src/analysis/mod.rs"
    u = ctx.unit("run")
    u.raw(RUN, stubs=("compute_permission_boundaries", "compute_permission_steps", "construct_loan_info", "construct_move_info", "span_to_range", "new"))
    u.item(A, "enum", "AquascopeError")
    u.item(A, "struct", "AnalysisOutput")
    u.raw(RUN_SPEC)
    u.impl(A, "AquascopeAnalysis", None, {"run": dict(ret="r", spec="""ensures ({ let a = analysed(tcx, body_id); let b = a.permissions.body_with_facts.body;
    &&& r matches Ok(o) ==> b.tainted_by_errors is None && whole(a, o)
    &&& r is Err ==> b.tainted_by_errors is Some || the_uses(a) is Err || the_steps(a) is Err
    &&& b.tainted_by_errors is Some ==> r == Err::<AnalysisOutput, AquascopeError>(AquascopeError::BuildError { range: Some(chars_of(b.span)) }) })""",
         subst=[(r"(?s)crate::analysis::permissions::utils::dump_mir_debug\(.*?\);", "/* debug dump dropped */", "debug dump")])})
    u.helpers()
    u.raw("} fn main() {}")
    return u


UNITS = [("errors", errors), ("cutoff", cutoff), ("run", run)]
TRUSTED = ["rustc DiagInner (sort_span, is_error) and Span restated: the compiler calls the tracker for each message and is_error is its own judgement; Span::as_local, ByteRange::from_span: uninterpreted functions of their arguments",
           "get_path_boundaries (C04) and path_to_perm_boundary (C24) by their contracts; compute_permission_steps by C10's",
           "the two thread-local variables of the tracker are read as parameters of its functions: one analysis at a time per thread",
           "iterator adapters (vp/iters.py): a chain is the sequence it yields; std min_by_key: the first of the least", "log statements and the debug dump of the MIR dropped"]
ASSUMPTIONS = ["the body a caller asks about is the one last given to track_body_diagnostics (else the code stops with a failed assertion); plugin.rs does so before each body"]
BOUNDED = "random histories of messages through the real tracker and errors placed anywhere in about 150 compiled bodies, both flow settings, bodies with real borrow errors and bodies that do not build, against an independent oracle; thorough: five times as many histories"


def native_run(ctx):
    return ctx.native_crate("aquascope", {E: [("vp_c11", "native.rs")], B: [("vp_c11b", "bounds.rs")]}, "vp_c11")
