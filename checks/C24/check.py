"""C24: a boundary reports the actual state of the place used, where it is used."""
import iters

F = "crates/aquascope/src/analysis/boundaries/mod.rs"
P = "crates/aquascope/src/analysis/permissions/mod.rs"
FL = "crates/aquascope/src/analysis/permissions/flow.rs"
O = "crates/aquascope/src/analysis/mod.rs"

MIR = r"""
verus! {
global size_of usize == 8;
#[derive(Copy, Clone)]
pub struct HirId { pub x: u64 }
#[derive(Copy, Clone)]
pub struct Span { pub x: u64 }
#[derive(Copy, Clone)]
pub struct Location { pub block: usize, pub statement_index: usize }
#[derive(Copy, Clone)]
pub struct Local { pub x: usize }
impl PartialEqSpecImpl for Local { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Local) -> bool { *self == *o } }
impl PartialEq for Local { #[verifier::external_body] fn eq(&self, o: &Local) -> bool { unimplemented!() } }
#[derive(Copy, Clone)]
pub struct Elems<'tcx> { pub e: &'tcx [u64] }
impl<'tcx> Elems<'tcx> { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.e@.len() { unimplemented!() } }
#[derive(Copy, Clone)]
pub struct Place<'tcx> { pub local: Local, pub projection: Elems<'tcx> }
#[derive(Copy, Clone)]
pub struct SourceMap { pub x: u64 }
pub struct Session { pub x: u64 }
impl Session { #[verifier::external_body] pub fn source_map(&self) -> SourceMap { unimplemented!() } }
#[derive(Copy, Clone)]
pub struct TyCtxt<'tcx> { pub sess: &'tcx Session }
pub struct Body<'tcx> { pub span: Span, pub x: &'tcx u8 }
/// the place stands for something written in the source
pub uninterp spec fn visible<'tcx>(p: Place<'tcx>, b: &Body<'tcx>) -> bool;
impl<'tcx> Place<'tcx> { #[verifier::external_body] pub fn is_source_visible(&self, tcx: TyCtxt<'tcx>, b: &Body<'tcx>) -> (r: bool) ensures r == visible(*self, b) { unimplemented!() } }
pub enum Operand<'tcx> { Copy(Place<'tcx>), Move(Place<'tcx>), Constant(u64) }
impl<'tcx> Operand<'tcx> {
  pub open spec fn p(&self) -> Option<Place<'tcx>> { match *self { Operand::Copy(p) => Some(p), Operand::Move(p) => Some(p), Operand::Constant(_) => None } }
  #[verifier::external_body] pub fn as_place(&self) -> (r: Option<Place<'tcx>>) ensures r == self.p() { unimplemented!() }
}
pub enum Rvalue<'tcx> {
  Use(Operand<'tcx>), Repeat(Operand<'tcx>, u64), Ref(u64, u64, Place<'tcx>), ThreadLocalRef(u64), RawPtr(u64, Place<'tcx>), Len(Place<'tcx>), Cast(u64, Operand<'tcx>, u64),
  BinaryOp(u64, (Operand<'tcx>, Operand<'tcx>)), NullaryOp(u64, u64), UnaryOp(u64, Operand<'tcx>), Discriminant(Place<'tcx>), Aggregate(u64, Vec<Operand<'tcx>>), ShallowInitBox(Operand<'tcx>, u64), CopyForDeref(Place<'tcx>),
}
pub enum StatementKind<'tcx> {
  Assign((Place<'tcx>, Rvalue<'tcx>)), FakeRead((u64, Place<'tcx>)), SetDiscriminant { place: Box<Place<'tcx>>, variant_index: u64 }, Deinit(Place<'tcx>), StorageLive(Local), StorageDead(Local),
  Retag(u64, Place<'tcx>), PlaceMention(Place<'tcx>), AscribeUserType(u64, u64), Coverage(u64), Intrinsic(u64), ConstEvalCounter, Nop, BackwardIncompatibleDropHint { place: Place<'tcx>, reason: u64 },
}
pub struct Statement<'tcx> { pub source_info: u64, pub kind: StatementKind<'tcx> }
pub struct Terminator<'tcx> { pub x: &'tcx u8 }
pub enum Either<A, B> { Left(A), Right(B) }
impl<'tcx> Body<'tcx> {
  pub uninterp spec fn stmt(&self, l: Location) -> Option<Statement<'tcx>>;
  #[verifier::external_body]
  pub fn stmt_at(&self, l: Location) -> (r: Either<&Statement<'tcx>, &Terminator<'tcx>>)
    ensures match r { Either::Left(s) => self.stmt(l) == Some(*s), Either::Right(_) => self.stmt(l) is None } { unimplemented!() }
}
pub enum GatherDepth { Nested, Outer }
#[verifier::external_body]
pub struct IRMapper<'tcx> { x: &'tcx u8 }
pub struct MirOrderedLocations { pub v: Vec<Location> }
impl MirOrderedLocations { #[verifier::external_body] pub fn values(&self) -> (r: It<Location>) ensures r.s() == self.v@ { unimplemented!() } }
impl<'tcx> IRMapper<'tcx> {
  /// the MIR locations generated for a node and what it contains, in order
  pub uninterp spec fn nested(&self, h: HirId) -> Option<Seq<Location>>;
  #[verifier::external_body]
  pub fn get_mir_locations(&self, h: HirId, d: GatherDepth) -> (r: Option<MirOrderedLocations>)
    requires d is Nested, ensures r is Some <==> self.nested(h) is Some, r is Some ==> r->Some_0.v@ == self.nested(h)->Some_0 { unimplemented!() }
}
"""

USED = r"""
pub type Used<'tcx> = (Location, Place<'tcx>);
pub open spec fn one<'tcx>(l: Location, p: Place<'tcx>, b: &Body<'tcx>) -> Seq<Used<'tcx>> { if visible(p, b) { seq![(l, p)] } else { Seq::empty() } }
pub open spec fn op_used<'tcx>(l: Location, o: Operand<'tcx>, b: &Body<'tcx>) -> Seq<Used<'tcx>> { match o.p() { Some(p) => one(l, p, b), None => Seq::empty() } }
pub open spec fn opt<'tcx>(s: Seq<Used<'tcx>>) -> Option<Used<'tcx>> { if s.len() > 0 { Some(s[0]) } else { None } }
pub broadcast proof fn lemma_opt_seq<'tcx>(s: Seq<Used<'tcx>>) requires s.len() <= 1 ensures #[trigger] opt(s).seq() == s { assert(opt(s).seq() =~= s); }
pub open spec fn fields_used<'tcx>(l: Location, f: Seq<Operand<'tcx>>, b: &Body<'tcx>) -> Seq<Used<'tcx>> { vp_somes(Seq::new(f.len(), |i: int| opt(op_used(l, f[i], b)))) }
/// The source-visible places an rvalue reads or borrows, in order.
pub open spec fn rvalue_used<'tcx>(l: Location, r: Rvalue<'tcx>, b: &Body<'tcx>) -> Seq<Used<'tcx>> {
  match r {
    Rvalue::Use(o) | Rvalue::Repeat(o, _) | Rvalue::Cast(_, o, _) | Rvalue::UnaryOp(_, o) | Rvalue::ShallowInitBox(o, _) => op_used(l, o, b),
    Rvalue::Ref(_, _, p) | Rvalue::Len(p) | Rvalue::Discriminant(p) | Rvalue::CopyForDeref(p) | Rvalue::RawPtr(_, p) => one(l, p, b),
    Rvalue::BinaryOp(_, (x, y)) => op_used(l, x, b) + op_used(l, y, b),
    Rvalue::Aggregate(_, f) => fields_used(l, f@, b),
    Rvalue::ThreadLocalRef(_) | Rvalue::NullaryOp(_, _) => Seq::empty(),
  }
}
/// The source-visible places a statement uses: what is assigned to when the left side is wanted, what is read otherwise.
pub open spec fn stmt_used<'tcx>(l: Location, s: Option<Statement<'tcx>>, lhs: bool, b: &Body<'tcx>) -> Seq<Used<'tcx>> {
  match s {
    Some(s) => match s.kind {
      StatementKind::Assign((p, r)) => if lhs { one(l, p, b) } else { rvalue_used(l, r, b) },
      StatementKind::SetDiscriminant { place, variant_index: _ } => one(l, *place, b),
      StatementKind::FakeRead((_, p)) => one(l, p, b),
      _ => Seq::empty(),
    },
    None => Seq::empty(),
  }
}
/// The candidates for a node: the used places of its MIR locations, in order.
pub open spec fn candidates<'tcx>(m: &IRMapper<'tcx>, b: &Body<'tcx>, h: HirId, lhs: bool) -> Option<Seq<Used<'tcx>>> {
  match m.nested(h) { Some(v) => Some(vp_flat(Seq::new(v.len(), |i: int| stmt_used(v[i], b.stmt(v[i]), lhs, b)))), None => None }
}
/// the variable whose name is most like the text of the node
pub uninterp spec fn similar<'tcx>(tcx: TyCtxt<'tcx>, h: HirId, b: &Body<'tcx>) -> Option<Place<'tcx>>;
#[verifier::external_body]
fn locals_by_visible_distance<'tcx>(tcx: TyCtxt<'tcx>, id: HirId, body: &Body<'tcx>) -> (r: Option<Place<'tcx>>) ensures r == similar(tcx, id, body) { unimplemented!() }
/// Which candidate is the use: the only one; else the first of the variable the text names; else, of those of the first
/// candidate's variable, the first with the longest path.
pub open spec fn chosen<'tcx>(c: Seq<Used<'tcx>>, sim: Option<Place<'tcx>>, r: Option<Used<'tcx>>) -> bool {
  if c.len() == 0 { r is None } else if c.len() == 1 { r == Some(c[0]) }
  else { match sim {
    Some(s) => match r {
      Some(x) => exists|i: int| 0 <= i < c.len() && #[trigger] c[i] == x && x.1.local == s.local && forall|j: int| 0 <= j < i ==> (#[trigger] c[j]).1.local != s.local,
      None => forall|j: int| 0 <= j < c.len() ==> (#[trigger] c[j]).1.local != s.local },
    None => r is Some && exists|i: int| 0 <= i < c.len() && #[trigger] c[i] == r->Some_0 && deepest(c, i) } }
}
/// the last of the deepest in reverse is the first of the deepest
pub proof fn lemma_deepest<'tcx>(c: Seq<Used<'tcx>>, keep: Seq<bool>, x: Option<Used<'tcx>>)
  requires c.len() > 0, keep.len() == c.len(), forall|i: int| 0 <= i < c.len() ==> keep[i] == (c[i].1.local == c[0].1.local),
    x is None ==> vp_pick(vp_refs(c), keep).len() == 0,
    x is Some ==> exists|k: int| 0 <= k < vp_pick(vp_refs(c), keep).reverse().len() && *#[trigger] vp_pick(vp_refs(c), keep).reverse()[k] == x->Some_0 && last_deepest(vp_pick(vp_refs(c), keep).reverse(), k),
  ensures x is Some && exists|i: int| 0 <= i < c.len() && #[trigger] c[i] == x->Some_0 && deepest(c, i)
{
  lemma_idx(vp_refs(c), keep);
  let p = vp_pick(vp_refs(c), keep); let ix = vp_idx(keep);
  assert(keep[0]);
  let q = p.reverse();
  assert(x is None ==> p.len() == 0);
  let k0 = choose|k: int| 0 <= k < q.len() && *#[trigger] q[k] == x->Some_0 && last_deepest(q, k);
  let k = p.len() - 1 - k0;
  let i = ix[k];
  assert(c[i] == x->Some_0);
  assert forall|j: int| 0 <= j < c.len() && (#[trigger] c[j]).1.local == c[0].1.local implies depth(c[j]) <= depth(c[i]) && (j < i ==> depth(c[j]) < depth(c[i])) by {
    assert(keep[j]); let l = choose|l: int| 0 <= l < ix.len() && #[trigger] ix[l] == j; assert(*p[l] == c[j]); assert(q[p.len() - 1 - l] == p[l]); if l > k { assert(ix[k] < ix[l]); } }
}
/// nothing deeper, nothing behind it as deep
pub open spec fn last_deepest<'a, 'tcx>(p: Seq<&'a Used<'tcx>>, k: int) -> bool {
  forall|l: int| 0 <= l < p.len() ==> depth(*#[trigger] p[l]) <= depth(*p[k]) && (l > k ==> depth(*p[l]) < depth(*p[k]))
}
pub open spec fn depth<'tcx>(u: Used<'tcx>) -> nat { u.1.projection.e@.len() }
pub open spec fn deepest<'tcx>(c: Seq<Used<'tcx>>, i: int) -> bool {
  c[i].1.local == c[0].1.local && forall|j: int| 0 <= j < c.len() && (#[trigger] c[j]).1.local == c[0].1.local ==> depth(c[j]) <= depth(c[i]) && (j < i ==> depth(c[j]) < depth(c[i]))
}
"""

CTXT = r"""
#[derive(Copy, Clone)]
pub struct Point { pub x: u64 }
#[derive(Copy, Clone)]
pub struct Path { pub x: u64 }
#[derive(Copy, Clone)]
pub struct CharPos { pub x: usize }
#[derive(Copy, Clone)]
pub struct BytePos { pub x: usize }
#[derive(Copy, Clone)]
pub struct CharRange { pub start: CharPos, pub end: CharPos }
pub struct ByteRange { pub start: BytePos, pub end: BytePos }
pub uninterp spec fn bytes_of(s: Span) -> ByteRange;
pub uninterp spec fn chars_of(s: Span) -> CharRange;
pub uninterp spec fn local_part(s: Span, outer: Span) -> Option<Span>;
impl Span { #[verifier::external_body] pub fn as_local(self, outer: Span) -> (r: Option<Span>) ensures r == local_part(self, outer) { unimplemented!() } }
impl ByteRange { #[verifier::external_body] pub fn from_span(s: Span, m: SourceMap) -> (r: Result<ByteRange, u8>) ensures r is Ok, r->Ok_0 == bytes_of(s) { unimplemented!() } }
impl<'tcx> TyCtxt<'tcx> {
  #[verifier::external_body] pub fn hir(self) -> (r: Hir<'tcx>) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Hir<'tcx> { x: &'tcx u8 }
pub struct Node { pub x: u64 }
/// the nodes around a node, innermost first
pub uninterp spec fn parents(h: HirId) -> Seq<HirId>;
pub uninterp spec fn span_of(h: HirId) -> Span;
impl<'tcx> Hir<'tcx> {
  #[verifier::external_body]
  pub fn parent_iter(self, h: HirId) -> (r: It<(HirId, Node)>) ensures r.s().len() == parents(h).len(), forall|i: int| #![trigger r.s()[i]] #![trigger parents(h)[i]] 0 <= i < r.s().len() ==> r.s()[i].0 == parents(h)[i] { unimplemented!() }
  #[verifier::external_body]
  pub fn span(self, h: HirId) -> (r: Span) ensures r == span_of(h) { unimplemented!() }
}
pub struct BodyWithFacts<'tcx> { pub body: Body<'tcx> }
/// What is recorded about a place at a point (C02), and what it permits, liveness aside (C01).
#[verifier::external_body]
pub struct PermissionsData { x: u8 }
pub uninterp spec fn permits(d: PermissionsData) -> Permissions;
impl PermissionsData { #[verifier::external_body] pub fn permissions_ignore_liveness(&self) -> (r: Permissions) ensures r == permits(*self) { unimplemented!() } }
pub struct Facts { pub subset_base: Vec<(Origin, Origin, Point)> }
#[derive(Copy, Clone)]
pub struct Origin { pub x: u64 }
impl PartialEqSpecImpl for Origin { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Origin) -> bool { *self == *o } }
impl PartialEq for Origin { #[verifier::external_body] fn eq(&self, o: &Origin) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Point { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Point) -> bool { *self == *o } }
impl PartialEq for Point { #[verifier::external_body] fn eq(&self, o: &Point) -> bool { unimplemented!() } }
/// the flow facts of the body (C07)
#[verifier::external_body]
pub struct RegionFlows { x: u8 }
pub uninterp spec fn flow(a: Origin, b: Origin) -> FlowEdgeKind;
pub uninterp spec fn abstracted(a: Origin) -> bool;
pub uninterp spec fn declared(c: (Origin, Origin)) -> bool;
pub uninterp spec fn points_of(l: Location) -> Seq<Point>;
impl RegionFlows {
  #[verifier::external_body] pub fn scc(&self, o: Origin) -> u64 { unimplemented!() }
  #[verifier::external_body] pub fn is_abstract_member(&self, o: Origin) -> (r: bool) ensures r == abstracted(o) { unimplemented!() }
  #[verifier::external_body] pub fn flow_kind(&self, a: Origin, b: Origin) -> (r: FlowEdgeKind) ensures r == flow(a, b) { unimplemented!() }
}
pub struct PermissionsCtxt<'tcx> { pub tcx: TyCtxt<'tcx>, pub body_with_facts: &'tcx BodyWithFacts<'tcx>, pub polonius_input_facts: Facts }
pub uninterp spec fn point_of(l: Location) -> Point;
pub uninterp spec fn path_of<'tcx>(p: Place<'tcx>) -> Path;
pub uninterp spec fn data_at(p: Path, q: Point) -> PermissionsData;
pub open spec fn inner<'tcx>(b: &Body<'tcx>) -> Span { b.span }
impl<'tcx> PermissionsCtxt<'tcx> {
  #[verifier::external_body] pub fn location_to_point(&self, l: Location) -> (r: Point) ensures r == point_of(l) { unimplemented!() }
  #[verifier::external_body] pub fn location_to_points(&self, l: Location) -> (r: Vec<Point>) ensures r@ == points_of(l) { unimplemented!() }
  #[verifier::external_body] pub fn is_universal_subset(&self, c: (Origin, Origin)) -> (r: bool) ensures r == declared(c) { unimplemented!() }
  #[verifier::external_body] pub fn region_flows(&self) -> &RegionFlows { unimplemented!() }
  #[verifier::external_body] pub fn place_to_path(&self, p: &Place<'tcx>) -> (r: Path) ensures r == path_of(*p) { unimplemented!() }
  #[verifier::external_body] pub fn permissions_data_at_point(&self, p: Path, q: Point) -> (r: PermissionsData) ensures r == data_at(p, q) { unimplemented!() }
}
pub struct AquascopeAnalysis<'tcx> { pub permissions: PermissionsCtxt<'tcx>, pub ir_mapper: IRMapper<'tcx> }
impl<'tcx> AquascopeAnalysis<'tcx> {
  #[verifier::external_body] pub fn span_to_range(&self, s: Span) -> (r: CharRange) ensures r == chars_of(s) { unimplemented!() }
  pub open spec fn body(&self) -> &Body<'tcx> { &self.permissions.body_with_facts.body }
}
"""

USES = r"""
impl ExpectedPermissions { pub open spec fn p(&self) -> Permissions { self.0 } #[verifier::external_body] pub fn vp_into(self) -> (r: Permissions) ensures r == self.0 { unimplemented!() } }
/// The place a node uses, if its own MIR locations tell.
pub open spec fn found<'tcx>(a: &AquascopeAnalysis<'tcx>, h: HirId, lhs: bool, u: Option<(Point, Path)>) -> bool {
  match candidates(&a.ir_mapper, a.body(), h, lhs) {
    None => u is None,
    Some(c) => exists|x: Option<Used<'tcx>>| #[trigger] chosen(c, similar(a.permissions.tcx, h, a.body()), x)
      && u == (match x { Some(x) => Some((point_of(x.0), path_of(x.1))), None => None::<(Point, Path)> }) }
}
/// ... or the innermost node around it that does.
pub open spec fn resolved<'tcx>(a: &AquascopeAnalysis<'tcx>, h: HirId, lhs: bool, u: Option<(Point, Path)>) -> bool {
  (u is Some && found(a, h, lhs, u)) || (found(a, h, lhs, None) && (match u {
    Some(_) => exists|i: int| 0 <= i < parents(h).len() && found(a, #[trigger] parents(h)[i], lhs, u) && forall|j: int| 0 <= j < i ==> found(a, #[trigger] parents(h)[j], lhs, None),
    None => forall|j: int| 0 <= j < parents(h).len() ==> found(a, #[trigger] parents(h)[j], lhs, None) }))
}
pub open spec fn drawn_at(s: Span, outer: Span) -> Span { match local_part(s, outer) { Some(l) => l, None => s } }
pub open spec fn reports<'tcx>(a: &AquascopeAnalysis<'tcx>, b: PathBoundary, u: (Point, Path), r: PermissionsBoundary) -> bool {
  &&& r.data == data_at(u.1, u.0) &&& r.actual == permits(data_at(u.1, u.0)) &&& r.expected == b.expected.0
  &&& r.location == chars_of(drawn_at(b.location, inner(a.body()))).end &&& r.byte_location == bytes_of(drawn_at(b.location, inner(a.body()))).end
  &&& flow_reported(a, b.flow_context, b.hir_id, r.expecting_flow)
}
"""

BOX = (r"\bbox \(", "(", "box patterns read as the boxed tuple")
SMALL = [(r"SmallVec<\[UsedPlace<'tcx>; \d+\]>", "Vec<UsedPlace<'tcx>>", "SmallVec read as Vec"), (r"SmallVec::default\(\)", "Vec::new()", "SmallVec read as Vec"), (r"smallvec!\[", "vec![", "SmallVec read as Vec")]
CHAIN = iters.SUBST


def uses(ctx):
    u = ctx.unit("uses")
    u.raw(MIR + iters.STUBS)
    u.raw(USED)
    u.fn(F, "select_candidate_location", ret="r", spec="ensures chosen(candidates@, similar(tcx, hir_id, body), r)",
         subst=CHAIN + [(r"candidates\.first\(\)\.copied\(\)", "vp_first(candidates)", "first element, by contract"), (r"candidates\.first\(\)\?\.1\.local", "vp_first(candidates)?.1.local", "first element, by contract"),
                        (r"\.copied\(\)", ".vp_copied()", "Option::copied by contract"),
                        (r"(?s)(matching_locals\s*\.rev\(\).*?\.vp_copied\(\))", r"let vp_r = \1; proof { lemma_deepest(candidates@, matching_locals0.kept(), vp_r); } vp_r", "result named for the proof")],
         start="  broadcast use group_vp_ext;",
         at=[(r"matching_locals\s*\.rev", "before", "let ghost matching_locals0 = matching_locals;")],
         closures=[dict(types=["&&(Location, Place<'tcx>)"], ret="r: bool", spec="ensures r == (vp_c0.1.local == similar_local.local)"),
                   dict(types=["&&(Location, Place<'tcx>)"], ret="r: bool", spec="ensures r == (vp_c0.1.local == base_local)"),
                   dict(types=["&&(Location, Place<'tcx>)"], ret="r: usize", spec="ensures r == vp_c0.1.projection.e@.len()")],
         )
    u.raw("""
#[verifier::external_body]
pub fn vp_first<'tcx>(c: &[Used<'tcx>]) -> (r: Option<Used<'tcx>>) ensures r == opt(c@) { unimplemented!() }
pub trait Copied { type T; spec fn c(&self) -> Option<Self::T>; fn vp_copied(self) -> (r: Option<Self::T>) ensures r == self.c(); }
impl<'a, T: Copy> Copied for Option<&'a T> { type T = T; open spec fn c(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } } #[verifier::external_body] fn vp_copied(self) -> Option<T> { unimplemented!() } }
""")
    u.fn(F, "paths_at_hir_id", ret="r",
         spec="""ensures r is Some <==> candidates(ir_mapper, body, hir_id, is_lhs) is Some, r is Some ==> r->Some_0@ == candidates(ir_mapper, body, hir_id, is_lhs)->Some_0""",
         subst=CHAIN + SMALL + [BOX],
         closures=[dict(types=["Place<'tcx>"], ret="r: Option<Place<'tcx>>", spec="ensures r == (if visible(p, body) { Some(p) } else { None::<Place> })"),
                   dict(types=["Place<'tcx>"], ret="r: UsedPlace<'tcx>", spec="ensures r == (loc, p)"),
                   dict(ret="r: UsedPlaces<'tcx>", spec="ensures r@ =~= rvalue_used(loc, *rvalue, body)"),
                   dict(types=["&Operand<'tcx>"], ret="r: Option<UsedPlace<'tcx>>", spec="ensures r == opt(op_used(loc, *op, body))"),
                   dict(ret="r: UsedPlaces<'tcx>", spec="ensures r@ =~= stmt_used(loc, Some(*stmt), is_lhs, body)"),
                   dict(types=["Location"], ret="r: Vec<UsedPlace<'tcx>>", spec="ensures r@ =~= stmt_used(loc, body.stmt(loc), is_lhs, body)")],
         start="    broadcast use group_vp_ext, lemma_opt_seq;",
         split_or=True, inner={"maybe_in_op": ("r", "ensures r == opt(op_used(loc, *op, body))")})
    u.raw("} fn main() {}")
    return u


FLOWS = r"""
pub type Constraint = (Origin, Origin, Point);
pub uninterp spec fn flows_shown() -> bool;
pub struct Switch { pub x: u8 }
impl Switch { #[verifier::external_body] pub fn copied(&self) -> (r: Option<bool>) ensures flows_shown() == (match r { Some(b) => b, None => ENABLE_FLOW_DEFAULT }) { unimplemented!() } }
pub const ENABLE_FLOW_PERMISSIONS: Switch = Switch { x: 0 };
pub open spec fn relevant(c: Constraint, l: Location) -> bool { !declared((c.0, c.1)) && points_of(l).contains(c.2) }
pub open spec fn keep(base: Seq<Constraint>, l: Location) -> Seq<bool> { Seq::new(base.len(), |i: int| relevant(base[i], l)) }
pub open spec fn at_loc(base: Seq<Constraint>, l: Location) -> Seq<Constraint> { let p = vp_pick(vp_refs(base), keep(base, l)); Seq::new(p.len(), |i: int| *p[i]) }
/// The constraints imposed inside a node, in order, without those every caller promises.
pub open spec fn constraints<'tcx>(a: &PermissionsCtxt<'tcx>, m: &IRMapper<'tcx>, h: HirId) -> Option<Seq<Constraint>> {
  match m.nested(h) { Some(v) => Some(vp_flat(Seq::new(v.len(), |i: int| at_loc(a.polonius_input_facts.subset_base@, v[i])))), None => None }
}
pub open spec fn ends_abstract(s: Seq<Constraint>) -> bool { exists|i: int| 0 <= i < s.len() && abstracted((#[trigger] s[i]).1) }
pub open spec fn violating(c: Constraint, here: Seq<Constraint>) -> bool {
  abstracted(c.1) && !(flow(c.0, c.1) is Ok) && exists|i: int| 0 <= i < here.len() && ((#[trigger] here[i]).1 == c.0 || here[i].1 == c.1)
}
/// the first violation
pub open spec fn judged(around: Seq<Constraint>, here: Seq<Constraint>, k: FlowEdgeKind) -> bool {
  (exists|i: int| 0 <= i < around.len() && violating(#[trigger] around[i], here) && k == flow(around[i].0, around[i].1) && forall|j: int| 0 <= j < i ==> !violating(#[trigger] around[j], here))
  || (k is Ok && forall|j: int| 0 <= j < around.len() ==> !violating(#[trigger] around[j], here))
}
/// A flow is reported where a constraint of the surrounding statement ends in a region the caller names.
pub open spec fn flow_reported<'tcx>(a: &AquascopeAnalysis<'tcx>, ctx: HirId, h: HirId, r: Option<FlowBoundary>) -> bool {
  let around = constraints(&a.permissions, &a.ir_mapper, ctx); let here = constraints(&a.permissions, &a.ir_mapper, h);
  if flows_shown() && around is Some && ends_abstract(around->Some_0) && here is Some {
    r is Some && judged(around->Some_0, here->Some_0, r->Some_0.kind) && r->Some_0.is_violation == !(r->Some_0.kind is Ok)
      && r->Some_0.flow_context == chars_of(match local_part(span_of(ctx), inner(a.body())) { Some(s) => s, None => inner(a.body()) })
  } else { r is None }
}
pub proof fn lemma_first<T>(s: Seq<Option<T>>)
  ensures vp_somes(s).len() == 0 ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is None,
    vp_somes(s).len() > 0 ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Some(vp_somes(s)[0]) && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]) is None
  decreases s.len()
{
  if s.len() > 0 {
    let d = s.drop_last(); lemma_first(d); let r = vp_somes(d);
    if r.len() > 0 { let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] == Some(r[0]) && forall|j: int| 0 <= j < i ==> (#[trigger] d[j]) is None; assert(s[i] == d[i]); assert(vp_somes(s)[0] == r[0]);
      assert forall|j: int| 0 <= j < i implies (#[trigger] s[j]) is None by { assert(d[j] is None); } }
    else { assert forall|j: int| 0 <= j < s.len() - 1 implies (#[trigger] s[j]) is None by { assert(d[j] is None); } if s.last() is Some { assert(s[s.len() - 1] == Some(vp_somes(s)[0])); } }
  }
}
"""


def report(ctx):
    u = ctx.unit("report")
    u.raw(MIR + iters.STUBS)
    u.raw(USED)
    u.item(P, "struct", "Permissions", attrs="#[derive(Copy, Clone)]")
    u.item(P, "const", "ENABLE_FLOW_DEFAULT")
    u.item(FL, "enum", "FlowEdgeKind", attrs="#[derive(Copy, Clone)]")
    u.impl(FL, "FlowEdgeKind", None, {"is_valid_flow": dict(ret="r", spec="ensures r == (self is Ok)")})
    u.item(F, "struct", "FlowBoundary")
    u.item(F, "struct", "PermissionsBoundary")
    u.item(F, "struct", "ExpectedPermissions", attrs="#[derive(Copy, Clone)]")
    u.item(F, "struct", "PathBoundary")
    u.raw(CTXT + FLOWS + USES)
    u.raw("""
#[verifier::external_body]
fn select_candidate_location<'tcx>(tcx: TyCtxt<'tcx>, body: &Body<'tcx>, hir_id: HirId, candidates: &[(Location, Place<'tcx>)]) -> (r: Option<(Location, Place<'tcx>)>)
  ensures chosen(candidates@, similar(tcx, hir_id, body), r) { unimplemented!() }
#[verifier::external_body]
fn paths_at_hir_id<'tcx>(tcx: TyCtxt<'tcx>, body: &'tcx Body<'tcx>, ir_mapper: &IRMapper<'tcx>, hir_id: HirId, is_lhs: bool) -> (r: Option<Vec<(Location, Place<'tcx>)>>)
  ensures r is Some <==> candidates(ir_mapper, body, hir_id, is_lhs) is Some, r is Some ==> r->Some_0@ == candidates(ir_mapper, body, hir_id, is_lhs)->Some_0 { unimplemented!() }
""", stubs=("select_candidate_location", "paths_at_hir_id"))
    u.fn(F, "flow_constraints_at_hir_id", ret="r", subst=CHAIN, start="  broadcast use group_vp_ext;",
         spec="ensures r is Some <==> constraints(ctxt, ir_mapper, hir_id) is Some, r is Some ==> r->Some_0@ == constraints(ctxt, ir_mapper, hir_id)->Some_0",
         closures=[dict(types=["Location"], ret="r: It<Constraint>", spec="ensures r.s() =~= at_loc(ctxt.polonius_input_facts.subset_base@, loc)"),
                   dict(types=["&&Constraint"], ret="r: bool", spec="ensures r == relevant(**vp_c0, loc)")])
    u.fn(F, "get_flow_permission", ret="r", subst=CHAIN, spec="ensures flow_reported(analysis, flow_context, hir_id, r)", start="  broadcast use group_vp_ext;",
         at=[(r"let kind = flow_violations", "before", """  let ghost fv = flow_violations; proof { lemma_first(fv.opts());
    let ar = context_constraints@; let o = fv.opts(); assert(o.len() == ar.len());
    assert forall|i: int| #![trigger ar[i]] #![trigger o[i]] 0 <= i < ar.len() implies o[i] == (if violating(ar[i], specific_constraints@) { Some(flow(ar[i].0, ar[i].1)) } else { None::<FlowEdgeKind> }) by { assert(vp_refs(ar)[i] == &ar[i]); } }""")],
         closures=[dict(types=["&[(Origin, Origin, Point)]"], ret="r: bool", spec="ensures r == ends_abstract(flows@)"),
                   dict(types=["&Constraint"], ret="r: bool", spec="ensures r == abstracted(vp_c0.1)"),
                   dict(types=["&[(Origin, Origin, Point)]"], ret="r: Vec<((Origin, u64), (Origin, u64))>", spec="ensures true"),
                   dict(types=["&Constraint"], ret="r: ((Origin, u64), (Origin, u64))", spec="ensures true"),
                   dict(types=["&Constraint"], ret="r: Option<FlowEdgeKind>", spec="ensures r == (if violating(*vp_c0, specific_constraints@) { Some(flow(vp_c0.0, vp_c0.1)) } else { None::<FlowEdgeKind> })"),
                   dict(types=["&Constraint"], ret="r: bool", spec="ensures r == (vp_c0.1 == from || vp_c0.1 == to)"),
                   dict(ret="r: FlowEdgeKind", spec="ensures r is Ok")])
    u.fn(F, "path_to_perm_boundary", ret="r", subst=CHAIN + [(r"expected\.into\(\)", "expected.vp_into()", "From by contract")], start="  broadcast use group_vp_ext;",
         spec="""ensures r is None ==> resolved(analysis, path_boundary.hir_id, path_boundary.is_lhs, None),
    r is Some ==> exists|u: (Point, Path)| resolved(analysis, path_boundary.hir_id, path_boundary.is_lhs, Some(u)) && #[trigger] reports(analysis, path_boundary, u, r->Some_0)""",
         closures=[dict(types=["HirId"], ret="r: Option<(Point, Path)>", spec="ensures found(analysis, hir_id, path_boundary.is_lhs, r)"),
                   dict(ret="r: Option<(Point, Path)>", spec="ensures found(analysis, hir_id, path_boundary.is_lhs, None) ==> resolved(analysis, hir_id, path_boundary.is_lhs, r)"),
                   dict(types=["(HirId, Node)"], ret="r: Option<(Point, Path)>", spec="ensures found(analysis, vp_c0.0, path_boundary.is_lhs, r)"),
                   dict(types=["(Point, Path)"], ret="r: PermissionsBoundary", spec="ensures reports(analysis, path_boundary, vp_c0, r)")])
    u.helpers()
    u.raw("} fn main() {}")
    return u


UNITS = [("report", report), ("uses", uses)]
TRUSTED = ["rustc MIR statements, rvalues, operands and places restated variant by variant (generic arguments read as opaque); Body::stmt_at, Operand::as_place, hir parent_iter/span, Span::as_local: assumed contracts",
           "rustc_utils Place::is_source_visible (which places stand for source text): uninterpreted",
           "IRMapper::get_mir_locations: uninterpreted set of locations per node, in order",
           "locals_by_visible_distance (fuzzy match of names): uninterpreted choice of a variable",
           "permissions_data_at_point and permissions_ignore_liveness enter by the contracts C02 and C01 prove; flow_kind and is_abstract_member by those of C07",
           "iterator adapters (vp/iters.py): a chain is the sequence it yields, in terms of each closure's contract; SmallVec read as Vec"]
ASSUMPTIONS = ["closures passed to lazy adapters run once per element, in order", "ByteRange::from_span succeeds for spans of the body"]
BOUNDED = "every use found in 76 compiled functions, with flow reporting off and on, resolved by an independent oracle"


def native_run(ctx):
    return ctx.native_crate("aquascope", {F: [("vp_c24", "native.rs")]}, "vp_c24")
