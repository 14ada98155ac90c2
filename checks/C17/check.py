"""C17: what is highlighted for a loan or a move is where it is in force."""
import iters

M = "crates/aquascope/src/analysis/mod.rs"
X = "crates/aquascope/src/analysis/permissions/context.rs"
P = "crates/aquascope/src/analysis/permissions/mod.rs"

BASE = r"""
verus! {
global size_of usize == 8;
pub assume_specification<T: Copy>[ Option::<&T>::copied ](o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
#[derive(Copy, Clone)] pub struct FilenameIndex { pub x: u32 }
#[derive(Copy, Clone)] pub struct CharPos { pub line: usize, pub column: usize }
#[derive(Copy, Clone)] pub struct CharRange { pub start: CharPos, pub end: CharPos, pub filename: FilenameIndex }
#[derive(Copy, Clone)] pub struct SourceMap { pub x: u64 }
pub struct Session { pub x: u64 }
impl Session { #[verifier::external_body] pub fn source_map(&self) -> SourceMap { unimplemented!() } }
/// a source range of the compiler; what it covers is [a, b)
#[verifier::external_body] #[derive(Copy, Clone)] pub struct Span { x: u64 }
impl Span {
  pub uninterp spec fn a(&self) -> int;
  pub uninterp spec fn b(&self) -> int;
  #[verifier::external_body] pub fn lo(&self) -> (r: u32) ensures r == self.a() { unimplemented!() }
  #[verifier::external_body] pub fn hi(&self) -> (r: u32) ensures r == self.b() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.a() == self.b()) { unimplemented!() }
  #[verifier::external_body] pub fn is_dummy(&self) -> (r: bool) ensures r == (self.a() == 0 && self.b() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn as_local(&self, outer: Span) -> (r: Option<Span>) ensures r == local(*self, outer) { unimplemented!() }
}
pub broadcast axiom fn axiom_span(s: Span) ensures #![trigger s.a()] #![trigger s.b()] s.a() <= s.b();
/// the range a body's reader sees a range as: itself, or where its macro is called, if inside
pub uninterp spec fn local(s: Span, outer: Span) -> Option<Span>;
pub open spec fn inside(s: Span, outer: Span) -> bool { outer.a() <= s.a() && s.b() <= outer.b() }
pub open spec fn solid(s: Span) -> bool { s.a() < s.b() }
pub open spec fn holds(s: Span, x: int) -> bool { s.a() <= x < s.b() }
pub broadcast axiom fn axiom_local(s: Span, outer: Span) ensures inside(s, outer) ==> #[trigger] local(s, outer) == Some(s), local(s, outer) is Some ==> inside(local(s, outer)->Some_0, outer) && (solid(s) ==> solid(local(s, outer)->Some_0));
/// the line and column range of a byte range
pub uninterp spec fn range_of(s: Span) -> CharRange;
pub struct AnyErr { pub x: u64 }
#[verifier::external] impl std::fmt::Debug for AnyErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
#[derive(Copy, Clone)] pub struct HirId { pub x: u64 }
#[derive(Copy, Clone)] pub struct Hir { pub x: u64 }
#[derive(Copy, Clone)] pub struct TyCtxt<'tcx> { pub sess: &'tcx Session }
pub uninterp spec fn hir_span(h: HirId) -> Span;
impl<'tcx> TyCtxt<'tcx> { #[verifier::external_body] pub fn hir(&self) -> Hir { unimplemented!() } }
impl Hir { #[verifier::external_body] pub fn span(&self, h: HirId) -> (r: Span) ensures r == hir_span(h) { unimplemented!() } }
impl CharRange { #[verifier::external_body] pub fn from_span(s: Span, m: SourceMap) -> (r: Result<CharRange, AnyErr>) ensures in_source(s) ==> r == Ok::<CharRange, AnyErr>(range_of(s)) { unimplemented!() } }
/// the range lies in a file under analysis
pub uninterp spec fn in_source(s: Span) -> bool;

#[derive(Copy, Clone)] pub struct BasicBlock { pub x: usize }
#[derive(Copy, Clone)] pub struct Location { pub block: BasicBlock, pub statement_index: usize }
pub struct SourceInfo { pub span: Span }
pub enum StatementKind { Assign(u64), Other(u64) }
pub struct Statement { pub source_info: SourceInfo, pub kind: StatementKind }
pub struct Terminator { pub x: u64 }
pub enum Either<A, B> { Left(A), Right(B) }
pub struct BasicBlockData { pub is_cleanup: bool, pub x: u64 }
impl BasicBlockData { pub uninterp spec fn dead(&self) -> bool; #[verifier::external_body] pub fn is_empty_unreachable(&self) -> (r: bool) ensures r == self.dead() { unimplemented!() } }
pub struct Body { pub span: Span, pub basic_blocks: Blocks }
pub struct Blocks { pub x: u64 }
pub uninterp spec fn block(b: &Blocks, i: BasicBlock) -> BasicBlockData;
#[verifier::external_body] pub fn vp_block(b: &Blocks, i: BasicBlock) -> (r: &BasicBlockData) ensures *r == block(b, i) { unimplemented!() }
impl Body {
  pub uninterp spec fn instruction(&self, l: Location) -> Span;
  pub uninterp spec fn statement(&self, l: Location) -> Option<Statement>;
  pub uninterp spec fn hir_node(&self, l: Location) -> HirId;
  #[verifier::external_body] pub fn source_info(&self, l: Location) -> (r: &SourceInfo) ensures r.span == self.instruction(l) { unimplemented!() }
  #[verifier::external_body] pub fn stmt_at(&self, l: Location) -> (r: Either<&Statement, &Terminator>) ensures match r { Either::Left(s) => self.statement(l) == Some(*s), Either::Right(_) => self.statement(l) is None } { unimplemented!() }
  #[verifier::external_body] pub fn location_to_hir_id(&self, l: Location) -> (r: HirId) ensures r == self.hir_node(l) { unimplemented!() }
}
pub broadcast axiom fn axiom_instruction(b: &Body, l: Location) ensures #![trigger b.instruction(l)] local(b.instruction(l), b.span) is Some;
pub broadcast axiom fn axiom_inside(b: &Body, s: Span) ensures #![trigger inside(s, b.span)] inside(s, b.span) ==> in_source(s);
pub struct BodyWithBorrowckFacts { pub body: Body, pub location_table: Option<LocationTable> }
pub struct LocationTable { pub x: u64 }
pub enum RichLocation { Start(Location), Mid(Location) }
impl RichLocation { pub open spec fn l(&self) -> Location { match *self { RichLocation::Start(l) => l, RichLocation::Mid(l) => l } } }
impl LocationTable { pub uninterp spec fn at(&self, p: Point) -> Location; #[verifier::external_body] pub fn to_location(&self, p: Point) -> (r: RichLocation) ensures r.l() == self.at(p) { unimplemented!() } }
#[derive(Copy, Clone)] pub struct Point { pub x: u32 }
#[derive(Copy, Clone)] pub struct Path { pub x: u32 }
#[derive(Copy, Clone)] pub struct Loan { pub x: u32 }
#[derive(Copy, Clone)] pub struct Move { pub x: u32 }
impl PartialEqSpecImpl for Loan { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Loan) -> bool { *self == *o } }
impl PartialEq for Loan { #[verifier::external_body] fn eq(&self, o: &Loan) -> bool { unimplemented!() } }
impl Eq for Loan {}
impl Loan { #[verifier::external_body] pub fn as_u32(self) -> (r: u32) ensures r == self.x { unimplemented!() } }
impl Move { #[verifier::external_body] pub fn as_u32(self) -> (r: u32) ensures r == self.x { unimplemented!() } }
pub struct BorrowData { pub x: u64 }
impl BorrowData { pub uninterp spec fn reserved(&self) -> Location; #[verifier::external_body] pub fn reserve_location(&self) -> (r: Location) ensures r == self.reserved() { unimplemented!() } }
pub struct BorrowSet { pub x: u64 }
impl BorrowSet { pub uninterp spec fn loan(&self, l: Loan) -> BorrowData; #[verifier::external_body] pub fn vp_at(&self, l: Loan) -> (r: &BorrowData) ensures *r == self.loan(l) { unimplemented!() } }
#[derive(Copy, Clone)] pub struct MoveOut { pub source: Location }
pub struct Moves { pub v: Vec<MoveOut> }
impl Moves { pub open spec fn vs(&self) -> Seq<(Move, &MoveOut)> { Seq::new(self.v@.len(), |i: int| (Move { x: i as u32 }, &self.v@[i])) }
  pub open spec fn has(&self, m: Move) -> bool { m.x < self.v@.len() }
  #[verifier::external_body] pub fn iter_enumerated(&self) -> (r: It<(Move, &MoveOut)>) ensures r.s() == self.vs(), self.v@.len() <= 0xffff_ff01 { unimplemented!() } }
pub struct MoveData { pub moves: Moves }
pub struct PEOutput { pub loan_live_at: FxHashMap<Point, Vec<Loan>> }
pub struct Output { pub move_refined: FxHashMap<Point, FxHashMap<Path, Move>> }
pub struct PermissionsCtxt<'tcx> { pub tcx: TyCtxt<'tcx>, pub polonius_output: PEOutput, pub permissions_output: Output, pub body_with_facts: &'tcx BodyWithBorrowckFacts, pub borrow_set: BorrowSet, pub move_data: MoveData, pub loan_regions: Option<HashMap<Loan, (Point, Point)>> }
#[verifier::external_body] pub struct IRMapper<'tcx> { x: &'tcx u8 }
"""

MAPS = r"""
/// a hash map read as a map; it lists its entries in some order, each once
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(T)] pub struct VMap<K, T> { x: core::marker::PhantomData<(K, T)> }
pub type HashMap<K, T> = VMap<K, T>;
pub type FxHashMap<K, T> = VMap<K, T>;
impl<K, T> View for VMap<K, T> { type V = Map<K, T>; uninterp spec fn view(&self) -> Map<K, T>; }
pub uninterp spec fn listing<T>(s: Set<T>) -> Seq<T>;
pub broadcast axiom fn axiom_listing<T>(s: Set<T>) ensures #![trigger listing(s)] listing(s).no_duplicates(), forall|x: T| #[trigger] listing(s).contains(x) <==> s.contains(x);
pub open spec fn entries<'a, K, T>(m: Map<K, T>) -> Seq<(&'a K, &'a T)> { Seq::new(listing(m.dom()).len(), |i: int| (&listing(m.dom())[i], &m[listing(m.dom())[i]])) }
pub open spec fn owned<K, T>(m: Map<K, T>) -> Seq<(K, T)> { Seq::new(listing(m.dom()).len(), |i: int| (listing(m.dom())[i], m[listing(m.dom())[i]])) }
/// every key, with a value, and nothing else
pub broadcast proof fn lemma_entry<'a, K, T>(m: Map<K, T>, k: K) ensures #![trigger entries(m), m.contains_key(k)] m.contains_key(k) ==> exists|i: int| 0 <= i < entries(m).len() && #[trigger] entries(m)[i] == (&k, &m[k])
{ broadcast use axiom_listing; if m.contains_key(k) { assert(listing(m.dom()).contains(k)); let i = choose|i: int| 0 <= i < listing(m.dom()).len() && listing(m.dom())[i] == k; assert(entries(m)[i] == (&k, &m[k])); } }
pub broadcast proof fn lemma_listed<'a, K, T>(m: Map<K, T>, i: int) requires 0 <= i < entries(m).len() ensures m.contains_key(*(#[trigger] entries(m)[i]).0), m[*entries(m)[i].0] == *entries(m)[i].1
{ broadcast use axiom_listing; assert(listing(m.dom()).contains(listing(m.dom())[i])); }
pub broadcast proof fn lemma_owned<K, T>(m: Map<K, T>, k: K) ensures #![trigger owned(m), m.contains_key(k)] m.contains_key(k) ==> exists|i: int| 0 <= i < owned(m).len() && #[trigger] owned(m)[i] == (k, m[k])
{ broadcast use axiom_listing; if m.contains_key(k) { assert(listing(m.dom()).contains(k)); let i = choose|i: int| 0 <= i < listing(m.dom()).len() && listing(m.dom())[i] == k; assert(owned(m)[i] == (k, m[k])); } }
pub broadcast proof fn lemma_own<K, T>(m: Map<K, T>, i: int) requires 0 <= i < owned(m).len() ensures m.contains_key((#[trigger] owned(m)[i]).0), m[owned(m)[i].0] == owned(m)[i].1
{ broadcast use axiom_listing; assert(listing(m.dom()).contains(listing(m.dom())[i])); }
pub broadcast group group_maps { lemma_entry, lemma_listed, lemma_owned, lemma_own }
impl<K, T> FromIt<(K, T)> for VMap<K, T> { open spec fn holds(&self, s: Seq<(K, T)>) -> bool { gathers(self@, s) } }
/// built from pairs: the keys of the pairs, each with the value of one of them
pub open spec fn gathers<K, T>(m: Map<K, T>, s: Seq<(K, T)>) -> bool {
  &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0)
  &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, m[k])
}
impl<K, T> VMap<K, T> {
  #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Map::<K, T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn vp_copy(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&T>) ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None::<&T> }) { unimplemented!() }
  #[verifier::external_body] pub fn vp_iter(&self) -> (r: It<(&K, &T)>) ensures r.s() == entries(self@) { unimplemented!() }
  #[verifier::external_body] pub fn vp_into(self) -> (r: It<(K, T)>) ensures r.s() == owned(self@) { unimplemented!() }
}
pub trait Fresh: Sized { spec fn fresh(&self) -> bool; }
impl<T> Fresh for Vec<T> { open spec fn fresh(&self) -> bool { self@ == Seq::<T>::empty() } }
/// what a map holds at a key, put there first if need be
#[verifier::external_body] pub fn vp_slot<K, T: Fresh>(m: &mut VMap<K, T>, k: K) -> (r: &mut T)
  ensures old(m)@.contains_key(k) ==> *r == old(m)@[k], !old(m)@.contains_key(k) ==> (*r).fresh(), final(m)@ == old(m)@.insert(k, *final(r)) { unimplemented!() }
#[verifier::external_body] pub fn vp_slot_with<K, T, F: FnOnce() -> T>(m: &mut VMap<K, T>, k: K, f: F) -> (r: &mut T)
  requires call_requires(f, ())
  ensures old(m)@.contains_key(k) ==> *r == old(m)@[k], !old(m)@.contains_key(k) ==> call_ensures(f, (), *r), final(m)@ == old(m)@.insert(k, *final(r)) { unimplemented!() }
impl<T> It<T> { #[verifier::external_body] pub fn vp_vec(self) -> (r: Vec<T>) ensures r@ == self.s() { unimplemented!() } }
"""

SPECS = r"""
pub open spec fn covers(s: Seq<Span>, x: int) -> bool { exists|i: int| 0 <= i < s.len() && holds(#[trigger] s[i], x) }
pub open spec fn whole(s: Seq<Span>) -> bool { forall|i: int| 0 <= i < s.len() ==> solid(#[trigger] s[i]) }
/// in order, without overlapping or touching
pub open spec fn separated(s: Seq<Span>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).b() < (#[trigger] s[j]).a() }
/// every end of a range shown is an end of a range given
pub open spec fn drawn(r: Seq<Span>, s: Seq<Span>) -> bool { forall|i: int| 0 <= i < r.len() ==> bounded(#[trigger] r[i], s) }
pub open spec fn bounded(e: Span, s: Seq<Span>) -> bool { (exists|j: int| 0 <= j < s.len() && e.a() == (#[trigger] s[j]).a()) && (exists|k: int| 0 <= k < s.len() && e.b() == (#[trigger] s[k]).b()) }
pub open spec fn all_inside(s: Seq<Span>, o: Span) -> bool { forall|i: int| 0 <= i < s.len() ==> inside(#[trigger] s[i], o) }
pub proof fn lemma_drawn(r: Seq<Span>, s: Seq<Span>, o: Span) requires drawn(r, s), all_inside(s, o) ensures all_inside(r, o)
{ broadcast use axiom_span; assert forall|i: int| 0 <= i < r.len() implies inside(#[trigger] r[i], o) by { assert(bounded(r[i], s));
  let j = choose|j: int| 0 <= j < s.len() && r[i].a() == (#[trigger] s[j]).a(); let k = choose|k: int| 0 <= k < s.len() && r[i].b() == (#[trigger] s[k]).b(); assert(inside(s[j], o) && inside(s[k], o)); } }
/// where an instruction is, for a reader of the body
pub open spec fn seen<'tcx>(c: &PermissionsCtxt<'tcx>, l: Location) -> Span { local(c.body_with_facts.body.instruction(l), c.body_with_facts.body.span)->Some_0 }
pub open spec fn tabled<'tcx>(c: &PermissionsCtxt<'tcx>) -> bool { c.body_with_facts.location_table is Some }
pub open spec fn loc<'tcx>(c: &PermissionsCtxt<'tcx>, p: Point) -> Location { c.body_with_facts.location_table->Some_0.at(p) }
pub open spec fn at<'tcx>(c: &PermissionsCtxt<'tcx>, p: Point) -> Span { seen(c, loc(c, p)) }
/// the source node that runs at a point
pub open spec fn node<'tcx>(c: &PermissionsCtxt<'tcx>, p: Point) -> Span { hir_span(c.body_with_facts.body.hir_node(loc(c, p))) }
pub open spec fn operational<'tcx>(c: &PermissionsCtxt<'tcx>, l: Location) -> bool {
  let b = c.body_with_facts.body;
  !block(&b.basic_blocks, l.block).is_cleanup && !block(&b.basic_blocks, l.block).dead() && (match b.statement(l) { None => true, Some(s) => s.kind is Assign })
}
pub open spec fn live<K>(m: Map<Point, Vec<K>>, k: K, p: Point) -> bool { m.contains_key(p) && m[p]@.contains(k) }
pub open spec fn in_window(s: Span, lo: Span, hi: Span) -> bool { lo.a() <= s.a() && s.b() <= hi.b() }
/// the nodes that run while the loan is live, within the window, and the window's own ends
pub open spec fn in_force<'tcx, K>(c: &PermissionsCtxt<'tcx>, m: Map<Point, Vec<K>>, k: K, lo: Span, hi: Span, x: int) -> bool {
  (exists|p: Point| #[trigger] live(m, k, p) && solid(node(c, p)) && in_window(node(c, p), lo, hi) && holds(node(c, p), x)) || (in_window(lo, lo, hi) && holds(lo, x)) || (in_window(hi, lo, hi) && holds(hi, x))
}
pub open spec fn ranges(s: Seq<Span>) -> Seq<CharRange> { Seq::new(s.len(), |i: int| range_of(s[i])) }
pub open spec fn start_of<'tcx>(c: &PermissionsCtxt<'tcx>, l: Loan, p: Point) -> Span { if at(c, p).a() < seen(c, c.borrow_set.loan(l).reserved()).a() { seen(c, c.borrow_set.loan(l).reserved()) } else { at(c, p) } }
pub open spec fn loan_at<'tcx>(c: &PermissionsCtxt<'tcx>, l: Loan) -> Span { seen(c, c.borrow_set.loan(l).reserved()) }
/// the ranges shown for a loan, as byte ranges
pub open spec fn loan_spans<'tcx>(c: &PermissionsCtxt<'tcx>, l: Loan, w: (Point, Point), s: Seq<Span>) -> bool {
  let lo = start_of(c, l, w.0); let hi = at(c, w.1);
  (forall|x: int| #[trigger] covers(s, x) <==> in_force(c, c.polonius_output.loan_live_at@, l, lo, hi, x)) && (solid(lo) && solid(hi) ==> separated(s) && whole(s))
}
pub open spec fn loan_region<'tcx>(c: &PermissionsCtxt<'tcx>, l: Loan, w: (Point, Point), r: RefinementRegion) -> bool {
  r.refiner_point == Refiner::Loan(LoanKey(l.x)) && exists|s: Seq<Span>| r.refined_ranges@ == #[trigger] ranges(s) && loan_spans(c, l, w, s)
}
pub open spec fn shown<'tcx>(c: &PermissionsCtxt<'tcx>, k: LoanKey) -> bool { c.loan_regions->Some_0@.contains_key(Loan { x: k.0 }) && solid(loan_at(c, Loan { x: k.0 })) }
/// the window of a loan: a point where it is live that comes first in the source, and one that ends last
pub open spec fn window<'tcx>(c: &PermissionsCtxt<'tcx>, m: Map<Point, Vec<Loan>>, l: Loan, w: (Point, Point)) -> bool {
  live(m, l, w.0) && live(m, l, w.1) && forall|p: Point| #[trigger] live(m, l, p) ==> at(c, w.0).a() <= at(c, p).a() && at(c, p).b() <= at(c, w.1).b()
}
pub open spec fn move_at<'tcx>(c: &PermissionsCtxt<'tcx>, m: Move) -> Span { seen(c, c.move_data.moves.v@[m.x as int].source) }
pub open spec fn moved<'tcx>(c: &PermissionsCtxt<'tcx>, k: MoveKey) -> bool { c.move_data.moves.has(Move { x: k.0 }) && solid(move_at(c, Move { x: k.0 })) }
pub open spec fn refines<'tcx>(c: &PermissionsCtxt<'tcx>, k: MoveKey, p: Point) -> bool {
  let m = c.permissions_output.move_refined@; m.contains_key(p) && exists|q: Path| #[trigger] m[p]@.contains_key(q) && m[p]@[q] == Move { x: k.0 }
}
pub open spec fn moved_out<'tcx>(c: &PermissionsCtxt<'tcx>, k: MoveKey, x: int) -> bool {
  exists|p: Point| #[trigger] refines(c, k, p) && operational(c, loc(c, p)) && solid(node(c, p)) && local(node(c, p), c.body_with_facts.body.span) is Some
    && move_at(c, Move { x: k.0 }).a() <= local(node(c, p), c.body_with_facts.body.span)->Some_0.a() && holds(local(node(c, p), c.body_with_facts.body.span)->Some_0, x)
}
pub open spec fn move_spans<'tcx>(c: &PermissionsCtxt<'tcx>, k: MoveKey, s: Seq<Span>) -> bool { (forall|x: int| #[trigger] covers(s, x) <==> moved_out(c, k, x)) && separated(s) && whole(s) }
pub open spec fn move_region<'tcx>(c: &PermissionsCtxt<'tcx>, k: MoveKey, r: RefinementRegion) -> bool {
  r.refiner_point == Refiner::Move(k) && exists|s: Seq<Span>| r.refined_ranges@ == #[trigger] ranges(s) && move_spans(c, k, s)
}
pub open spec fn sharp<K: PartialEq>() -> bool { <K as PartialEqSpec>::obeys_eq_spec() && forall|a: K, b: K| #[trigger] PartialEqSpec::eq_spec(&a, &b) <==> a == b }
/// the non-empty nodes that run at some points, and nothing else
pub open spec fn nodes<'tcx>(c: &PermissionsCtxt<'tcx>, pts: Seq<Point>, r: Seq<Span>) -> bool {
  forall|s: Span| #[trigger] r.contains(s) <==> solid(s) && exists|i: int| 0 <= i < pts.len() && node(c, #[trigger] pts[i]) == s
}
pub proof fn lemma_node<'tcx>(c: &PermissionsCtxt<'tcx>, pts: Seq<Point>, n: int, o: Seq<Span>, r: Seq<Span>)
  requires 0 <= n < pts.len(), nodes(c, pts.take(n), o), r == (if solid(node(c, pts[n])) { o.push(node(c, pts[n])) } else { o })
  ensures nodes(c, pts.take(n + 1), r)
{
  let t = pts.take(n); let u = pts.take(n + 1); let e = node(c, pts[n]);
  assert forall|s: Span| #[trigger] r.contains(s) <==> solid(s) && exists|i: int| 0 <= i < u.len() && node(c, #[trigger] u[i]) == s by {
    assert(r.contains(s) <==> o.contains(s) || (solid(e) && s == e)) by { if solid(e) { assert(r[o.len() as int] == e); if o.contains(s) { let k = choose|k: int| 0 <= k < o.len() && o[k] == s; assert(r[k] == s); } } }
    if o.contains(s) { let i = choose|i: int| 0 <= i < t.len() && node(c, #[trigger] t[i]) == s; assert(u[i] == t[i]); }
    if s == e { assert(u[n] == pts[n]); }
    if solid(s) && exists|i: int| 0 <= i < u.len() && node(c, #[trigger] u[i]) == s { let i = choose|i: int| 0 <= i < u.len() && node(c, #[trigger] u[i]) == s; if i < n { assert(t[i] == u[i]); } }
  }
}
/// every loan that has a place is shown there, with its region; nothing else is
pub open spec fn loans_shown<'tcx>(c: &PermissionsCtxt<'tcx>, p: Map<LoanKey, CharRange>, r: Map<LoanKey, RefinementRegion>) -> bool {
  &&& forall|k: LoanKey| #[trigger] p.contains_key(k) <==> shown(c, k)
  &&& forall|k: LoanKey| #[trigger] r.contains_key(k) <==> shown(c, k)
  &&& forall|k: LoanKey| #[trigger] p.contains_key(k) ==> p[k] == range_of(loan_at(c, Loan { x: k.0 }))
  &&& forall|k: LoanKey| #[trigger] r.contains_key(k) ==> loan_region(c, Loan { x: k.0 }, c.loan_regions->Some_0@[Loan { x: k.0 }], r[k])
}
pub open spec fn refining<'tcx>(c: &PermissionsCtxt<'tcx>, k: MoveKey) -> bool { exists|p: Point| refines(c, k, p) }
pub open spec fn moves_shown<'tcx>(c: &PermissionsCtxt<'tcx>, p: Map<MoveKey, CharRange>, r: Map<MoveKey, RefinementRegion>) -> bool {
  &&& forall|k: MoveKey| #[trigger] p.contains_key(k) <==> moved(c, k)
  &&& forall|k: MoveKey| #[trigger] r.contains_key(k) <==> moved(c, k) && refining(c, k)
  &&& forall|k: MoveKey| #[trigger] p.contains_key(k) ==> p[k] == range_of(move_at(c, k.m()))
  &&& forall|k: MoveKey| #[trigger] r.contains_key(k) ==> move_region(c, k, r[k])
}
impl MoveKey { pub open spec fn m(&self) -> Move { Move { x: self.0 } } }
#[verifier::external_body]
pub fn smooth_elements(elements: Vec<Span>) -> (r: Vec<Span>)
  ensures forall|x: int| #[trigger] covers(r@, x) <==> covers(elements@, x), whole(elements@) ==> separated(r@) && whole(r@), drawn(r@, elements@) { unimplemented!() }
"""

HASH = "the map of another hasher read as a map"
LOOPS = [
    (r"(?s)trait PointExt \{.*?\n    \}\s*impl PointExt for \(Point, Point\) \{.*?\n    \}", "", "the trait declared in the body moved in front of the impl"),
    (r"(?s)hash\s*\.entry\(\*loan\)\s*\.or_insert_with\((.*?)\)\s*\.expand\(\*point, self\)", r"let mut vp_w = vp_at_or(&hash, *loan, \1); vp_w.expand(*point, self); hash.vp_put(*loan, vp_w);", "an entry read, changed and written back"),
    (r"(?s)\bself\s*\.polonius_output\s*\.loan_live_at\s*\.iter\(\)\s*\.for_each\(\|\(point, loans\)\| \{\s*loans\.iter\(\)\.for_each\(\|loan\| \{(.*?)\}\)\s*\}\);", r"""let vp_es = self.polonius_output.loan_live_at.vp_iter().vp_vec();
    for vp_e in vp_i: vp_es
      invariant tabled(self), vp_es@ == entries(self.polonius_output.loan_live_at@), vp_i.seq() == vp_es@, 0 <= vp_i.index@ <= vp_es@.len(), met(self, listed(vp_es@, vp_i.index@, 0), hash@)
    { let point = vp_e.0; let loans = vp_e.1; let ghost vp_k = vp_i.index@; let vp_ls = loans.vp_iter().vp_vec();
      for loan in vp_j: vp_ls
        invariant tabled(self), 0 <= vp_k < vp_es@.len(), vp_es@[vp_k] == (point, loans), vp_ls@ == vp_refs(loans@), vp_j.seq() == vp_ls@, 0 <= vp_j.index@ <= vp_ls@.len(), met(self, listed(vp_es@, vp_k, vp_j.index@), hash@)
      { let ghost vp_old = hash@; \1 proof { lemma_meet(self, vp_es@, vp_k, vp_j.index@, vp_old, hash@); } }
      proof { lemma_row(self, vp_es@, vp_k, hash@); } }""", "iteration by closures written as loops"),
]

REGIONS = r"""
/// what has been listed: of the entries before i all loans, of entry i those before j
pub open spec fn listed<'a>(s: Seq<(&'a Point, &'a Vec<Loan>)>, i: int, j: int) -> Set2 { Set2 { f: |l: Loan, p: Point| exists|a: int, b: int| #![trigger s[a], (*s[a].1)@[b]]
  0 <= a < s.len() && 0 <= b < (*s[a].1)@.len() && (a < i || (a == i && b < j)) && *s[a].0 == p && (*s[a].1)@[b] == l } }
pub ghost struct Set2 { pub f: spec_fn(Loan, Point) -> bool }
pub open spec fn among<'a>(s: Seq<(&'a Point, &'a Vec<Loan>)>, i: int, j: int, l: Loan, p: Point) -> bool { (listed(s, i, j).f)(l, p) }
pub open spec fn wide<'tcx>(c: &PermissionsCtxt<'tcx>, f: Set2, l: Loan, w: (Point, Point)) -> bool {
  (f.f)(l, w.0) && (f.f)(l, w.1) && forall|p: Point| #[trigger] (f.f)(l, p) ==> at(c, w.0).a() <= at(c, p).a() && at(c, p).b() <= at(c, w.1).b()
}
/// every loan met has its window over the points met
pub open spec fn met<'tcx>(c: &PermissionsCtxt<'tcx>, f: Set2, h: Map<Loan, (Point, Point)>) -> bool {
  &&& forall|l: Loan, p: Point| #[trigger] (f.f)(l, p) ==> h.contains_key(l)
  &&& forall|l: Loan| #[trigger] h.contains_key(l) ==> wide(c, f, l, h[l])
}
pub open spec fn widened<'tcx>(c: &PermissionsCtxt<'tcx>, w: (Point, Point), p: Point) -> (Point, Point) {
  (if at(c, p).a() < at(c, w.0).a() { p } else { w.0 }, if at(c, w.1).b() < at(c, p).b() { p } else { w.1 })
}
pub proof fn lemma_meet<'a, 'tcx>(c: &PermissionsCtxt<'tcx>, s: Seq<(&'a Point, &'a Vec<Loan>)>, i: int, j: int, o: Map<Loan, (Point, Point)>, h: Map<Loan, (Point, Point)>)
  requires 0 <= i < s.len(), 0 <= j < (*s[i].1)@.len(), met(c, listed(s, i, j), o),
    ({ let l = (*s[i].1)@[j]; let p = *s[i].0; h == o.insert(l, widened(c, if o.contains_key(l) { o[l] } else { (p, p) }, p)) })
  ensures met(c, listed(s, i, j + 1), h)
{
  let f = listed(s, i, j); let g = listed(s, i, j + 1); let l0 = (*s[i].1)@[j]; let p0 = *s[i].0;
  assert((g.f)(l0, p0)) by { assert(s[i] == s[i] && (*s[i].1)@[j] == l0); }
  assert forall|l: Loan, p: Point| #[trigger] (g.f)(l, p) implies (f.f)(l, p) || (l == l0 && p == p0) by {
    let (a, b) = choose|a: int, b: int| #![trigger s[a], (*s[a].1)@[b]] 0 <= a < s.len() && 0 <= b < (*s[a].1)@.len() && (a < i || (a == i && b < j + 1)) && *s[a].0 == p && (*s[a].1)@[b] == l;
    if a < i || b < j { assert(s[a] == s[a] && (*s[a].1)@[b] == l); } }
  assert forall|l: Loan, p: Point| #[trigger] (f.f)(l, p) implies (g.f)(l, p) by {
    let (a, b) = choose|a: int, b: int| #![trigger s[a], (*s[a].1)@[b]] 0 <= a < s.len() && 0 <= b < (*s[a].1)@.len() && (a < i || (a == i && b < j)) && *s[a].0 == p && (*s[a].1)@[b] == l;
    assert(s[a] == s[a] && (*s[a].1)@[b] == l); }
  assert forall|l: Loan| #[trigger] h.contains_key(l) implies wide(c, g, l, h[l]) by {
    if l != l0 { assert(o.contains_key(l)); assert(wide(c, f, l, o[l])); }
    else if o.contains_key(l) { assert(wide(c, f, l, o[l])); assert forall|p: Point| #[trigger] (g.f)(l, p) implies at(c, h[l].0).a() <= at(c, p).a() && at(c, p).b() <= at(c, h[l].1).b() by { if (f.f)(l, p) {} } }
    else { assert forall|p: Point| #[trigger] (g.f)(l, p) implies p == p0 by { if (f.f)(l, p) { assert(o.contains_key(l)); } } }
  }
}
pub proof fn lemma_row<'a, 'tcx>(c: &PermissionsCtxt<'tcx>, s: Seq<(&'a Point, &'a Vec<Loan>)>, i: int, h: Map<Loan, (Point, Point)>)
  requires 0 <= i < s.len(), met(c, listed(s, i, (*s[i].1)@.len() as int), h) ensures met(c, listed(s, i + 1, 0), h)
{
  let f = listed(s, i, (*s[i].1)@.len() as int); let g = listed(s, i + 1, 0);
  assert forall|l: Loan, p: Point| #[trigger] (g.f)(l, p) <==> (f.f)(l, p) by {
    if (g.f)(l, p) { let (a, b) = choose|a: int, b: int| #![trigger s[a], (*s[a].1)@[b]] 0 <= a < s.len() && 0 <= b < (*s[a].1)@.len() && (a < i + 1 || (a == i + 1 && b < 0)) && *s[a].0 == p && (*s[a].1)@[b] == l; assert(s[a] == s[a] && (*s[a].1)@[b] == l); }
    if (f.f)(l, p) { let (a, b) = choose|a: int, b: int| #![trigger s[a], (*s[a].1)@[b]] 0 <= a < s.len() && 0 <= b < (*s[a].1)@.len() && (a < i || (a == i && b < (*s[i].1)@.len())) && *s[a].0 == p && (*s[a].1)@[b] == l; assert(s[a] == s[a] && (*s[a].1)@[b] == l); }
  }
  assert forall|l: Loan| #[trigger] h.contains_key(l) implies wide(c, g, l, h[l]) by { assert(wide(c, f, l, h[l])); }
}
/// everything listed: the loans live somewhere
pub proof fn lemma_all<'tcx>(c: &PermissionsCtxt<'tcx>, m: Map<Point, Vec<Loan>>, h: Map<Loan, (Point, Point)>)
  requires met(c, listed(entries(m), entries(m).len() as int, 0), h)
  ensures windows(c, m, h)
{
  broadcast use group_maps;
  let s = entries(m); let f = listed(s, s.len() as int, 0);
  assert forall|l: Loan, p: Point| #[trigger] live(m, l, p) <==> (f.f)(l, p) by {
    if live(m, l, p) { let a = choose|i: int| 0 <= i < entries(m).len() && #[trigger] entries(m)[i] == (&p, &m[p]); let b = choose|b: int| 0 <= b < m[p]@.len() && m[p]@[b] == l; assert(s[a] == s[a] && (*s[a].1)@[b] == l); }
    if (f.f)(l, p) { let (a, b) = choose|a: int, b: int| #![trigger s[a], (*s[a].1)@[b]] 0 <= a < s.len() && 0 <= b < (*s[a].1)@.len() && (a < s.len() || (a == s.len() && b < 0)) && *s[a].0 == p && (*s[a].1)@[b] == l; assert(m.contains_key(*s[a].0)); }
  }
  assert forall|l: Loan| #[trigger] h.contains_key(l) implies window(c, m, l, h[l]) by { assert(wide(c, f, l, h[l])); }
  assert forall|l: Loan, p: Point| #[trigger] live(m, l, p) implies h.contains_key(l) by { assert((f.f)(l, p)); }
}
pub open spec fn windows<'tcx>(c: &PermissionsCtxt<'tcx>, m: Map<Point, Vec<Loan>>, h: Map<Loan, (Point, Point)>) -> bool {
  (forall|l: Loan, p: Point| #[trigger] live(m, l, p) ==> h.contains_key(l)) && forall|l: Loan| #[trigger] h.contains_key(l) ==> window(c, m, l, h[l])
}
#[verifier::external_body] pub fn vp_at_or<K, T: Copy, F: FnOnce() -> T>(m: &VMap<K, T>, k: K, f: F) -> (r: T)
  requires call_requires(f, ()) ensures m@.contains_key(k) ==> r == m@[k], !m@.contains_key(k) ==> call_ensures(f, (), r) { unimplemented!() }
impl<K, T> VMap<K, T> { #[verifier::external_body] pub fn vp_put(&mut self, k: K, t: T) ensures final(self)@ == old(self)@.insert(k, t) { unimplemented!() } }

pub proof fn lemma_live<'a, K>(m: Map<Point, Vec<K>>, k: K, o: Seq<Option<Point>>)
  requires o.len() == entries(m).len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == (if (*entries(m)[i].1)@.contains(k) { Some(*entries(m)[i].0) } else { None::<Point> })
  ensures forall|p: Point| #[trigger] vp_somes(o).contains(p) <==> live(m, k, p)
{
  broadcast use group_maps; lemma_somes(o);
  assert forall|p: Point| #[trigger] vp_somes(o).contains(p) <==> live(m, k, p) by {
    if vp_somes(o).contains(p) { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some(p); assert(m.contains_key(*entries(m)[i].0)); }
    if live(m, k, p) { let e = entries(m); let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i] == (&p, &m[p]); assert(o[i] == Some(p)); }
  }
}
pub open spec fn framed(all: Seq<Span>, q: Seq<Span>, lo: Span, hi: Span) -> bool { forall|s: Span| #[trigger] q.contains(s) <==> all.contains(s) && in_window(s, lo, hi) }
pub proof fn lemma_frame(all: Seq<Span>, keep: Seq<bool>, q: Seq<Span>, lo: Span, hi: Span)
  requires all.len() == keep.len(), q == vp_pick(all, keep), forall|i: int| 0 <= i < all.len() ==> keep[i] == in_window(#[trigger] all[i], lo, hi)
  ensures framed(all, q, lo, hi)
{ lemma_pick(all, keep); }
pub proof fn lemma_two(nds: Seq<Span>, lo: Span, hi: Span)
  ensures forall|s: Span| #[trigger] nds.push(lo).push(hi).contains(s) <==> nds.contains(s) || s == lo || s == hi
{
  let t = nds.push(lo).push(hi);
  assert forall|s: Span| #[trigger] t.contains(s) <==> nds.contains(s) || s == lo || s == hi by {
    if nds.contains(s) { let i = choose|i: int| 0 <= i < nds.len() && nds[i] == s; assert(t[i] == s); }
    assert(t[nds.len() as int] == lo && t[nds.len() as int + 1] == hi);
  }
}
pub proof fn lemma_force<'tcx, K>(c: &PermissionsCtxt<'tcx>, m: Map<Point, Vec<K>>, k: K, pts: Seq<Point>, nds: Seq<Span>, q: Seq<Span>, lo: Span, hi: Span, o: Span)
  requires forall|p: Point| #[trigger] pts.contains(p) <==> live(m, k, p), nodes(c, pts, nds), framed(nds.push(lo).push(hi), q, lo, hi), inside(lo, o), inside(hi, o)
  ensures forall|x: int| #[trigger] covers(q, x) <==> in_force(c, m, k, lo, hi, x), solid(lo) && solid(hi) ==> whole(q), all_inside(q, o)
{
  broadcast use axiom_span;
  lemma_two(nds, lo, hi);
  assert forall|i: int| 0 <= i < q.len() implies inside(#[trigger] q[i], o) && (solid(lo) && solid(hi) ==> solid(q[i])) by { assert(q.contains(q[i])); assert(nds.push(lo).push(hi).contains(q[i])); if nds.contains(q[i]) {} }
  assert forall|x: int| #[trigger] covers(q, x) <==> in_force(c, m, k, lo, hi, x) by {
    if covers(q, x) {
      let i = choose|i: int| 0 <= i < q.len() && holds(#[trigger] q[i], x); let s = q[i]; assert(q.contains(s)); assert(nds.push(lo).push(hi).contains(s));
      if nds.contains(s) { let j = choose|j: int| 0 <= j < pts.len() && node(c, #[trigger] pts[j]) == s; assert(pts.contains(pts[j])); assert(live(m, k, pts[j])); }
    }
    if in_force(c, m, k, lo, hi, x) {
      let s = if in_window(lo, lo, hi) && holds(lo, x) { lo } else if in_window(hi, lo, hi) && holds(hi, x) { hi } else {
        node(c, choose|p: Point| #[trigger] live(m, k, p) && solid(node(c, p)) && in_window(node(c, p), lo, hi) && holds(node(c, p), x)) };
      if s != lo && s != hi {
        let p = choose|p: Point| #[trigger] live(m, k, p) && solid(node(c, p)) && in_window(node(c, p), lo, hi) && holds(node(c, p), x);
        assert(pts.contains(p)); let j = choose|j: int| 0 <= j < pts.len() && pts[j] == p; assert(node(c, pts[j]) == s); assert(nds.contains(s)); }
      assert(nds.push(lo).push(hi).contains(s)); assert(q.contains(s)); let i = choose|i: int| 0 <= i < q.len() && q[i] == s; assert(holds(q[i], x));
    }
  }
}
/// a map built from what is kept of a list of pairs
pub proof fn lemma_built<K, T>(m: Map<K, T>, o: Seq<Option<(K, T)>>) requires gathers(m, vp_somes(o))
  ensures forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some((k, m[k])), forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some ==> m.contains_key(o[i]->Some_0.0)
{
  lemma_somes(o); let v = vp_somes(o);
  assert forall|k: K| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some((k, m[k])) by { let j = choose|j: int| 0 <= j < v.len() && #[trigger] v[j] == (k, m[k]); assert(v.contains((k, m[k]))); }
  assert forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]) is Some implies m.contains_key(o[i]->Some_0.0) by { let e = o[i]->Some_0; assert(o[i] == Some(e)); assert(v.contains(e)); let j = choose|j: int| 0 <= j < v.len() && v[j] == e; assert(m.contains_key(v[j].0)); }
}
/// gathering what a map lists gives that map
pub broadcast proof fn lemma_gather<K, T>(n: Map<K, T>, m: Map<K, T>) requires #[trigger] gathers(n, owned(m)) ensures n == m
{
  broadcast use group_maps;
  assert forall|k: K| n.contains_key(k) <==> m.contains_key(k) by {
    if n.contains_key(k) { let s = owned(m); let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, n[k]); assert(m.contains_key(s[i].0)); }
    if m.contains_key(k) { let s = owned(m); let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, m[k]); assert(n.contains_key(s[i].0)); } }
  assert forall|k: K| n.contains_key(k) implies n[k] == m[k] by { let s = owned(m); let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, n[k]); assert(m[s[i].0] == s[i].1); }
  assert(n =~= m);
}
/// the loans that have a place, each with it
pub open spec fn placed<'a, 'tcx>(c: &PermissionsCtxt<'tcx>, h: Map<Loan, (Point, Point)>, m: Map<&'a Loan, Span>) -> bool {
  &&& forall|l: &'a Loan| #[trigger] m.contains_key(l) <==> h.contains_key(*l) && solid(loan_at(c, *l))
  &&& forall|l: &'a Loan| #[trigger] m.contains_key(l) ==> m[l] == loan_at(c, *l)
}
pub open spec fn sited<'a, 'tcx>(c: &PermissionsCtxt<'tcx>, l: &'a Loan) -> Option<(&'a Loan, Span)> { if solid(loan_at(c, *l)) { Some((l, loan_at(c, *l))) } else { None } }
pub proof fn lemma_placed<'a, 'tcx>(c: &PermissionsCtxt<'tcx>, h: Map<Loan, (Point, Point)>, o: Seq<Option<(&'a Loan, Span)>>, m: Map<&'a Loan, Span>)
  requires o.len() == entries(h).len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == sited(c, entries(h)[i].0), gathers(m, vp_somes(o))
  ensures placed(c, h, m)
{
  broadcast use group_maps; lemma_built(m, o);
  assert forall|l: &'a Loan| #[trigger] m.contains_key(l) <==> h.contains_key(*l) && solid(loan_at(c, *l)) by {
    if m.contains_key(l) { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some((l, m[l])); assert(h.contains_key(*entries(h)[i].0)); }
    if h.contains_key(*l) && solid(loan_at(c, *l)) { let e = entries(h); let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i] == (l, &h[*l]); assert(o[i] is Some); }
  }
  assert forall|l: &'a Loan| #[trigger] m.contains_key(l) implies m[l] == loan_at(c, *l) by { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some((l, m[l])); }
}
/// built by mapping the entries of the placed loans to (key, something that f accepts)
pub proof fn lemma_regions<'a, 'b, 'tcx>(c: &PermissionsCtxt<'tcx>, h: Map<Loan, (Point, Point)>, m: Map<&'a Loan, Span>, s: Seq<(LoanKey, RefinementRegion)>, r: Map<LoanKey, RefinementRegion>)
  requires placed(c, h, m), s.len() == entries(m).len(), gathers(r, s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == LoanKey((**entries(m)[i].0).x) && loan_region(c, **entries(m)[i].0, h[**entries(m)[i].0], s[i].1)
  ensures forall|k: LoanKey| #[trigger] r.contains_key(k) <==> h.contains_key(Loan { x: k.0 }) && solid(loan_at(c, Loan { x: k.0 })), forall|k: LoanKey| #[trigger] r.contains_key(k) ==> loan_region(c, Loan { x: k.0 }, h[Loan { x: k.0 }], r[k])
{
  broadcast use group_maps; let e = entries(m);
  assert forall|k: LoanKey| #[trigger] r.contains_key(k) implies h.contains_key(Loan { x: k.0 }) && solid(loan_at(c, Loan { x: k.0 })) && loan_region(c, Loan { x: k.0 }, h[Loan { x: k.0 }], r[k]) by {
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, r[k]); assert(m.contains_key(*e[i].0)); let l: Loan = **e[i].0; assert(l == Loan { x: k.0 }); }
  assert forall|k: LoanKey| h.contains_key(Loan { x: k.0 }) && solid(loan_at(c, Loan { x: k.0 })) implies #[trigger] r.contains_key(k) by {
    let l = Loan { x: k.0 }; assert(m.contains_key(&l)); let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i] == (&&l, &m[&l]); assert(s[i].0 == k); }
}
pub proof fn lemma_points<'a, 'tcx>(c: &PermissionsCtxt<'tcx>, h: Map<Loan, (Point, Point)>, m: Map<&'a Loan, Span>, s: Seq<(LoanKey, CharRange)>, r: Map<LoanKey, CharRange>)
  requires placed(c, h, m), s.len() == owned(m).len(), gathers(r, s), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (LoanKey((*owned(m)[i].0).x), range_of(owned(m)[i].1))
  ensures forall|k: LoanKey| #[trigger] r.contains_key(k) <==> h.contains_key(Loan { x: k.0 }) && solid(loan_at(c, Loan { x: k.0 })), forall|k: LoanKey| #[trigger] r.contains_key(k) ==> r[k] == range_of(loan_at(c, Loan { x: k.0 }))
{
  broadcast use group_maps; let e = owned(m);
  assert forall|k: LoanKey| #[trigger] r.contains_key(k) implies h.contains_key(Loan { x: k.0 }) && solid(loan_at(c, Loan { x: k.0 })) && r[k] == range_of(loan_at(c, Loan { x: k.0 })) by {
    let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, r[k]); assert(m.contains_key(e[i].0)); let l: Loan = *e[i].0; assert(l == Loan { x: k.0 }); }
  assert forall|k: LoanKey| h.contains_key(Loan { x: k.0 }) && solid(loan_at(c, Loan { x: k.0 })) implies #[trigger] r.contains_key(k) by {
    let l = Loan { x: k.0 }; assert(m.contains_key(&l)); let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i] == (&l, m[&l]); assert(s[i].0 == k); }
}
pub proof fn lemma_at<'tcx>(c: &PermissionsCtxt<'tcx>) ensures forall|l: Location| inside(#[trigger] seen(c, l), c.body_with_facts.body.span), forall|l: Location| in_source(#[trigger] seen(c, l))
{ broadcast use {axiom_instruction, axiom_local, axiom_inside};
  assert forall|l: Location| inside(#[trigger] seen(c, l), c.body_with_facts.body.span) && in_source(seen(c, l)) by { let b = c.body_with_facts.body; assert(local(b.instruction(l), b.span) is Some); assert(inside(seen(c, l), b.span)); } }
pub proof fn lemma_sources<'tcx>(c: &PermissionsCtxt<'tcx>, s: Seq<Span>) requires all_inside(s, c.body_with_facts.body.span) ensures forall|i: int| 0 <= i < s.len() ==> in_source(#[trigger] s[i])
{ broadcast use axiom_inside; }

pub open spec fn refined_at<'a>(s: Seq<(&'a Point, &'a VMap<Path, Move>)>, a: int) -> Seq<(&'a Path, &'a Move)> { entries((*s[a].1)@) }
/// of the entries before i all moves, of entry i those before j
pub open spec fn noted<'a>(s: Seq<(&'a Point, &'a VMap<Path, Move>)>, i: int, j: int, k: MoveKey, p: Point) -> bool {
  exists|a: int, b: int| #![trigger refined_at(s, a)[b]] 0 <= a < s.len() && 0 <= b < refined_at(s, a).len() && (a < i || (a == i && b < j)) && *s[a].0 == p && (*refined_at(s, a)[b].1).x == k.0
}
pub open spec fn has(m: Map<MoveKey, Vec<Point>>, k: MoveKey, p: Point) -> bool { m.contains_key(k) && m[k]@.contains(p) }
pub open spec fn filed<'a>(s: Seq<(&'a Point, &'a VMap<Path, Move>)>, i: int, j: int, m: Map<MoveKey, Vec<Point>>) -> bool {
  (forall|k: MoveKey, p: Point| #[trigger] has(m, k, p) <==> noted(s, i, j, k, p)) && forall|k: MoveKey| #[trigger] m.contains_key(k) ==> m[k]@.len() > 0
}
pub open spec fn kept_points(m: Map<MoveKey, Vec<Point>>, k: MoveKey) -> Seq<Point> { if m.contains_key(k) { m[k]@ } else { Seq::empty() } }
pub proof fn lemma_file<'a>(s: Seq<(&'a Point, &'a VMap<Path, Move>)>, i: int, j: int, o: Map<MoveKey, Vec<Point>>, h: Map<MoveKey, Vec<Point>>)
  requires 0 <= i < s.len(), 0 <= j < refined_at(s, i).len(), filed(s, i, j, o),
    ({ let k = MoveKey((*refined_at(s, i)[j].1).x); h.contains_key(k) && h == o.insert(k, h[k]) && h[k]@ == kept_points(o, k).push(*s[i].0) })
  ensures filed(s, i, j + 1, h)
{
  let k0 = MoveKey((*refined_at(s, i)[j].1).x); let p0 = *s[i].0;
  assert forall|k: MoveKey, p: Point| #[trigger] has(h, k, p) <==> noted(s, i, j + 1, k, p) by {
    assert(has(h, k, p) <==> has(o, k, p) || (k == k0 && p == p0)) by {
      let v = kept_points(o, k0);
      if k == k0 { assert(v.push(p0)[v.len() as int] == p0); if v.contains(p) { let t = choose|t: int| 0 <= t < v.len() && v[t] == p; assert(v.push(p0)[t] == p); }
        if v.push(p0).contains(p) { let t = choose|t: int| 0 <= t < v.push(p0).len() && v.push(p0)[t] == p; if t < v.len() { assert(v[t] == p); } } } }
    if has(o, k, p) { assert(noted(s, i, j, k, p)); let (a, b) = choose|a: int, b: int| #![trigger refined_at(s, a)[b]] 0 <= a < s.len() && 0 <= b < refined_at(s, a).len() && (a < i || (a == i && b < j)) && *s[a].0 == p && (*refined_at(s, a)[b].1).x == k.0; assert(refined_at(s, a)[b] == refined_at(s, a)[b]); }
    if k == k0 && p == p0 { assert(refined_at(s, i)[j] == refined_at(s, i)[j]); }
    if noted(s, i, j + 1, k, p) { let (a, b) = choose|a: int, b: int| #![trigger refined_at(s, a)[b]] 0 <= a < s.len() && 0 <= b < refined_at(s, a).len() && (a < i || (a == i && b < j + 1)) && *s[a].0 == p && (*refined_at(s, a)[b].1).x == k.0;
      if a < i || b < j { assert(refined_at(s, a)[b] == refined_at(s, a)[b]); assert(noted(s, i, j, k, p)); assert(has(o, k, p)); } else { assert(k == k0 && p == p0); } }
  }
}
pub proof fn lemma_filed<'a>(s: Seq<(&'a Point, &'a VMap<Path, Move>)>, i: int, m: Map<MoveKey, Vec<Point>>)
  requires 0 <= i < s.len(), filed(s, i, refined_at(s, i).len() as int, m) ensures filed(s, i + 1, 0, m)
{
  let n = refined_at(s, i).len() as int;
  assert forall|k: MoveKey, p: Point| #[trigger] has(m, k, p) <==> noted(s, i + 1, 0, k, p) by {
    if noted(s, i, n, k, p) { let (a, b) = choose|a: int, b: int| #![trigger refined_at(s, a)[b]] 0 <= a < s.len() && 0 <= b < refined_at(s, a).len() && (a < i || (a == i && b < n)) && *s[a].0 == p && (*refined_at(s, a)[b].1).x == k.0; assert(refined_at(s, a)[b] == refined_at(s, a)[b]); }
    if noted(s, i + 1, 0, k, p) { let (a, b) = choose|a: int, b: int| #![trigger refined_at(s, a)[b]] 0 <= a < s.len() && 0 <= b < refined_at(s, a).len() && (a < i + 1 || (a == i + 1 && b < 0)) && *s[a].0 == p && (*refined_at(s, a)[b].1).x == k.0; assert(refined_at(s, a)[b] == refined_at(s, a)[b]); assert(noted(s, i, n, k, p)); }
  }
}
pub proof fn lemma_noted<'tcx>(c: &PermissionsCtxt<'tcx>, m: Map<MoveKey, Vec<Point>>)
  requires filed(entries(c.permissions_output.move_refined@), entries(c.permissions_output.move_refined@).len() as int, 0, m)
  ensures forall|k: MoveKey, p: Point| #[trigger] has(m, k, p) <==> refines(c, k, p), forall|k: MoveKey| #[trigger] m.contains_key(k) <==> refining(c, k)
{
  broadcast use group_maps;
  let r = c.permissions_output.move_refined@; let s = entries(r);
  assert forall|k: MoveKey, p: Point| #[trigger] has(m, k, p) <==> refines(c, k, p) by {
    if has(m, k, p) { let (a, b) = choose|a: int, b: int| #![trigger refined_at(s, a)[b]] 0 <= a < s.len() && 0 <= b < refined_at(s, a).len() && *s[a].0 == p && (*refined_at(s, a)[b].1).x == k.0;
      assert(r.contains_key(*s[a].0)); let e = entries((*s[a].1)@); assert((*s[a].1)@.contains_key(*e[b].0)); assert(r[p]@.contains_key(*e[b].0) && r[p]@[*e[b].0] == Move { x: k.0 }); }
    if refines(c, k, p) { let q = choose|q: Path| #[trigger] r[p]@.contains_key(q) && r[p]@[q] == Move { x: k.0 };
      let a = choose|i: int| 0 <= i < entries(r).len() && #[trigger] entries(r)[i] == (&p, &r[p]); let e = entries(r[p]@); let b = choose|i: int| 0 <= i < e.len() && #[trigger] e[i] == (&q, &r[p]@[q]);
      assert(refined_at(s, a)[b] == e[b]); assert(noted(s, s.len() as int, 0, k, p)); }
  }
  assert forall|k: MoveKey| #[trigger] m.contains_key(k) <==> refining(c, k) by {
    if m.contains_key(k) { assert(m[k]@.contains(m[k]@[0])); assert(has(m, k, m[k]@[0])); }
    if refining(c, k) { let p = choose|p: Point| refines(c, k, p); assert(has(m, k, p)); }
  }
}
/// the moves that have a place, each with it
pub open spec fn located<'tcx>(c: &PermissionsCtxt<'tcx>, m: Map<MoveKey, Span>) -> bool {
  (forall|k: MoveKey| #[trigger] m.contains_key(k) <==> moved(c, k)) && forall|k: MoveKey| #[trigger] m.contains_key(k) ==> m[k] == move_at(c, k.m())
}
pub open spec fn spotted<'tcx>(c: &PermissionsCtxt<'tcx>, m: Move, o: &MoveOut) -> Option<(MoveKey, Span)> { if solid(seen(c, o.source)) { Some((MoveKey(m.x), seen(c, o.source))) } else { None } }
pub proof fn lemma_located<'tcx>(c: &PermissionsCtxt<'tcx>, o: Seq<Option<(MoveKey, Span)>>, m: Map<MoveKey, Span>)
  requires c.move_data.moves.v@.len() <= 0xffff_ff01, o.len() == c.move_data.moves.v@.len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == spotted(c, c.move_data.moves.vs()[i].0, c.move_data.moves.vs()[i].1), gathers(m, vp_somes(o))
  ensures located(c, m)
{
  lemma_built(m, o); let v = c.move_data.moves.v@;
  assert forall|k: MoveKey| #[trigger] m.contains_key(k) implies moved(c, k) && m[k] == move_at(c, k.m()) by { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some((k, m[k])); assert(k.0 == i); }
  assert forall|k: MoveKey| moved(c, k) implies #[trigger] m.contains_key(k) by { let i = k.0 as int; assert(o[i] == spotted(c, c.move_data.moves.vs()[i].0, &v[i])); assert(o[i] is Some); }
}
pub open spec fn answer<'tcx>(c: &PermissionsCtxt<'tcx>, k: MoveKey, o: Option<(MoveKey, RefinementRegion)>) -> bool { match o { None => !moved(c, k), Some(e) => moved(c, k) && e.0 == k && move_region(c, k, e.1) } }
pub open spec fn is_refined<'tcx>(c: &PermissionsCtxt<'tcx>, k: MoveKey, pts: Seq<Point>) -> bool { forall|p: Point| #[trigger] pts.contains(p) <==> refines(c, k, p) }
pub proof fn lemma_out<'tcx>(c: &PermissionsCtxt<'tcx>, k: MoveKey, ps: Seq<Point>, keep: Seq<bool>, nds: Seq<Span>, o: Seq<Option<Span>>, keep2: Seq<bool>, q: Seq<Span>)
  requires is_refined(c, k, ps), keep.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> #[trigger] keep[i] == operational(c, loc(c, ps[i])), nodes(c, vp_pick(ps, keep), nds),
    o.len() == nds.len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == local(nds[i], c.body_with_facts.body.span),
    keep2.len() == vp_somes(o).len(), forall|i: int| 0 <= i < keep2.len() ==> #[trigger] keep2[i] == (move_at(c, k.m()).a() <= vp_somes(o)[i].a()), q == vp_pick(vp_somes(o), keep2)
  ensures forall|x: int| #[trigger] covers(q, x) <==> moved_out(c, k, x), whole(q), all_inside(q, c.body_with_facts.body.span)
{
  broadcast use {axiom_span, axiom_local};
  let bs = c.body_with_facts.body.span; let os = vp_pick(ps, keep); let ls = vp_somes(o); let lo = move_at(c, k.m()).a();
  lemma_pick(ps, keep); lemma_somes(o); lemma_pick(ls, keep2);
  assert forall|s: Span| #[trigger] q.contains(s) implies inside(s, bs) && solid(s) && exists|p: Point| #[trigger] refines(c, k, p) && operational(c, loc(c, p)) && solid(node(c, p)) && local(node(c, p), bs) == Some(s) && lo <= s.a() by {
    let i = choose|i: int| 0 <= i < ls.len() && keep2[i] && #[trigger] ls[i] == s; assert(ls.contains(s));
    let j = choose|j: int| 0 <= j < o.len() && #[trigger] o[j] == Some(s); assert(nds.contains(nds[j]));
    let t = choose|t: int| 0 <= t < os.len() && node(c, #[trigger] os[t]) == nds[j]; assert(os.contains(os[t]));
    let w = choose|w: int| 0 <= w < ps.len() && keep[w] && #[trigger] ps[w] == os[t]; assert(ps.contains(ps[w])); assert(refines(c, k, os[t]));
  }
  assert forall|i: int| 0 <= i < q.len() implies inside(#[trigger] q[i], bs) && solid(q[i]) by { assert(q.contains(q[i])); }
  assert forall|x: int| #[trigger] covers(q, x) <==> moved_out(c, k, x) by {
    if covers(q, x) { let i = choose|i: int| 0 <= i < q.len() && holds(#[trigger] q[i], x); assert(q.contains(q[i])); }
    if moved_out(c, k, x) {
      let p = choose|p: Point| #[trigger] refines(c, k, p) && operational(c, loc(c, p)) && solid(node(c, p)) && local(node(c, p), bs) is Some && lo <= local(node(c, p), bs)->Some_0.a() && holds(local(node(c, p), bs)->Some_0, x);
      let s = local(node(c, p), bs)->Some_0; assert(ps.contains(p)); let w = choose|w: int| 0 <= w < ps.len() && ps[w] == p; assert(keep[w]); assert(os.contains(p));
      let t = choose|t: int| 0 <= t < os.len() && os[t] == p; assert(node(c, os[t]) == node(c, p)); assert(nds.contains(node(c, p)));
      let j = choose|j: int| 0 <= j < nds.len() && nds[j] == node(c, p); assert(o[j] == Some(s)); assert(ls.contains(s));
      let i = choose|i: int| 0 <= i < ls.len() && ls[i] == s; assert(keep2[i]); assert(q.contains(s)); let z = choose|z: int| 0 <= z < q.len() && q[z] == s; assert(holds(q[z], x));
    }
  }
}
pub proof fn lemma_move_regions<'tcx>(c: &PermissionsCtxt<'tcx>, m: Map<MoveKey, Vec<Point>>, o: Seq<Option<(MoveKey, RefinementRegion)>>, r: Map<MoveKey, RefinementRegion>)
  requires forall|k: MoveKey| #[trigger] m.contains_key(k) <==> refining(c, k), o.len() == owned(m).len(), forall|i: int| 0 <= i < o.len() ==> answer(c, owned(m)[i].0, #[trigger] o[i]), gathers(r, vp_somes(o))
  ensures forall|k: MoveKey| #[trigger] r.contains_key(k) <==> moved(c, k) && refining(c, k), forall|k: MoveKey| #[trigger] r.contains_key(k) ==> move_region(c, k, r[k])
{
  broadcast use group_maps; lemma_built(r, o); let e = owned(m);
  assert forall|k: MoveKey| #[trigger] r.contains_key(k) implies moved(c, k) && refining(c, k) && move_region(c, k, r[k]) by {
    let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some((k, r[k])); assert(answer(c, e[i].0, o[i])); assert(m.contains_key(e[i].0)); }
  assert forall|k: MoveKey| moved(c, k) && refining(c, k) implies #[trigger] r.contains_key(k) by { assert(m.contains_key(k)); let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i] == (k, m[k]); assert(answer(c, e[i].0, o[i])); assert(o[i] is Some); }
}
pub proof fn lemma_move_points<'tcx>(c: &PermissionsCtxt<'tcx>, m: Map<MoveKey, Span>, s: Seq<(MoveKey, CharRange)>, r: Map<MoveKey, CharRange>)
  requires located(c, m), s.len() == owned(m).len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (owned(m)[i].0, range_of(owned(m)[i].1)), gathers(r, s)
  ensures forall|k: MoveKey| #[trigger] r.contains_key(k) <==> moved(c, k), forall|k: MoveKey| #[trigger] r.contains_key(k) ==> r[k] == range_of(move_at(c, k.m()))
{
  broadcast use group_maps; let e = owned(m);
  assert forall|k: MoveKey| #[trigger] r.contains_key(k) implies moved(c, k) && r[k] == range_of(move_at(c, k.m())) by { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, r[k]); assert(m.contains_key(e[i].0)); }
  assert forall|k: MoveKey| moved(c, k) implies #[trigger] r.contains_key(k) by { assert(m.contains_key(k)); let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i] == (k, m[k]); assert(s[i].0 == k); }
}
"""

BODY = "self.permissions.body_with_facts.body"


def build(ctx):
    import re
    from rsx import Lost
    u = ctx.unit("regions")
    u.raw(BASE + iters.STUBS + MAPS, stubs=["smooth_elements"])
    u.item(M, "struct", "LoanKey", attrs="#[derive(Copy, Clone)]")
    u.item(M, "struct", "MoveKey", attrs="#[derive(Copy, Clone)]")
    for k, o in (("LoanKey", "&Loan"), ("MoveKey", "&Move"), ("MoveKey", "Move")):
        u.raw(f"""impl vstd::std_specs::convert::FromSpecImpl<{o}> for {k} {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(f: {o}) -> {k} {{ {k}(f.x) }} }}
""")
    u.impl(M, "LoanKey", "From", {"from": {}})
    for t in ("&Move", "Move"):
        s = u.crate.src(M).text
        m = re.search(r"impl From<" + t + r"> for MoveKey \{.*?\n\}", s, re.S)
        if m is None:
            raise Lost("impl From<%s> for MoveKey not found" % t)
        u.raw(m.group(0) + "\n")
    for n in ("LoanPoints", "MovePoints", "LoanRegions", "MoveRegions"):
        u.item(M, "struct", n)
    u.item(P, "enum", "Refiner")
    u.item(P, "struct", "RefinementRegion")
    u.raw(SPECS + REGIONS)
    s = u.crate.find(X, "fn", "construct_loan_regions", "PermissionsCtxt").text()
    m = re.search(r"(?s)trait PointExt \{.*?\n    \}", s), re.search(r"(?s)impl PointExt for \(Point, Point\) \{.*?\n    \}", s)
    if not all(m):
        raise Lost("PointExt not found in construct_loan_regions")
    tr = m[0].group(0).replace("trait PointExt {", "pub trait PointExt: Sized {").replace("fn from_point(p: Point) -> Self;", "spec fn win(&self) -> (Point, Point);\n fn from_point(p: Point) -> (r: Self) ensures r.win() == (p, p);")
    tr = tr.replace("fn expand(&mut self, p: Point, ctxt: &PermissionsCtxt);", "fn expand(&mut self, p: Point, ctxt: &PermissionsCtxt) requires tabled(ctxt) ensures final(self).win() == widened(ctxt, old(self).win(), p);")
    u.raw(tr + m[1].group(0)[:-1] + "\n  open spec fn win(&self) -> (Point, Point) { *self }\n}\n")
    u.impl(X, "PermissionsCtxt", None, {
        "location_table": dict(ret="r", spec="requires tabled(self) ensures *r == self.body_with_facts.location_table->Some_0"),
        "point_to_location": dict(ret="r", spec="requires tabled(self) ensures r == loc(self, p)"),
        "location_to_span": dict(ret="r", spec="ensures r == seen(self, l)", start="broadcast use axiom_instruction;"),
        "is_location_operational": dict(ret="r", spec="ensures r == operational(self, loc)", subst=[
            (r"use either::Either::\{Left, Right\};\s*use rustc_middle::mir::\{Statement, StatementKind as SK, Terminator\};", "", "names written out"),
            (r"bbs\[bb\]", "vp_block(bbs, bb)", "index by contract"), (r"\bRight\(", "Either::Right(", "name written out"), (r"\bLeft\(", "Either::Left(", "name written out"), (r"SK::", "StatementKind::", "name written out")]),
        "is_point_operational": dict(ret="r", spec="requires tabled(self) ensures r == operational(self, loc(self, point))"),
        "construct_loan_regions": dict(spec="""requires tabled(old(self))
  ensures old(self).loan_regions is Some ==> *final(self) == *old(self),
    old(self).loan_regions is None ==> final(self).loan_regions is Some && *final(self) == (PermissionsCtxt { loan_regions: final(self).loan_regions, ..*old(self) }) && windows(old(self), old(self).polonius_output.loan_live_at@, final(self).loan_regions->Some_0@)""",
            closures=[None, None, dict(ret="r: (Point, Point)", spec="ensures r == (*point, *point)")], subst=LOOPS,
            at=[(r"self\.loan_regions = Some\(hash\);", "before", "proof { lemma_all(self, self.polonius_output.loan_live_at@, hash@); }")]),
    })
    u.raw("pub struct AquascopeAnalysis<'tcx> { pub permissions: PermissionsCtxt<'tcx> }\n")
    u.impl(M, "AquascopeAnalysis", None, {
        "is_span_visible": dict(ret="r", spec="ensures r == solid(span)", start="broadcast use axiom_span;"),
        "span_to_range": dict(ret="r", spec="requires in_source(span) ensures r == range_of(span)"),
        "points_to_spans": dict(ret="r", spec="requires tabled(&self.permissions) ensures nodes(&self.permissions, points.s(), r@)", closures=[None], subst=[
            (r"impl IntoIterator<Item = Point>", "It<Point>", "the iterator's type"),
            (r"(?s)points\.into_iter\(\)\.for_each\(\|point\| \{(.*)\}\);", r"""let ghost vp_s = points.s(); let vp_ps = points.vp_vec();
    for point in vp_i: vp_ps
      invariant tabled(&self.permissions), vp_ps@ == vp_s, vp_i.seq() == vp_s, 0 <= vp_i.index@ <= vp_s.len(), body == &self.permissions.body_with_facts.body, nodes(&self.permissions, vp_s.take(vp_i.index@), spans@)
    { broadcast use axiom_span; let ghost vp_old = spans@; let ghost vp_n = vp_i.index@; \1 proof { lemma_node(&self.permissions, vp_s, vp_n, vp_old, spans@); } }
    proof { assert(vp_s.take(vp_s.len() as int) =~= vp_s); }""", "iteration by a closure written as a loop"),
            (r"Vec::default\(\)", "Vec::<Span>::new()", "constructor written out"),
        ], at=[(r"let mut spans = [^;]*;", "after", "proof { assert(points.s().take(0) =~= Seq::<Point>::empty()); }")]),
        "key_to_spans": dict(ret="r", spec=f"""requires tabled(&self.permissions), sharp::<K>(), inside(min_span, {BODY}.span), inside(max_span, {BODY}.span)
  ensures forall|x: int| #[trigger] covers(r@, x) <==> in_force(&self.permissions, live_at@, loan, min_span, max_span, x), solid(min_span) && solid(max_span) ==> separated(r@) && whole(r@), all_inside(r@, {BODY}.span)""",
            subst=iters.SUBST + [(r"(?s)let spans = spans\s*\.vp_into\(\)\s*\.filter\((.*?)\)\s*\.map\(", r"let vp_f = spans.vp_into().filter(\1); let ghost vp_q = vp_f.s(); let ghost vp_k = vp_f.kept(); let spans = vp_f.map(", "iterator named"),
                (r"smooth_elements\(spans\)", "let ghost vp_s = spans@; let vp_r = smooth_elements(spans); proof { lemma_drawn(vp_r@, vp_s, self.permissions.body_with_facts.body.span); } vp_r", "result named")],
            start="broadcast use {axiom_span, axiom_local, group_maps, group_vp_ext};",
            at=[(r"let points = live_at[^;]*;", "after", "let ghost vp_p = points.s(); proof { lemma_live(live_at@, loan, points.opts()); }"),
                (r"spans\.push\(min_span\);", "before", "let ghost vp_n = spans@;"), (r"spans\.push\(max_span\);", "after", "let ghost vp_all = spans@;"),
                (r"let spans = spans\b[^;]*;", "after", "proof { lemma_frame(vp_all, vp_k, vp_q, min_span, max_span); lemma_force(&self.permissions, live_at@, loan, vp_p, vp_n, vp_q, min_span, max_span, self.permissions.body_with_facts.body.span); assert(spans@ =~= vp_q); }")],
            closures=[dict(types=["(&Point, &Vec<K>)"], ret="o: Option<Point>", spec="requires sharp::<K>() ensures o == (if vp_c0.1@.contains(loan) { Some(*vp_c0.0) } else { None::<Point> })"),
                      dict(types=["&Span"], ret="b: bool", spec="ensures b == in_window(*span, min_span, max_span)"),
                      dict(ret="r: Span", spec=f"ensures r == (match local(span, {BODY}.span) {{ Some(x) => x, None => span }})")]),
        "construct_loan_info": dict(ret="r", spec="requires tabled(&self.permissions), self.permissions.loan_regions is Some ensures loans_shown(&self.permissions, r.0.0@, r.1.0@)",
            subst=iters.SUBST + [(r"fn construct_loan_info\(&self\)", "fn construct_loan_info<'vp>(&'vp self)", "lifetime named"), (r"borrow_set\[\*loan\]", "borrow_set.vp_at(*loan)", "index by contract"),
                                 (r"let loan_key: LoanKey = \(\*loan\)\.into\(\)", "let loan_key: LoanKey = LoanKey::from(*loan)", "conversion named"), (r"let loan_key: LoanKey = loan\.into\(\)", "let loan_key: LoanKey = LoanKey::from(loan)", "conversion named"), (r"\.clone\(\)", ".vp_copy()", "copy by contract"),
                (r"(?s)let loans_to_spans = (.*?)\s*\.collect::<HashMap<_, _>>\(\);(.*?)let loan_to_regions = (.*?)\s*\.collect::<HashMap<_, _>>\(\);(.*?)let loan_to_ranges = (.*?)\s*\.collect::<HashMap<_, _>>\(\);",
                 r"""let vp_a = \1; let ghost vp_ao = vp_a.opts(); let loans_to_spans = vp_a.collect::<VMap<_, _>>(); let ghost vp_h = self.permissions.loan_regions->Some_0@; let ghost vp_m = loans_to_spans@; proof { lemma_placed(&self.permissions, vp_h, vp_ao, vp_m); }
  \2 let vp_b = \3; let ghost vp_bs = vp_b.s(); let loan_to_regions = vp_b.collect::<VMap<_, _>>(); proof { lemma_regions(&self.permissions, vp_h, vp_m, vp_bs, loan_to_regions@); }
  \4 let vp_c = \5; let ghost vp_cs = vp_c.s(); let loan_to_ranges = vp_c.collect::<VMap<_, _>>(); proof { lemma_points(&self.permissions, vp_h, vp_m, vp_cs, loan_to_ranges@); }""", "iterators named"),
                (r"(?s)let active_nodes = self\s*\.key_to_spans\((.*?end_span,?\s*)\)\s*\.vp_into\(\)(.*?);", r"let vp_d = self.key_to_spans(\1); let ghost vp_ds = vp_d@; proof { lemma_sources(&self.permissions, vp_ds); } let active_nodes = vp_d.vp_into()\2; proof { assert(active_nodes@ =~= ranges(vp_ds)); }", "call named")],
            start="broadcast use {axiom_span, group_maps, group_vp_ext}; proof { lemma_at(&self.permissions); }",
            closures=[dict(types=["(&'vp Loan, &'vp (Point, Point))"], ret="o: Option<(&'vp Loan, Span)>", spec="ensures o == sited(&self.permissions, vp_c0.0)", start="broadcast use {axiom_span, axiom_local}; proof { lemma_at(&self.permissions); }"),
                      dict(types=["(&&'vp Loan, &Span)"], ret="e: (LoanKey, RefinementRegion)", spec="requires tabled(&self.permissions), self.permissions.loan_regions is Some, self.permissions.loan_regions->Some_0@.contains_key(**vp_c0.0), *vp_c0.1 == loan_at(&self.permissions, **vp_c0.0) ensures e.0 == LoanKey((**vp_c0.0).x), loan_region(&self.permissions, **vp_c0.0, self.permissions.loan_regions->Some_0@[**vp_c0.0], e.1)",
                           start="broadcast use {axiom_span, group_vp_ext, lemma_gather, group_maps}; proof { lemma_at(&self.permissions); }"),
                      dict(ret="r: CharRange", spec="requires in_source(s) ensures r == range_of(s)"),
                      dict(types=["(&'vp Loan, Span)"], ret="e: (LoanKey, CharRange)", spec="requires in_source(vp_c0.1) ensures e == (LoanKey((*vp_c0.0).x), range_of(vp_c0.1))")]),
        "construct_move_info": dict(ret="r", spec="requires tabled(&self.permissions) ensures moves_shown(&self.permissions, r.0.0@, r.1.0@)",
            subst=iters.SUBST + [(r"let move_key: MoveKey = movep\.into\(\)", "let move_key: MoveKey = MoveKey::from(movep)", "conversion named"), (r"let move_key = movep\.into\(\)", "let move_key = MoveKey::from(movep)", "conversion named"),
                                 (r"HashMap::<MoveKey, Vec<Point>>::default\(\)", "VMap::<MoveKey, Vec<Point>>::default()", HASH),
                                 (r"for \(&point, path_to_move\) in ", "for vp_e in ", "pattern moved into the body"), (r"for \(_, movep\) in ", "for vp_f in ", "pattern moved into the body"),
                                 (r"move_refined\.vp_iter\(\)", "move_refined.vp_iter().vp_vec()", "the entries listed"), (r"path_to_move\.vp_iter\(\)", "path_to_move.vp_iter().vp_vec()", "the entries listed"),
                                 (r"move_to_spans\.entry\(move_key\)\.or_default\(\)", "vp_slot(&mut move_to_spans, move_key)", "entry by contract"),
                                 (r"(?s)let move_points = ctxt(.*?)\s*\.collect::<HashMap<_, _>>\(\);(.*?)let move_regions = move_to_spans(.*?)\s*\.collect::<HashMap<_, _>>\(\);(.*?)let move_points = move_points(.*?)\s*\.collect::<HashMap<_, _>>\(\);",
                                  r"""let vp_a = ctxt\1; let ghost vp_ao = vp_a.opts(); let move_points = vp_a.collect::<VMap<_, _>>(); let ghost vp_m = move_points@; proof { lemma_located(&self.permissions, vp_ao, vp_m); }
  \2 let ghost vp_t = move_to_spans@; let vp_b = move_to_spans\3; let ghost vp_bo = vp_b.opts(); let move_regions = vp_b.collect::<VMap<_, _>>(); proof { lemma_move_regions(&self.permissions, vp_t, vp_bo, move_regions@); }
  \4 let vp_c = move_points\5; let ghost vp_cs = vp_c.s(); let move_points = vp_c.collect::<VMap<_, _>>(); proof { lemma_move_points(&self.permissions, vp_m, vp_cs, move_points@); }""", "iterators named"),
                                 (r"(?s)let points = self\s*\.points_to_spans\(\s*points\s*\.vp_into\(\)\s*\.filter\((.*?)\),?\s*\)\s*\.vp_into\(\)\s*(?://[^\n]*\n\s*)*\.filter_map\((.*?)\)\s*\.filter\((.*?)\)\s*\.collect::<Vec<_>>\(\);",
                                  r"""let ghost vp_ps = points@; let vp_o = points.vp_into().filter(\1); let ghost vp_ok = vp_o.kept(); let vp_n = self.points_to_spans(vp_o); let ghost vp_ns = vp_n@; let vp_l = vp_n.vp_into().filter_map(\2); let ghost vp_lo = vp_l.opts(); let vp_g = vp_l.filter(\3); let ghost vp_gk = vp_g.kept(); let points = vp_g.collect::<Vec<_>>();
  let ghost vp_q = points@; proof { lemma_out(&self.permissions, move_key, vp_ps, vp_ok, vp_ns, vp_lo, vp_gk, vp_q); }""", "iterators named")],
            start="broadcast use {axiom_span, group_vp_ext}; proof { lemma_at(&self.permissions); }",
            loops=[dict(kind="for", iter="vp_i", inv="invariant tabled(&self.permissions), ctxt == &self.permissions, vp_i.seq() == entries(self.permissions.permissions_output.move_refined@), 0 <= vp_i.index@ <= vp_i.seq().len(), filed(vp_i.seq(), vp_i.index@, 0, move_to_spans@)",
                        start="let point = *vp_e.0; let path_to_move = vp_e.1; let ghost vp_s = vp_i.seq(); let ghost vp_k = vp_i.index@;", end="proof { lemma_filed(vp_s, vp_k, move_to_spans@); }", after="proof { lemma_noted(&self.permissions, move_to_spans@); }"),
                   dict(kind="for", iter="vp_j", inv="invariant 0 <= vp_k < vp_s.len(), vp_s[vp_k] == (&point, path_to_move), vp_j.seq() == refined_at(vp_s, vp_k), 0 <= vp_j.index@ <= vp_j.seq().len(), filed(vp_s, vp_k, vp_j.index@, move_to_spans@)",
                        start="let movep = vp_f.1; let ghost vp_old = move_to_spans@;", end="proof { assert(move_to_spans@[move_key]@ =~= kept_points(vp_old, move_key).push(point)); lemma_file(vp_s, vp_k, vp_j.index@, vp_old, move_to_spans@); }")],
            at=[(r"let mut move_to_spans = [^;]*;", "after", "proof { assert(filed(entries(self.permissions.permissions_output.move_refined@), 0, 0, move_to_spans@)); }"),
                (r"let smoothed = [^;]*;", "after", "let ghost vp_z = smoothed@; proof { lemma_drawn(vp_z, vp_q, self.permissions.body_with_facts.body.span); lemma_sources(&self.permissions, vp_z); }"),
                (r"let region = RefinementRegion", "before", "proof { assert(refined_ranges@ =~= ranges(vp_z)); assert(move_spans(&self.permissions, move_key, vp_z)); }"),
                (r"let move_points = move_points", "before", "proof { assert forall|i: int| 0 <= i < owned(vp_m).len() implies in_source((#[trigger] owned(vp_m)[i]).1) by { lemma_own(vp_m, i); } }"),
                (r"let move_regions = move_to_spans", "before", "proof { assert forall|i: int| 0 <= i < owned(move_to_spans@).len() implies is_refined(&self.permissions, (#[trigger] owned(move_to_spans@)[i]).0, owned(move_to_spans@)[i].1@) by { lemma_own(move_to_spans@, i); let e = owned(move_to_spans@)[i]; assert forall|p: Point| #[trigger] e.1@.contains(p) <==> refines(&self.permissions, e.0, p) by { assert(has(move_to_spans@, e.0, p) <==> e.1@.contains(p)); } } }")],
            closures=[dict(types=["(Move, &MoveOut)"], ret="o: Option<(MoveKey, Span)>", spec="ensures o == spotted(&self.permissions, vp_c0.0, vp_c0.1)"),
                      dict(types=["(MoveKey, Vec<Point>)"], ret="o: Option<(MoveKey, RefinementRegion)>", spec="requires tabled(&self.permissions), located(&self.permissions, move_points@), is_refined(&self.permissions, vp_c0.0, vp_c0.1@) ensures answer(&self.permissions, vp_c0.0, o)", start="broadcast use {axiom_span, group_vp_ext}; proof { lemma_at(&self.permissions); }"),
                      dict(types=["&Span"], ret="r: u32", spec="ensures r == s.a()"),
                      dict(types=["&Point"], ret="b: bool", spec="requires tabled(&self.permissions) ensures b == operational(&self.permissions, loc(&self.permissions, *point))"),
                      dict(types=["Span"], ret="o: Option<Span>", spec=f"ensures o == local(span, {BODY}.span)"),
                      dict(types=["&Span"], ret="b: bool", spec="ensures b == (lo <= span.a())"),
                      dict(types=["Span"], ret="r: CharRange", spec="requires in_source(span) ensures r == range_of(span)"),
                      dict(types=["(MoveKey, Span)"], ret="e: (MoveKey, CharRange)", spec="requires in_source(vp_c0.1) ensures e == (vp_c0.0, range_of(vp_c0.1))")]),
    })
    u.raw("} fn main() {}")
    return u


UNITS = [("regions", build)]
TRUSTED = ["rustc: Body::source_info, stmt_at, basic_blocks, the location table, the borrow set's reserve locations and the move data read as functions; rustc_utils: Span::as_local (the range itself if inside the body, else its call site if that is), location_to_hir_id, CharRange::from_span (a total function of ranges in files under analysis)",
           "hash maps and iterator chains by contract (vp/iters.py, a map listing each entry once in some order)",
           "smooth_elements: the contract proved under C06"]
ASSUMPTIONS = ["the range of every MIR instruction lies in the body or is expanded from a call that does, and a range inside a body can be turned into lines and columns (checked natively on the sample programs)",
               "a range that is not empty is not expanded from an empty call",
               "loan_live_at and move_refined are data: what puts entries there is the compiler's borrow checker and permissions/output.rs (C02)"]
BOUNDED = "loan and move points and regions of every body of the sample programs and of random programs, recomputed position by position"


def native_run(ctx):
    return ctx.native_crate("aquascope", {M: [("vp_c17", "native.rs")]}, "vp_c17")
