"""What compute_flows takes for sources, and what the flows mean in terms of the borrow checker's facts."""
import iters

F = "crates/aquascope/src/analysis/permissions/flow.rs"
X = "crates/aquascope/src/analysis/permissions/context.rs"

STUBS = r"""
use vstd::std_specs::core::*;
verus! {
global size_of usize == 8;
""" + iters.STUBS + r"""
impl<T> IntoIt for [T; 2] { type Item = T; open spec fn seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_into(self) -> It<T> { unimplemented!() } }
impl<T> It<T> {
  #[verifier::external_body] pub fn vp_vec(self) -> (r: Vec<T>) ensures r@ == self.s() { unimplemented!() }
  /// each once
  #[verifier::external_body] pub fn unique(self) -> (r: It<T>) ensures forall|x: T| #[trigger] r.s().contains(x) <==> self.s().contains(x) { unimplemented!() }
  #[verifier::external_body] pub fn minmax_by_key<G: Fn(&T) -> usize>(self, g: G) -> (r: MinMax<T>)
    requires forall|i: int| 0 <= i < self.s().len() ==> call_requires(g, (&#[trigger] self.s()[i],))
    ensures r.o() is None <==> self.s().len() == 0,
      r.o() is Some ==> self.s().contains(r.o()->Some_0.1), r.o() is Some ==> exists|k: usize| #[trigger] call_ensures(g, (&r.o()->Some_0.1,), k) && forall|i: int| 0 <= i < self.s().len() ==> vp_below(g, #[trigger] self.s()[i], k) { unimplemented!() }
}
/// what g says of x is k at most
pub open spec fn vp_below<T, G: Fn(&T) -> usize>(g: G, x: T, k: usize) -> bool { exists|l: usize| #[trigger] call_ensures(g, (&x,), l) && l <= k }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct MinMax<T> { p: core::marker::PhantomData<T> }
impl<T> MinMax<T> {
  pub uninterp spec fn o(&self) -> Option<(T, T)>;
  #[verifier::external_body] pub fn into_option(self) -> (r: Option<(T, T)>) ensures r == self.o() { unimplemented!() }
}
macro_rules! plain { ($($n:ident)*) => { verus! { $(
  #[derive(Copy, Clone)] pub struct $n { pub x: u32 }
  impl PartialEqSpecImpl for $n { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &$n) -> bool { *self == *o } }
  impl PartialEq for $n { #[verifier::external_body] fn eq(&self, o: &$n) -> bool { unimplemented!() } }
  impl Eq for $n {}
  impl std::hash::Hash for $n { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
)* } } }
plain! { Point Local Path MoveablePath Loan Move Origin DefId BodyId Variable SccIdx RegionVid Location }
macro_rules! opaque { ($($n:ident)*) => { verus! { $( #[verifier::external_body] pub struct $n<'tcx> { p: core::marker::PhantomData<&'tcx u8> } )* } } }
opaque! { MoveData TypingEnv }
pub struct Output<T> { pub vp_p: core::marker::PhantomData<T> }
pub struct AquascopeFacts {}
pub struct RustcFacts {}
pub struct IndexVec<I, T> { pub vp_p: core::marker::PhantomData<(I, T)> }
pub type PoloniusRegionVid = Origin;
/// the borrow checker's number of a region of the body
pub uninterp spec fn origin(v: RegionVid) -> Origin;
impl Origin { #[verifier::external_body] pub fn from(v: RegionVid) -> (r: Origin) ensures r == origin(v) { unimplemented!() } }
pub trait Idx: Copy + Eq + std::hash::Hash { spec fn num(&self) -> int; fn index(self) -> (r: usize) ensures r == self.num(), r <= 0xffff_ff00; }
impl Idx for Origin { uninterp spec fn num(&self) -> int; #[verifier::external_body] fn index(self) -> (r: usize) { unimplemented!() } }
impl Idx for SccIdx { uninterp spec fn num(&self) -> int; #[verifier::external_body] fn index(self) -> (r: usize) { unimplemented!() } }
#[verifier::external_body] #[derive(Copy, Clone)] pub struct TyCtxt<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
#[derive(Copy, Clone)] pub struct Region { pub v: RegionVid, pub var: bool }
/// `var`: a region of the body, not one bound within a type; asking another for its number is a crash
impl Region {
  #[verifier::external_body] pub fn is_var(&self) -> (r: bool) ensures r == self.var { unimplemented!() }
  #[verifier::external_body] pub fn as_var(&self) -> (r: RegionVid) requires self.var ensures r == self.v { unimplemented!() }
}
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum PlaceConflictBias { Overlap, NoOverlap }
#[derive(Copy, Clone)] pub enum ProjectionElem { Deref, Other(u64) }
#[verifier::external_body] pub struct PlaceElems<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
impl<'tcx> View for PlaceElems<'tcx> { type V = Seq<ProjectionElem>; uninterp spec fn view(&self) -> Seq<ProjectionElem>; }
#[derive(Copy, Clone)] pub struct Place<'tcx> { pub local: Local, pub projection: &'tcx PlaceElems<'tcx> }
#[derive(Copy, Clone)] pub struct PlaceRef<'tcx> { pub local: Local, pub projection: &'tcx [ProjectionElem] }
impl<'tcx> Place<'tcx> {
  pub open spec fn indirect(&self) -> bool { exists|i: int| 0 <= i < self.projection@.len() && (#[trigger] self.projection@[i]) is Deref }
  #[verifier::external_body] pub fn is_indirect(&self) -> (r: bool) ensures r == self.indirect() { unimplemented!() }
}
impl<'a> PlaceRef<'a> { #[verifier::external_body] pub fn to_place<'tcx>(&self, t: TyCtxt<'tcx>) -> (r: Place<'tcx>) ensures r.local == self.local, r.projection@ == self.projection@ { unimplemented!() } }
/// the place's memory may overlap that of the local followed through the projection
pub uninterp spec fn clash<'tcx>(b: Body<'tcx>, p: Place<'tcx>, l: Local, proj: Seq<ProjectionElem>) -> bool;
#[verifier::external_body]
pub fn places_conflict<'tcx>(t: TyCtxt<'tcx>, b: &Body<'tcx>, p: Place<'tcx>, q: Place<'tcx>, bias: PlaceConflictBias) -> (r: bool) ensures bias == PlaceConflictBias::Overlap ==> r == clash(*b, p, q.local, q.projection@) { unimplemented!() }
pub struct LocalDecl { pub x: u64 }
impl LocalDecl { pub uninterp spec fn thread_local(&self) -> bool; #[verifier::external_body] pub fn is_ref_to_thread_local(&self) -> (r: bool) ensures r == self.thread_local() { unimplemented!() } }
#[verifier::external_body] pub struct LocalDecls<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
impl<'tcx> LocalDecls<'tcx> { pub uninterp spec fn decl(&self, l: Local) -> LocalDecl; }
impl<'tcx> IndexSpecImpl<Local> for LocalDecls<'tcx> { open spec fn index_req(&self, i: &Local) -> bool { true } }
impl<'tcx> std::ops::Index<Local> for LocalDecls<'tcx> { type Output = LocalDecl;
  #[verifier::external_body] fn index(&self, l: Local) -> (o: &LocalDecl) ensures *o == self.decl(l) { unimplemented!() } }
pub struct Body<'tcx> { pub local_decls: LocalDecls<'tcx> }
/// the regions of the body's return type
pub uninterp spec fn returned<'tcx>(b: Body<'tcx>) -> Seq<Region>;
impl<'tcx> Body<'tcx> { #[verifier::external_body] pub fn regions_in_return(&self) -> (r: It<Region>) ensures r.s() == returned(*self) { unimplemented!() } }
pub struct BodyWithBorrowckFacts<'tcx> { pub body: Body<'tcx> }
#[verifier::external_body] pub struct BorrowData<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
impl<'tcx> BorrowData<'tcx> {
  pub uninterp spec fn of(&self) -> Place<'tcx>;
  pub uninterp spec fn rg(&self) -> RegionVid;
  #[verifier::external_body] pub fn borrowed_place(&self) -> (r: Place<'tcx>) ensures r == self.of() { unimplemented!() }
  #[verifier::external_body] pub fn region(&self) -> (r: RegionVid) ensures r == self.rg() { unimplemented!() }
}
#[verifier::external_body] pub struct BorrowSet<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
#[verifier::external_body] pub struct LocationMap<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
impl<'tcx> BorrowSet<'tcx> {
  pub uninterp spec fn borrow(&self, l: Loan) -> BorrowData<'tcx>;
  /// every borrow of the body, with where it is
  pub uninterp spec fn list(&self) -> Seq<(Location, BorrowData<'tcx>)>;
  #[verifier::external_body] pub fn location_map(&self) -> (r: &LocationMap<'tcx>) ensures r.list() == self.list() { unimplemented!() }
}
impl<'tcx> LocationMap<'tcx> {
  pub uninterp spec fn list(&self) -> Seq<(Location, BorrowData<'tcx>)>;
  #[verifier::external_body] pub fn vp_iter(&self) -> (r: It<(&Location, &BorrowData<'tcx>)>)
    ensures r.s().len() == self.list().len(), forall|i: int| 0 <= i < r.s().len() ==> *(#[trigger] r.s()[i]).0 == self.list()[i].0 && *r.s()[i].1 == self.list()[i].1 { unimplemented!() }
}
impl<'tcx> IndexSpecImpl<Loan> for BorrowSet<'tcx> { open spec fn index_req(&self, i: &Loan) -> bool { true } }
impl<'tcx> std::ops::Index<Loan> for BorrowSet<'tcx> { type Output = BorrowData<'tcx>;
  #[verifier::external_body] fn index(&self, l: Loan) -> (o: &BorrowData<'tcx>) ensures *o == self.borrow(l) { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(T)] pub struct HashMap<K, T> { x: core::marker::PhantomData<(K, T)> }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] pub struct HashSet<K> { x: core::marker::PhantomData<K> }
impl<K, T> View for HashMap<K, T> { type V = Map<K, T>; uninterp spec fn view(&self) -> Map<K, T>; }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<T> FromIt<T> for HashSet<T> { open spec fn holds(&self, s: Seq<T>) -> bool { forall|x: T| #[trigger] self@.contains(x) <==> s.contains(x) } }
impl<K> HashSet<K> { #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() } }
impl<K, T> HashMap<K, T> {
  #[verifier::external_body] pub fn vp_iter(&self) -> (r: It<(&K, &T)>)
    ensures forall|i: int| 0 <= i < r.s().len() ==> self@.contains_key(*(#[trigger] r.s()[i]).0) && *r.s()[i].1 == self@[*r.s()[i].0],
      forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r.s().len() && (#[trigger] r.s()[i]) == (&k, &self@[k]) { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub struct AllFacts<T> { pub subset_base: Vec<(Origin, Origin, Point)>, pub placeholder: Vec<(Origin, Loan)>, pub known_placeholder_subset: Vec<(Origin, Origin)>, pub vp_p: core::marker::PhantomData<T> }
#[verifier::reject_recursive_types(T)]
pub struct PEOutput<T> { pub errors: HashMap<Point, Vec<Loan>>, pub vp_p: core::marker::PhantomData<T> }
pub struct Instant { pub x: u64 }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } }

// ---- rustc's graphs -------------------------------------------------------------------------------------------------
pub trait Successors { type Node; spec fn nodes(&self) -> int; spec fn step(&self, a: Self::Node, b: Self::Node) -> bool; }
pub open spec fn path<G: Successors>(g: &G, p: Seq<G::Node>, a: G::Node, b: G::Node) -> bool {
  p.len() > 0 && p[0] == a && p.last() == b && forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] g.step(p[i], p[i + 1])
}
/// b can be reached from a in any number of steps
pub open spec fn reach<G: Successors>(g: &G, a: G::Node, b: G::Node) -> bool { exists|p: Seq<G::Node>| path(g, p, a, b) }
#[verifier::external_body] #[verifier::reject_recursive_types(N)]
pub struct VecGraph<N, const D: bool> { p: core::marker::PhantomData<N> }
impl<N: Idx, const D: bool> VecGraph<N, D> {
  pub uninterp spec fn edges(&self) -> Seq<(N, N)>;
  pub uninterp spec fn size(&self) -> int;
  #[verifier::external_body] pub fn new(n: usize, e: Vec<(N, N)>) -> (r: Self)
    requires forall|i: int| 0 <= i < e@.len() ==> (#[trigger] e@[i]).0.num() < n && e@[i].1.num() < n ensures r.edges() == e@, r.nodes() == n { unimplemented!() }
}
impl<N: Idx, const D: bool> Successors for VecGraph<N, D> { type Node = N; open spec fn nodes(&self) -> int { self.size() } open spec fn step(&self, a: N, b: N) -> bool { self.edges().contains((a, b)) } }
#[verifier::external_body] #[verifier::reject_recursive_types(N)] #[verifier::reject_recursive_types(S)]
pub struct Sccs<N, S> { p: core::marker::PhantomData<(N, S)> }
impl<S: Idx> Sccs<Origin, S> {
  pub uninterp spec fn of(&self, n: Origin) -> S;
  pub uninterp spec fn count(&self) -> int;
  #[verifier::external_body] pub fn num_sccs(&self) -> (r: usize) ensures r == self.count() { unimplemented!() }
  pub uninterp spec fn nodes(&self) -> int;
  #[verifier::external_body] pub fn scc(&self, n: Origin) -> (r: S) requires n.num() < self.nodes() ensures r == self.of(n), r.num() < self.count() { unimplemented!() }
  /// the strongly connected components, and which of them can be reached from which
  #[verifier::external_body] pub fn new<G: Successors<Node = Origin>>(g: &G) -> (r: Self)
    ensures r.nodes() == g.nodes(), forall|a: Origin, b: Origin| #![trigger r.of(a), r.of(b)] (r.of(a) == r.of(b) <==> reach(g, a, b) && reach(g, b, a)) && (reach(&r, r.of(a), r.of(b)) <==> reach(g, a, b)) ,
      forall|a: Origin| a.num() < g.nodes() ==> (#[trigger] r.of(a)).num() < r.count() { unimplemented!() }
}
impl<S: Idx> Successors for Sccs<Origin, S> { type Node = S; open spec fn nodes(&self) -> int { self.count() } uninterp spec fn step(&self, a: S, b: S) -> bool; }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct TransitiveRelation<T> { p: core::marker::PhantomData<T> }
impl<T> TransitiveRelation<T> { pub uninterp spec fn rel(&self, a: T, b: T) -> bool; }
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct ChunkedBitSet<T> { p: core::marker::PhantomData<T> }
impl<T: Idx> ChunkedBitSet<T> {
  pub uninterp spec fn has(&self, a: T) -> bool;
  pub uninterp spec fn size(&self) -> int;
  #[verifier::external_body] pub fn new_empty(n: usize) -> (r: Self) ensures r.size() == n, forall|x: T| !#[trigger] r.has(x) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, a: T) -> (r: bool) requires a.num() < old(self).size() ensures final(self).size() == old(self).size(), forall|x: T| #[trigger] final(self).has(x) <==> old(self).has(x) || x == a { unimplemented!() }
  #[verifier::external_body] pub fn vp_iter(&self) -> (r: It<T>) ensures forall|x: T| #[trigger] self.has(x) <==> r.s().contains(x) { unimplemented!() }
}
pub open spec fn flows<G: Successors>(g: &G, s: Seq<G::Node>, a: G::Node, b: G::Node) -> bool { s.contains(b) && reach(g, b, a) }
/// by its contract (unit flow)
#[verifier::external_body] pub fn flow_from_sources<G: Successors>(s: It<G::Node>, g: &G) -> (r: TransitiveRelation<G::Node>) ensures forall|a: G::Node, b: G::Node| #[trigger] r.rel(a, b) <==> flows(g, s.s(), a, b) { unimplemented!() }
"""

SPECS = r"""
impl<'tcx> PermissionsCtxt<'tcx> {
  pub open spec fn body(&self) -> Body<'tcx> { self.body_with_facts.body }
  pub open spec fn inp(&self) -> AllFacts<RustcFacts> { *self.polonius_input_facts }
  // ---- the borrow checker's facts, in words
  pub open spec fn constraint(&self, i: int, o: Origin) -> bool { self.inp().subset_base@[i].0 == o || self.inp().subset_base@[i].1 == o }
  /// a constraint: what is in a flows into b
  pub open spec fn leads(&self, a: Origin, b: Origin) -> bool { exists|i: int| #![trigger self.inp().subset_base@[i]] 0 <= i < self.inp().subset_base@.len() && self.inp().subset_base@[i].0 == a && self.inp().subset_base@[i].1 == b }
  pub open spec fn constrained(&self, o: Origin) -> bool { exists|p: Origin| #[trigger] self.leads(o, p) || self.leads(p, o) }
  /// a region its caller names
  pub open spec fn named(&self, o: Origin) -> bool {
    (self.constrained(o) && exists|i: int| 0 <= i < self.inp().placeholder@.len() && (#[trigger] self.inp().placeholder@[i]).0 == o)
      || exists|i: int| 0 <= i < returned(self.body()).len() && (#[trigger] returned(self.body())[i]).var && o == origin(returned(self.body())[i].v)
  }
  /// the region of a borrow of something not behind a pointer
  pub open spec fn local(&self, o: Origin) -> bool { exists|i: int| 0 <= i < self.borrow_set.list().len() && !(#[trigger] self.borrow_set.list()[i]).1.of().indirect() && o == origin(self.borrow_set.list()[i].1.rg()) }
  /// the borrowed place may not outlive the body
  pub open spec fn dies(&self, b: BorrowData<'tcx>) -> bool {
    let l = b.of().local;
    if self.body().local_decls.decl(l).thread_local() { clash(self.body(), b.of(), l, seq![ProjectionElem::Deref]) } else { self.locals_are_invalidated_at_exit && clash(self.body(), b.of(), l, Seq::empty()) }
  }
  pub open spec fn wrong(&self, l: Loan) -> bool { exists|pt: Point| #[trigger] self.polonius_output.errors@.contains_key(pt) && self.polonius_output.errors@[pt]@.contains(l) }
  pub open spec fn dangling(&self, o: Origin) -> bool { exists|l: Loan| #[trigger] self.wrong(l) && self.dies(self.borrow_set.borrow(l)) && o == origin(self.borrow_set.borrow(l).rg()) }
  /// every region of a borrow and of the return type is in the constraint graph
  pub open spec fn numbered(&self) -> bool {
    &&& forall|i: int| 0 <= i < self.inp().subset_base@.len() ==> (#[trigger] self.inp().subset_base@[i]).0.num() <= 0xffff_ff00 && self.inp().subset_base@[i].1.num() <= 0xffff_ff00
    &&& forall|i: int, n: int| 0 <= i < returned(self.body()).len() && #[trigger] self.size(n) && (#[trigger] returned(self.body())[i]).var ==> origin(returned(self.body())[i].v).num() < n
    &&& forall|i: int, n: int| 0 <= i < self.borrow_set.list().len() && #[trigger] self.size(n) ==> origin((#[trigger] self.borrow_set.list()[i]).1.rg()).num() < n
    &&& forall|l: Loan, n: int| #[trigger] self.size(n) && #[trigger] self.wrong(l) ==> origin(self.borrow_set.borrow(l).rg()).num() < n
  }
  pub open spec fn size(&self, n: int) -> bool { forall|i: int| 0 <= i < self.inp().subset_base@.len() ==> (#[trigger] self.inp().subset_base@[i]).0.num() < n && self.inp().subset_base@[i].1.num() < n }
  /// what is in a is declared to flow into b
  pub open spec fn declared(&self, a: Origin, b: Origin) -> bool { self.constrained(a) && self.constrained(b) && self.inp().known_placeholder_subset@.contains((a, b)) }
}
/// the constraint graph
pub ghost struct Into<'tcx> { pub c: PermissionsCtxt<'tcx> }
impl<'tcx> Successors for Into<'tcx> { type Node = Origin; open spec fn nodes(&self) -> int { 0 } open spec fn step(&self, a: Origin, b: Origin) -> bool { self.c.leads(a, b) } }

impl<'tcx> Into<'tcx> {
  pub open spec fn same(&self, a: Origin, b: Origin) -> bool { reach(self, a, b) && reach(self, b, a) }
}
/// what is declared, and what the constraints make equal
pub ghost struct Known<'tcx> { pub c: PermissionsCtxt<'tcx> }
impl<'tcx> Successors for Known<'tcx> { type Node = Origin; open spec fn nodes(&self) -> int { 0 } open spec fn step(&self, a: Origin, b: Origin) -> bool { self.c.declared(a, b) || (Into { c: self.c }).same(a, b) } }
/// the components with what is declared between them
pub ghost struct Declared<'tcx> { pub c: PermissionsCtxt<'tcx>, pub f: Sccs<Origin, SccIdx> }
impl<'tcx> Declared<'tcx> {
  pub open spec fn by(&self, a: Origin, b: Origin, x: SccIdx, y: SccIdx) -> bool { self.c.declared(a, b) && x == self.f.of(a) && y == self.f.of(b) }
  pub open spec fn loops(&self, o: Origin, x: SccIdx) -> bool { self.c.named(o) && x == self.f.of(o) }
}
impl<'tcx> Successors for Declared<'tcx> { type Node = SccIdx; open spec fn nodes(&self) -> int { 0 } open spec fn step(&self, x: SccIdx, y: SccIdx) -> bool {
  (exists|a: Origin, b: Origin| #[trigger] self.by(a, b, x, y)) || (x == y && exists|o: Origin| #[trigger] self.loops(o, x)) } }
/// x is the component of a source
pub open spec fn holds(f: Sccs<Origin, SccIdx>, p: spec_fn(Origin) -> bool, x: SccIdx) -> bool { exists|o: Origin| #[trigger] p(o) && x == f.of(o) }
impl RegionFlows {
  /// the flows are those of the body's facts
  pub open spec fn of<'tcx>(&self, c: PermissionsCtxt<'tcx>) -> bool {
    let f = self.constraint_graph;
    &&& forall|a: Origin, b: Origin| #![trigger f.of(a), f.of(b)] (f.of(a) == f.of(b) <==> (Into { c }).same(a, b)) && (reach(&f, f.of(a), f.of(b)) <==> reach(&Into { c }, a, b))
    &&& forall|x: SccIdx| #[trigger] self.abstract_sources.has(x) <==> holds(f, |o: Origin| c.named(o), x)
    &&& forall|x: SccIdx| #[trigger] self.dangling_local_sources.has(x) <==> holds(f, |o: Origin| c.dangling(o), x)
    &&& forall|x: SccIdx, y: SccIdx| #[trigger] self.contains_abstract.rel(x, y) <==> holds(f, |o: Origin| c.named(o), y) && reach(&f, y, x)
    &&& forall|x: SccIdx, y: SccIdx| #[trigger] self.contains_local.rel(x, y) <==> holds(f, |o: Origin| c.local(o), y) && reach(&f, y, x)
    &&& forall|x: SccIdx, y: SccIdx| #[trigger] self.specified_flows.rel(x, y) <==> holds(f, |o: Origin| c.named(o), y) && reach(&Declared { c, f }, y, x)
  }
}
"""

TWIN = r"""
/// the direct borrows among the first n that are in x
pub open spec fn direct(c: PermissionsCtxt<'_>, f: Sccs<Origin, SccIdx>, n: int, x: SccIdx) -> bool {
  exists|i: int| 0 <= i < n && !(#[trigger] c.borrow_set.list()[i]).1.of().indirect() && x == f.of(origin(c.borrow_set.list()[i].1.rg()))
}
pub proof fn lemma_direct(c: PermissionsCtxt<'_>, f: Sccs<Origin, SccIdx>, x: SccIdx)
  ensures direct(c, f, c.borrow_set.list().len() as int, x) <==> holds(f, |o: Origin| c.local(o), x)
{
  let p = |o: Origin| c.local(o); let n = c.borrow_set.list().len() as int;
  if direct(c, f, n, x) { let i = choose|i: int| 0 <= i < n && !(#[trigger] c.borrow_set.list()[i]).1.of().indirect() && x == f.of(origin(c.borrow_set.list()[i].1.rg())); assert(p(origin(c.borrow_set.list()[i].1.rg()))); }
  if holds(f, p, x) { let o = choose|o: Origin| #[trigger] p(o) && x == f.of(o); let i = choose|i: int| 0 <= i < n && !(#[trigger] c.borrow_set.list()[i]).1.of().indirect() && o == origin(c.borrow_set.list()[i].1.rg()); }
}
/// the loans among the first n that die and are in x
pub open spec fn bad_in(c: PermissionsCtxt<'_>, f: Sccs<Origin, SccIdx>, ls: Seq<Loan>, n: int, x: SccIdx) -> bool {
  exists|j: int| 0 <= j < n && c.dies(c.borrow_set.borrow(#[trigger] ls[j])) && x == f.of(origin(c.borrow_set.borrow(ls[j]).rg()))
}
pub open spec fn bad_upto(c: PermissionsCtxt<'_>, f: Sccs<Origin, SccIdx>, es: Seq<(&Point, &Vec<Loan>)>, n: int, x: SccIdx) -> bool { exists|i: int| 0 <= i < n && bad_in(c, f, (#[trigger] es[i]).1@, es[i].1@.len() as int, x) }
pub proof fn lemma_bad<'a>(c: PermissionsCtxt<'_>, f: Sccs<Origin, SccIdx>, es: Seq<(&'a Point, &'a Vec<Loan>)>, x: SccIdx)
  requires forall|i: int| 0 <= i < es.len() ==> c.polonius_output.errors@.contains_key(*(#[trigger] es[i]).0) && *es[i].1 == c.polonius_output.errors@[*es[i].0],
    forall|k: Point| #[trigger] c.polonius_output.errors@.contains_key(k) ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]) == (&k, &c.polonius_output.errors@[k])
  ensures bad_upto(c, f, es, es.len() as int, x) <==> holds(f, |o: Origin| c.dangling(o), x)
{
  let p = |o: Origin| c.dangling(o); let er = c.polonius_output.errors@;
  if bad_upto(c, f, es, es.len() as int, x) {
    let i = choose|i: int| 0 <= i < es.len() && bad_in(c, f, (#[trigger] es[i]).1@, es[i].1@.len() as int, x); let ls = es[i].1@;
    let j = choose|j: int| 0 <= j < ls.len() && c.dies(c.borrow_set.borrow(#[trigger] ls[j])) && x == f.of(origin(c.borrow_set.borrow(ls[j]).rg()));
    let pt = *es[i].0; assert(er.contains_key(pt) && er[pt]@.contains(ls[j])); assert(c.wrong(ls[j])); assert(p(origin(c.borrow_set.borrow(ls[j]).rg())));
  }
  if holds(f, p, x) {
    let o = choose|o: Origin| #[trigger] p(o) && x == f.of(o);
    let l = choose|l: Loan| #[trigger] c.wrong(l) && c.dies(c.borrow_set.borrow(l)) && o == origin(c.borrow_set.borrow(l).rg());
    let pt = choose|pt: Point| #[trigger] er.contains_key(pt) && er[pt]@.contains(l);
    let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]) == (&pt, &er[pt]); let j = choose|j: int| 0 <= j < er[pt]@.len() && er[pt]@[j] == l;
    assert(es[i].1@[j] == l); assert(bad_in(c, f, es[i].1@, es[i].1@.len() as int, x));
  }
}
/// two graphs with the same steps
pub proof fn lemma_twin<G: Successors, H: Successors<Node = G::Node>>(g: &G, h: &H, a: G::Node, b: G::Node)
  requires forall|x: G::Node, y: G::Node| #[trigger] g.step(x, y) <==> h.step(x, y)
  ensures reach(g, a, b) <==> reach(h, a, b)
{
  if reach(g, a, b) { let p = choose|p: Seq<G::Node>| path(g, p, a, b); assert forall|i: int| 0 <= i < p.len() - 1 implies #[trigger] h.step(p[i], p[i + 1]) by { assert(g.step(p[i], p[i + 1])); } assert(path(h, p, a, b)); }
  if reach(h, a, b) { let p = choose|p: Seq<G::Node>| path(h, p, a, b); assert forall|i: int| 0 <= i < p.len() - 1 implies #[trigger] g.step(p[i], p[i + 1]) by { assert(h.step(p[i], p[i + 1])); assert(g.step(p[i], p[i + 1])); } assert(path(g, p, a, b)); }
}
pub open spec fn side<T>(t: Seq<(T, T)>, x: T) -> bool { exists|i: int| 0 <= i < t.len() && (x == (#[trigger] t[i]).0 || x == t[i].1) }
pub proof fn lemma_sides<T>(t: Seq<(T, T)>, parts: Seq<Seq<T>>)
  requires parts.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] parts[i] == seq![t[i].0, t[i].1]
  ensures forall|x: T| #[trigger] vp_flat(parts).contains(x) <==> side(t, x)
{
  lemma_flat(parts);
  assert forall|x: T| #[trigger] vp_flat(parts).contains(x) <==> side(t, x) by {
    if vp_flat(parts).contains(x) { let i = choose|i: int| 0 <= i < parts.len() && (#[trigger] parts[i]).contains(x); assert(t[i].0 == x || t[i].1 == x); }
    if side(t, x) { let i = choose|i: int| 0 <= i < t.len() && (x == (#[trigger] t[i]).0 || x == t[i].1);
      if x == t[i].0 { assert(parts[i][0] == x); } else { assert(parts[i][1] == x); } assert(parts[i].contains(x)); }
  }
}
/// the constraints as pairs
pub open spec fn pairs(c: PermissionsCtxt<'_>, cs: Seq<(Origin, Origin)>) -> bool {
  cs.len() == c.inp().subset_base@.len() && forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i] == (c.inp().subset_base@[i].0, c.inp().subset_base@[i].1)
}
pub proof fn lemma_pairs(c: PermissionsCtxt<'_>, cs: Seq<(Origin, Origin)>) requires pairs(c, cs)
  ensures forall|x: Origin| #[trigger] c.constrained(x) <==> side(cs, x), forall|a: Origin, b: Origin| #[trigger] c.leads(a, b) <==> cs.contains((a, b))
{
  assert forall|a: Origin, b: Origin| #[trigger] c.leads(a, b) <==> cs.contains((a, b)) by {
    if c.leads(a, b) { let i = choose|i: int| #![trigger c.inp().subset_base@[i]] 0 <= i < c.inp().subset_base@.len() && c.inp().subset_base@[i].0 == a && c.inp().subset_base@[i].1 == b; assert(cs[i] == (a, b)); }
    if cs.contains((a, b)) { let i = choose|i: int| 0 <= i < cs.len() && cs[i] == (a, b); assert(c.inp().subset_base@[i].0 == a); }
  }
  assert forall|x: Origin| #[trigger] c.constrained(x) <==> side(cs, x) by {
    if c.constrained(x) { let p = choose|p: Origin| #[trigger] c.leads(x, p) || c.leads(p, x);
      if c.leads(x, p) { let i = choose|i: int| 0 <= i < cs.len() && cs[i] == (x, p); assert(cs[i].0 == x); } else { let i = choose|i: int| 0 <= i < cs.len() && cs[i] == (p, x); assert(cs[i].1 == x); } }
    if side(cs, x) { let i = choose|i: int| 0 <= i < cs.len() && (x == (#[trigger] cs[i]).0 || x == cs[i].1); let (a, b) = cs[i]; assert(cs.contains((a, b))); assert(c.leads(a, b)); let z = c.leads(b, a); assert(c.constrained(a) && c.constrained(b)); }
  }
}
pub proof fn lemma_named(c: PermissionsCtxt<'_>, opts: Seq<Option<Origin>>, keep: Seq<bool>, bs: Seq<Region>, rs: Seq<Origin>)
  requires opts.len() == c.inp().placeholder@.len(), forall|i: int| 0 <= i < opts.len() ==> #[trigger] opts[i] == (if c.constrained(c.inp().placeholder@[i].0) { Some(c.inp().placeholder@[i].0) } else { None }),
    keep.len() == returned(c.body()).len(), forall|i: int| 0 <= i < keep.len() ==> #[trigger] keep[i] == returned(c.body())[i].var, bs == vp_pick(returned(c.body()), keep),
    rs.len() == bs.len(), forall|i: int| 0 <= i < rs.len() ==> #[trigger] rs[i] == origin(bs[i].v)
  ensures forall|o: Origin| #[trigger] (vp_somes(opts) + rs).contains(o) <==> c.named(o)
{
  lemma_somes(opts); lemma_pick(returned(c.body()), keep);
  let a = vp_somes(opts); let ret = returned(c.body());
  assert forall|o: Origin| #[trigger] (a + rs).contains(o) <==> c.named(o) by {
    if (a + rs).contains(o) { let k = choose|k: int| 0 <= k < (a + rs).len() && (a + rs)[k] == o;
      if k < a.len() { assert(a[k] == o); assert(a.contains(o)); let i = choose|i: int| 0 <= i < opts.len() && #[trigger] opts[i] == Some(o); assert(c.inp().placeholder@[i].0 == o); }
      else { let j = k - a.len(); assert(rs[j] == o); assert(bs.contains(bs[j])); let i = choose|i: int| 0 <= i < ret.len() && keep[i] && #[trigger] ret[i] == bs[j]; assert(o == origin(ret[i].v)); } }
    if c.named(o) {
      if exists|i: int| 0 <= i < ret.len() && (#[trigger] ret[i]).var && o == origin(ret[i].v) { let i = choose|i: int| 0 <= i < ret.len() && (#[trigger] ret[i]).var && o == origin(ret[i].v); assert(keep[i]); assert(bs.contains(ret[i]));
        let j = choose|j: int| 0 <= j < bs.len() && bs[j] == ret[i]; assert(rs[j] == o); assert((a + rs)[a.len() + j] == o); }
      else { let i = choose|i: int| 0 <= i < c.inp().placeholder@.len() && (#[trigger] c.inp().placeholder@[i]).0 == o; assert(opts[i] == Some(o)); assert(a.contains(o)); let k = choose|k: int| 0 <= k < a.len() && a[k] == o; assert((a + rs)[k] == o); }
    }
  }
}
/// the components of the named regions
pub open spec fn comps(c: PermissionsCtxt<'_>, f: Sccs<Origin, SccIdx>, ps: Seq<SccIdx>) -> bool { forall|x: SccIdx| #[trigger] ps.contains(x) <==> holds(f, |o: Origin| c.named(o), x) }
pub proof fn lemma_comps(c: PermissionsCtxt<'_>, f: Sccs<Origin, SccIdx>, os: Seq<Origin>, ps: Seq<SccIdx>)
  requires os.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> #[trigger] ps[i] == f.of(os[i]), forall|o: Origin| #[trigger] os.contains(o) <==> c.named(o)
  ensures comps(c, f, ps)
{
  let p = |o: Origin| c.named(o);
  assert forall|x: SccIdx| #[trigger] ps.contains(x) <==> holds(f, p, x) by {
    if ps.contains(x) { let i = choose|i: int| 0 <= i < ps.len() && ps[i] == x; assert(os.contains(os[i])); assert(p(os[i]) && x == f.of(os[i])); }
    if holds(f, p, x) { let o = choose|o: Origin| #[trigger] p(o) && x == f.of(o); assert(os.contains(o)); let i = choose|i: int| 0 <= i < os.len() && os[i] == o; assert(ps[i] == x); }
  }
}
pub proof fn lemma_edges(c: PermissionsCtxt<'_>, f: Sccs<Origin, SccIdx>, kept: Seq<bool>, es: Seq<(SccIdx, SccIdx)>, ps: Seq<SccIdx>, ls: Seq<(SccIdx, SccIdx)>)
  requires comps(c, f, ps), kept.len() == c.inp().known_placeholder_subset@.len(),
    forall|i: int| 0 <= i < kept.len() ==> #[trigger] kept[i] == (c.constrained(c.inp().known_placeholder_subset@[i].0) && c.constrained(c.inp().known_placeholder_subset@[i].1)),
    ({ let ks = vp_pick(vp_refs(c.inp().known_placeholder_subset@), kept); es.len() == ks.len() && forall|i: int| 0 <= i < es.len() ==> #[trigger] es[i] == (f.of(ks[i].0), f.of(ks[i].1)) }),
    ls.len() == ps.len(), forall|i: int| 0 <= i < ls.len() ==> #[trigger] ls[i] == (ps[i], ps[i])
  ensures forall|x: SccIdx, y: SccIdx| #[trigger] (es + ls).contains((x, y)) <==> (Declared { c, f }).step(x, y)
{
  let k = c.inp().known_placeholder_subset@; let ks = vp_pick(vp_refs(k), kept); let d = Declared { c, f };
  lemma_pick(vp_refs(k), kept);
  let p = |o: Origin| c.named(o);
  assert forall|x: SccIdx, y: SccIdx| #[trigger] (es + ls).contains((x, y)) <==> d.step(x, y) by {
    if (es + ls).contains((x, y)) { let i = choose|i: int| 0 <= i < (es + ls).len() && (es + ls)[i] == (x, y);
      if i < es.len() { assert(es[i] == (x, y)); assert(ks.contains(ks[i])); let j = choose|j: int| 0 <= j < k.len() && kept[j] && #[trigger] vp_refs(k)[j] == ks[i]; assert(k[j] == *ks[i]);
        let a = k[j].0; let b = k[j].1; assert(k.contains((a, b))) by { assert(k[j] == (a, b)); } assert(c.declared(a, b)); assert(d.by(a, b, x, y)); }
      else { let j = i - es.len(); assert(ls[j] == (x, y)); assert(ps.contains(x)) by { assert(ps[j] == x); } assert(holds(f, p, x)); let o = choose|o: Origin| #[trigger] p(o) && x == f.of(o); assert(d.loops(o, x)); } }
    if d.step(x, y) {
      if exists|a: Origin, b: Origin| #[trigger] d.by(a, b, x, y) { let (a, b) = choose|a: Origin, b: Origin| #[trigger] d.by(a, b, x, y); let j = choose|j: int| 0 <= j < k.len() && k[j] == (a, b); assert(kept[j]); assert(vp_refs(k)[j] == &k[j]); assert(ks.contains(&k[j]));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == &k[j]; assert(es[i] == (x, y)); assert((es + ls)[i] == (x, y)); }
      else { let o = choose|o: Origin| #[trigger] d.loops(o, x); assert(p(o)); assert(holds(f, p, x)); assert(ps.contains(x)); let j = choose|j: int| 0 <= j < ps.len() && ps[j] == x; assert(ls[j] == (x, x)); assert((es + ls)[es.len() + j] == (x, y)); }
    }
  }
}
"""

VERDICT = r"""
pub proof fn lemma_trans<G: Successors>(g: &G, a: G::Node, b: G::Node, c: G::Node)
  requires reach(g, a, b), reach(g, b, c) ensures reach(g, a, c)
{
  let p = choose|p: Seq<G::Node>| path(g, p, a, b);
  let q = choose|q: Seq<G::Node>| path(g, q, b, c);
  let r = p + q.drop_first();
  assert forall|i: int| 0 <= i < r.len() - 1 implies #[trigger] g.step(r[i], r[i + 1]) by {
    if i < p.len() - 1 { assert(g.step(p[i], p[i + 1])); }
    else { let j = i - (p.len() - 1); assert(g.step(q[j], q[j + 1])); assert(r[i] == q[j]); assert(r[i + 1] == q[j + 1]); }
  }
  assert(path(g, r, a, c));
}
pub proof fn lemma_one<G: Successors>(g: &G, a: G::Node, b: G::Node) requires g.step(a, b) ensures reach(g, a, b) { assert(path(g, seq![a, b], a, b)); }
pub proof fn lemma_tail<G: Successors>(g: &G, p: Seq<G::Node>, a: G::Node, b: G::Node)
  requires path(g, p, a, b), p.len() > 1 ensures g.step(a, p[1]), path(g, p.drop_first(), p[1], b)
{
  let i = 0int; assert(g.step(p[i], p[i + 1]));
  let q = p.drop_first();
  assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] g.step(q[i], q[i + 1]) by { let j = i + 1; assert(g.step(p[j], p[j + 1])); }
}
pub proof fn lemma_down(c: PermissionsCtxt<'_>, f: Sccs<Origin, SccIdx>, p: Seq<SccIdx>, a: Origin, b: Origin)
  requires path(&(Declared { c, f }), p, f.of(a), f.of(b)), forall|a: Origin, b: Origin| #![trigger f.of(a), f.of(b)] f.of(a) == f.of(b) <==> (Into { c }).same(a, b)
  ensures reach(&Known { c }, a, b) decreases p.len()
{
  let d = Declared { c, f }; let k = Known { c };
  if p.len() == 1 { assert(f.of(a) == f.of(b)); lemma_one(&k, a, b); }
  else {
    let q = p.drop_first(); lemma_tail(&d, p, f.of(a), f.of(b));
    if exists|x: Origin, y: Origin| #[trigger] d.by(x, y, p[0], p[1]) {
      let (x, y) = choose|x: Origin, y: Origin| #[trigger] d.by(x, y, p[0], p[1]);
      assert(f.of(a) == f.of(x)); assert(path(&d, q, f.of(y), f.of(b))); lemma_down(c, f, q, y, b);
      assert((Into { c }).same(a, x)); lemma_one(&k, a, x); lemma_one(&k, x, y); lemma_trans(&k, a, x, y); lemma_trans(&k, a, y, b);
    } else { assert(path(&d, q, f.of(a), f.of(b))); lemma_down(c, f, q, a, b); }
  }
}
pub proof fn lemma_up(c: PermissionsCtxt<'_>, f: Sccs<Origin, SccIdx>, p: Seq<Origin>, a: Origin, b: Origin)
  requires path(&(Known { c }), p, a, b), forall|a: Origin, b: Origin| #![trigger f.of(a), f.of(b)] f.of(a) == f.of(b) <==> (Into { c }).same(a, b)
  ensures reach(&Declared { c, f }, f.of(a), f.of(b)) decreases p.len()
{
  let d = Declared { c, f }; let k = Known { c };
  if p.len() == 1 { assert(path(&d, seq![f.of(a)], f.of(a), f.of(b))); }
  else {
    let y = p[1]; let q = p.drop_first(); lemma_tail(&k, p, a, b);
    assert(path(&k, q, y, b)); lemma_up(c, f, q, y, b);
    if c.declared(a, y) { assert(d.by(a, y, f.of(a), f.of(y))); lemma_one(&d, f.of(a), f.of(y)); lemma_trans(&d, f.of(a), f.of(y), f.of(b)); }
    else { assert((Into { c }).same(a, y)); assert(f.of(a) == f.of(y)); }
  }
}
/// a source of the kind may reach o
pub open spec fn carries(c: PermissionsCtxt<'_>, p: spec_fn(Origin) -> bool, o: Origin) -> bool { exists|s: Origin| #[trigger] p(s) && reach(&Into { c }, s, o) }
pub open spec fn is_named(c: PermissionsCtxt<'_>, o: Origin) -> bool { exists|n: Origin| #[trigger] c.named(n) && (Into { c }).same(n, o) }
/// a caller-named region that may reach `from` is not declared to flow into one that may reach `to`
pub open spec fn undeclared(c: PermissionsCtxt<'_>, from: Origin, to: Origin) -> bool {
  exists|a: Origin, b: Origin| #[trigger] c.named(a) && #[trigger] c.named(b) && reach(&Into { c }, a, from) && reach(&Into { c }, b, to) && !reach(&Known { c }, a, b)
}
/// a borrow that dies at exit, made in the region of a borrow of a local, may reach `from`
pub open spec fn dying(c: PermissionsCtxt<'_>, from: Origin) -> bool {
  exists|l: Origin, d: Origin| #[trigger] c.local(l) && #[trigger] c.dangling(d) && (Into { c }).same(d, l) && reach(&Into { c }, l, from)
}
/// the property, in terms of the borrow checker's facts alone
pub open spec fn verdict(c: PermissionsCtxt<'_>, from: Origin, to: Origin) -> FlowEdgeKind {
  if (Into { c }).same(from, to) { FlowEdgeKind::Ok }
  else if carries(c, |o: Origin| c.local(o), from) && is_named(c, to) { FlowEdgeKind::LocalOutlivesUniversal }
  else if undeclared(c, from, to) { FlowEdgeKind::MissingUniversalConstraint }
  else if dying(c, from) { FlowEdgeKind::LocalInvalidatedAtExit }
  else { FlowEdgeKind::Ok }
}
/// what flow_kind answers (unit kinds) from the flows that compute_flows stores
pub proof fn lemma_verdict(r: RegionFlows, c: PermissionsCtxt<'_>, from: Origin, to: Origin)
  requires r.of(c) ensures r.kind(from, to) == verdict(c, from, to)
{
  let f = r.constraint_graph; let g = Into { c }; let d = Declared { c, f };
  let named = |o: Origin| c.named(o); let local = |o: Origin| c.local(o); let dang = |o: Origin| c.dangling(o);
  assert(f.of(from) == f.of(to) <==> g.same(from, to));
  assert(r.local_outlives(from, to) <==> carries(c, local, from) && is_named(c, to)) by {
    if exists|l: SccIdx| r.contains_local.rel(r.at(from), l) { let l = choose|l: SccIdx| r.contains_local.rel(r.at(from), l); let s = choose|s: Origin| #[trigger] local(s) && l == f.of(s); assert(reach(&f, f.of(s), f.of(from))); assert(carries(c, local, from)); }
    if carries(c, local, from) { let s = choose|s: Origin| #[trigger] local(s) && reach(&g, s, from); assert(holds(f, local, f.of(s))); assert(reach(&f, f.of(s), f.of(from))); assert(r.contains_local.rel(r.at(from), f.of(s))); }
    if r.abstract_sources.has(r.at(to)) { let n = choose|n: Origin| #[trigger] named(n) && r.at(to) == f.of(n); assert(c.named(n)); assert(f.of(n) == f.of(to)); assert(is_named(c, to)); }
    if is_named(c, to) { let n = choose|n: Origin| #[trigger] c.named(n) && g.same(n, to); assert(named(n)); assert(f.of(n) == f.of(to)); }
  }
  assert(r.missing(from, to) <==> undeclared(c, from, to)) by {
    if r.missing(from, to) {
      let (x, y) = choose|x: SccIdx, y: SccIdx| #[trigger] r.contains_abstract.rel(r.at(from), x) && #[trigger] r.contains_abstract.rel(r.at(to), y) && !r.specified_flows.rel(y, x);
      let a = choose|a: Origin| #[trigger] named(a) && x == f.of(a); let b = choose|b: Origin| #[trigger] named(b) && y == f.of(b);
      assert(c.named(a) && c.named(b)); assert(reach(&f, f.of(a), f.of(from)) && reach(&f, f.of(b), f.of(to)));
      if reach(&Known { c }, a, b) { let p = choose|p: Seq<Origin>| path(&Known { c }, p, a, b); lemma_up(c, f, p, a, b); assert(reach(&d, x, y)); }
    }
    if undeclared(c, from, to) {
      let (a, b) = choose|a: Origin, b: Origin| #[trigger] c.named(a) && #[trigger] c.named(b) && reach(&g, a, from) && reach(&g, b, to) && !reach(&Known { c }, a, b);
      assert(named(a) && named(b)); assert(holds(f, named, f.of(a)) && holds(f, named, f.of(b))); assert(reach(&f, f.of(a), f.of(from)) && reach(&f, f.of(b), f.of(to)));
      assert(r.contains_abstract.rel(r.at(from), f.of(a)) && r.contains_abstract.rel(r.at(to), f.of(b)));
      if r.specified_flows.rel(f.of(b), f.of(a)) { let p = choose|p: Seq<SccIdx>| path(&d, p, f.of(a), f.of(b)); lemma_down(c, f, p, a, b); }
    }
  }
  assert(r.dangles(from) <==> dying(c, from)) by {
    if r.dangles(from) {
      let x = choose|x: SccIdx| #[trigger] r.contains_local.rel(r.at(from), x) && r.dangling_local_sources.has(x);
      let l = choose|l: Origin| #[trigger] local(l) && x == f.of(l); let e = choose|e: Origin| #[trigger] dang(e) && x == f.of(e);
      assert(c.local(l) && c.dangling(e)); assert(f.of(e) == f.of(l)); assert(reach(&f, f.of(l), f.of(from)));
    }
    if dying(c, from) {
      let (l, e) = choose|l: Origin, e: Origin| #[trigger] c.local(l) && #[trigger] c.dangling(e) && g.same(e, l) && reach(&g, l, from);
      assert(local(l) && dang(e)); assert(f.of(e) == f.of(l)); assert(holds(f, local, f.of(l)) && holds(f, dang, f.of(l))); assert(reach(&f, f.of(l), f.of(from)));
      assert(r.contains_local.rel(r.at(from), f.of(l)) && r.dangling_local_sources.has(f.of(l)));
    }
  }
}
"""

LOG = (r"log::\w+!\((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*\);", "", "logging dropped")


def build(ctx, kinds):
    """`kinds`: the contract of flow_kind, as unit kinds proves it"""
    u = ctx.unit("sources")
    u.raw(STUBS, stubs=("flow_from_sources",))
    u.item(X, "struct", "PermissionsCtxt")
    u.item(F, "enum", "FlowEdgeKind")
    u.item(F, "struct", "RegionFlows")
    u.raw(kinds + SPECS + TWIN + VERDICT)
    u.impl(X, "PermissionsCtxt", None, {"loan_to_borrow": dict(ret="r", spec="ensures *r == self.borrow_set.borrow(l)")})
    u.fn(F, "flatten_tuples", ret="r", spec="ensures forall|x: T| #[trigger] r.s().contains(x) <==> side(tups@, x)",
         subst=iters.SUBST + [(r"impl Iterator<Item = T> \+ '_", "It<T>", "the iterator as what it yields"),
             (r"(?s)(tups\.vp_iter\(\)\.flat_map\(.*\))\.unique\(\)", r"let vp_f = \1; proof { assert forall|i: int| 0 <= i < tups@.len() implies #[trigger] vp_f.parts()[i] == seq![tups@[i].0, tups@[i].1] by { assert(vp_refs(tups@)[i] == &tups@[i]); } lemma_sides(tups@, vp_f.parts()); } vp_f.unique()", "part of the chain named for the proof")],
         closures=[dict(types=["&(T, T)"], ret="b: [T; 2]", spec="ensures b@ == seq![vp_c0.0, vp_c0.1]")])
    u.fn(F, "count_nodes", ret="r", spec="requires forall|i: int| 0 <= i < tups@.len() ==> (#[trigger] tups@[i]).0.num() <= 0xffff_ff00 && tups@[i].1.num() <= 0xffff_ff00,\n  ensures forall|i: int| 0 <= i < tups@.len() ==> (#[trigger] tups@[i]).0.num() < r && tups@[i].1.num() < r",
         subst=[(r"(?s)(flatten_tuples\(tups\))(\s*\.minmax_by_key\(.*\))(\s*\.map_or\()", r"""let vp_f = \1; let ghost ns = vp_f.s(); let vp_m = vp_f\2;
  proof {
    assert forall|i: int| 0 <= i < tups@.len() implies vp_m is Some && (#[trigger] tups@[i]).0.num() <= vp_m->Some_0.1.num() && tups@[i].1.num() <= vp_m->Some_0.1.num() by {
      assert(side(tups@, tups@[i].0) && side(tups@, tups@[i].1)); assert(ns.contains(tups@[i].0) && ns.contains(tups@[i].1));
      let j = choose|j: int| 0 <= j < ns.len() && ns[j] == tups@[i].0; let k = choose|k: int| 0 <= k < ns.len() && ns[k] == tups@[i].1; }
    if vp_m is Some { assert(side(tups@, vp_m->Some_0.1)); }
  }
  vp_m\3""", "parts of the chain named for the proof")],
         closures=[dict(types=["&T"], ret="k: usize", spec="ensures k == v.num()"), dict(types=["(T, T)"], ret="k: usize", spec="requires vp_c0.1.num() <= 0xffff_ff00 ensures k == vp_c0.1.num() + 1")])
    u.fn(F, "check_for_invalidation_at_exit", ret="r", spec="ensures r == ctxt.dies(*borrow)",
         subst=[LOG, (r"\n *use rustc_middle::mir::\{PlaceRef, ProjectionElem\};", "", "import dropped")],
         tail="proof { assert(seq![ProjectionElem::Deref] =~= root_place.projection@ || Seq::<ProjectionElem>::empty() =~= root_place.projection@); }")
    u.fn(F, "compute_flows", spec="requires old(ctxt).numbered()\n  ensures final(ctxt).region_flows is Some, final(ctxt).region_flows->Some_0.of(*old(ctxt))",
         subst=[LOG, (r"(?s)log::info!\(\n.*?\n  \);", "", "logging dropped")] + iters.SUBST + [
             (r"for \(_, loans\) in ((?:it:  )?)ctxt\.polonius_output\.errors\.vp_iter\(\)(?=\s+(?:\{|invariant))", r"let vp_h = ctxt.polonius_output.errors.vp_iter().vp_vec(); let ghost errs = vp_h@;\n  for (_, loans) in \1vp_h", "the loop over what the iterator yields"),
             (r"(ctxt\.borrow_set\.location_map\(\)|\bloans|(?<=in )placeholders|(?<=  )placeholders)\.vp_iter\(\)((?:\.\w+\([^()]*\))*)(?=\s+(?:\{|invariant))", r"\1.vp_iter()\2.vp_vec()", "the loop over what the iterator yields"),
             (r"flow_from_sources\((placeholders\.vp_iter\(\)\.copied\(\)), (&\w+)\)", r"{ let vp_k = \1; proof { assert(vp_k.s() =~= ps); } flow_from_sources(vp_k, \2) }", "part of the chain named for the proof"),
             (r"(?s)let placeholders = (.*?)\n    \.chain\(\n(.*?)(\n *\.map\([^\n]*\)),\n    \)\n(    \.map\(.*?\))\n    \.collect::<Vec<_>>\(\);", r"""let vp_a = \1;
  let vp_r = \2;
  let ghost keep = vp_r.kept(); let ghost bs = vp_r.s();
  proof { lemma_pick(returned(c.body()), keep); assert forall|i: int| 0 <= i < keep.len() implies #[trigger] keep[i] == returned(c.body())[i].var by { let x = returned(c.body())[i]; }
    assert forall|i: int| 0 <= i < bs.len() implies (#[trigger] bs[i]).var by { assert(bs.contains(bs[i])); } }
  let vp_b = vp_r\3;
  let ghost opts = vp_a.opts(); let ghost rs = vp_b.s();
  proof {
    assert forall|i: int| 0 <= i < opts.len() implies #[trigger] opts[i] == (if c.constrained(c.inp().placeholder@[i].0) { Some(c.inp().placeholder@[i].0) } else { None }) by { assert(vp_refs(c.inp().placeholder@)[i] == &c.inp().placeholder@[i]); }
    assert forall|i: int| 0 <= i < rs.len() implies #[trigger] rs[i] == origin(bs[i].v) by { let x = bs[i]; }
    lemma_named(c, opts, keep, bs, rs);
  }
  let vp_c = vp_a.chain(vp_b); let ghost os = vp_c.s();
  proof { assert(os == vp_somes(opts) + rs); assert forall|i: int| 0 <= i < os.len() implies (#[trigger] os[i]).num() < scc_constraints.nodes() by { assert(os.contains(os[i])); assert(c.named(os[i]));
    if !c.constrained(os[i]) { let j = choose|j: int| 0 <= j < returned(c.body()).len() && (#[trigger] returned(c.body())[j]).var && os[i] == origin(returned(c.body())[j].v); assert(c.size(scc_constraints.nodes())); } } }
  let placeholders = vp_c
\4
    .collect::<Vec<_>>();
  proof { assert forall|i: int| 0 <= i < placeholders@.len() implies #[trigger] placeholders@[i] == scc_constraints.of(os[i]) by { let x = os[i]; } lemma_comps(c, scc_constraints, os, placeholders@); }
  let ghost ps = placeholders@;
""", "parts of the chain named for the proof"),
             (r"(?s)let placeholder_edges = (.*?)\n(    \.map\(.*?\))\n    \.chain\((.*?)\)\n    \.collect::<Vec<_>>\(\);", r"""let vp_d = \1;
  let ghost kept = vp_d.kept(); let ghost known = c.inp().known_placeholder_subset@; let ghost ks = vp_d.s();
  proof {
    assert forall|i: int| 0 <= i < kept.len() implies #[trigger] kept[i] == (c.constrained(known[i].0) && c.constrained(known[i].1)) by { assert(vp_refs(known)[i] == &known[i]); }
    lemma_pick(vp_refs(known), kept);
    assert forall|i: int| 0 <= i < ks.len() implies (#[trigger] ks[i]).0.num() < scc_constraints.nodes() && ks[i].1.num() < scc_constraints.nodes() by {
      assert(ks.contains(ks[i])); let j = choose|j: int| 0 <= j < known.len() && kept[j] && #[trigger] vp_refs(known)[j] == ks[i]; assert(*ks[i] == known[j]); assert(c.constrained(known[j].0) && c.constrained(known[j].1)); }
  }
  let vp_e = vp_d
\2;
  let ghost es = vp_e.s();
  let vp_l = \3;
  let ghost ls = vp_l.s();
  proof {
    assert forall|i: int| 0 <= i < es.len() implies #[trigger] es[i] == (scc_constraints.of(ks[i].0), scc_constraints.of(ks[i].1)) by { let x = ks[i]; }
    assert forall|i: int| 0 <= i < ls.len() implies #[trigger] ls[i] == (ps[i], ps[i]) by { assert(vp_refs(ps)[i] == &ps[i]); }
    lemma_edges(c, scc_constraints, kept, es, ps, ls);
  }
  let placeholder_edges = vp_e.chain(vp_l)
    .collect::<Vec<_>>();
  let ghost pes = placeholder_edges@;
  proof { assert(pes == es + ls); assert forall|i: int| 0 <= i < pes.len() implies (#[trigger] pes[i]).0.num() < num_sccs && pes[i].1.num() < num_sccs by {
    if i < es.len() { assert(pes[i] == es[i]); let k = ks[i]; } else { assert(pes[i] == ls[i - es.len()]); let k = ps[i - es.len()]; let o = os[i - es.len()]; } } }
""", "parts of the chain named for the proof"),
         ],
         start="let ghost c = *ctxt; let ghost gi = Into { c };",
         at=[(r"\.map\(\|&\(o1, o2, _\)\| \(o1, o2\)\)\s*\.collect::<Vec<_>>\(\);", "after", "let ghost cs = constraints@; proof { assert(pairs(c, cs)) by { assert forall|i: int| 0 <= i < cs.len() implies #[trigger] cs[i] == (c.inp().subset_base@[i].0, c.inp().subset_base@[i].1) by { assert(vp_refs(c.inp().subset_base@)[i] == &c.inp().subset_base@[i]); } } lemma_pairs(c, cs); }"),
             (r"let vertices = .*;", "after", "proof { assert forall|x: Origin| #[trigger] vertices@.contains(x) <==> c.constrained(x) by {} }"),
             (r"let num_sccs = .*;", "after", """proof {
    assert(c.size(scc_constraints.nodes())) by { assert forall|i: int| 0 <= i < c.inp().subset_base@.len() implies (#[trigger] c.inp().subset_base@[i]).0.num() < scc_constraints.nodes() && c.inp().subset_base@[i].1.num() < scc_constraints.nodes() by { let x = cs[i]; } }
    assert forall|a: Origin, b: Origin| reach(&constraint_graph, a, b) <==> reach(&gi, a, b) by { lemma_twin(&constraint_graph, &gi, a, b); }
    assert forall|x: Origin| #[trigger] c.constrained(x) implies x.num() < scc_constraints.nodes() by { let i = choose|i: int| 0 <= i < cs.len() && (x == (#[trigger] cs[i]).0 || x == cs[i].1); }
  }"""),
             (r"ctxt\.region_flows = Some", "before", """proof {
    let f = scc_constraints; let r = region_flows; let named = |o: Origin| c.named(o); let local = |o: Origin| c.local(o); let d = Declared { c, f };
    assert forall|a: Origin, b: Origin| #![trigger f.of(a), f.of(b)] (f.of(a) == f.of(b) <==> gi.same(a, b)) && (reach(&f, f.of(a), f.of(b)) <==> reach(&gi, a, b)) by {}
    assert forall|x: SccIdx| #[trigger] r.abstract_sources.has(x) <==> holds(f, named, x) by { assert(ps.contains(x) <==> holds(f, named, x)); }
    assert forall|x: SccIdx| #[trigger] r.dangling_local_sources.has(x) <==> holds(f, |o: Origin| c.dangling(o), x) by { lemma_bad(c, f, errs, x); }
    assert forall|x: SccIdx, y: SccIdx| #[trigger] r.contains_abstract.rel(x, y) <==> holds(f, named, y) && reach(&f, y, x) by { assert(ps.contains(y) <==> holds(f, named, y)); }
    assert forall|x: SccIdx, y: SccIdx| #[trigger] r.contains_local.rel(x, y) <==> holds(f, local, y) && reach(&f, y, x) by { lemma_direct(c, f, y); assert(local_sources.has(y) <==> holds(f, local, y)); }
    assert forall|x: SccIdx, y: SccIdx| #[trigger] r.specified_flows.rel(x, y) <==> holds(f, named, y) && reach(&d, y, x) by { assert(ps.contains(y) <==> holds(f, named, y));
      assert forall|a: SccIdx, b: SccIdx| #[trigger] specified_flows_graph.step(a, b) <==> d.step(a, b) by { assert((es + ls).contains((a, b)) <==> d.step(a, b)); }
      lemma_twin(&specified_flows_graph, &d, y, x); }
  }
"""),
         ],
         loops=[dict(kind="for", iter="it", inv="""invariant *ctxt == c, c.numbered(), c.size(scc_constraints.nodes()), num_sccs == scc_constraints.count(), forall|a: Origin| a.num() < scc_constraints.nodes() ==> (#[trigger] scc_constraints.of(a)).num() < scc_constraints.count(),
        it.seq().len() == c.borrow_set.list().len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).1 == c.borrow_set.list()[i].1,
        local_sources.size() == num_sccs, forall|x: SccIdx| #[trigger] local_sources.has(x) <==> direct(c, scc_constraints, it.index@, x),
    """, start="let ghost k = it.index@; let ghost was = local_sources; assert(it.seq()[k].1 == bd); proof { let y = c.borrow_set.list()[k]; }",
                     end="proof { assert forall|x: SccIdx| #[trigger] local_sources.has(x) <==> direct(c, scc_constraints, k + 1, x) by { assert(was.has(x) <==> direct(c, scc_constraints, k, x)); let y = c.borrow_set.list()[k]; if direct(c, scc_constraints, k, x) {} } }"),
                dict(kind="for", iter="it", inv="""invariant *ctxt == c, c.numbered(), c.size(scc_constraints.nodes()), num_sccs == scc_constraints.count(), forall|a: Origin| a.num() < scc_constraints.nodes() ==> (#[trigger] scc_constraints.of(a)).num() < scc_constraints.count(),
        forall|i: int| 0 <= i < it.seq().len() ==> c.polonius_output.errors@.contains_key(*(#[trigger] it.seq()[i]).0) && *it.seq()[i].1 == c.polonius_output.errors@[*it.seq()[i].0],
        it.seq() == errs, dangling_local_sources.size() == num_sccs, forall|x: SccIdx| #[trigger] dangling_local_sources.has(x) <==> bad_upto(c, scc_constraints, errs, it.index@, x),
    """, start="let ghost k = it.index@; let ghost was = dangling_local_sources; assert(errs[k].1 == loans);",
                     end="proof { assert forall|x: SccIdx| #[trigger] dangling_local_sources.has(x) <==> bad_upto(c, scc_constraints, errs, k + 1, x) by { let y = errs[k]; if bad_upto(c, scc_constraints, errs, k, x) {} } }"),
                dict(kind="for", iter="jt", inv="""invariant *ctxt == c, c.numbered(), c.size(scc_constraints.nodes()), num_sccs == scc_constraints.count(), forall|a: Origin| a.num() < scc_constraints.nodes() ==> (#[trigger] scc_constraints.of(a)).num() < scc_constraints.count(),
        c.polonius_output.errors@.contains_key(*errs[k].0), *errs[k].1 == c.polonius_output.errors@[*errs[k].0], *loans == *errs[k].1, jt.seq() == vp_refs(loans@),
        dangling_local_sources.size() == num_sccs, forall|x: SccIdx| #[trigger] dangling_local_sources.has(x) <==> bad_upto(c, scc_constraints, errs, k, x) || bad_in(c, scc_constraints, loans@, jt.index@, x),
    """, start="let ghost m = jt.index@; let ghost was2 = dangling_local_sources; assert(jt.seq()[m] == vp_refs(loans@)[m]); assert(loan == loans@[m]); proof { assert(c.polonius_output.errors@[*errs[k].0]@.contains(loan)); assert(c.wrong(loan)); }",
                     end="proof { assert forall|x: SccIdx| #[trigger] dangling_local_sources.has(x) <==> bad_upto(c, scc_constraints, errs, k, x) || bad_in(c, scc_constraints, loans@, m + 1, x) by { let y = loans@[m]; if bad_in(c, scc_constraints, loans@, m, x) {} } }"),
                dict(kind="for", iter="it", inv="""invariant it.seq() == vp_refs(ps), num_sccs == scc_constraints.count(), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).num() < num_sccs,
        abstract_sources.size() == num_sccs, forall|x: SccIdx| #[trigger] abstract_sources.has(x) <==> exists|i: int| 0 <= i < it.index@ && #[trigger] ps[i] == x,
    """, start="let ghost k = it.index@; assert(it.seq()[k] == vp_refs(ps)[k]); assert(*scc == ps[k]);")],
         closures=[
             dict(types=["&(Origin, Origin, Point)"], ret="e: (Origin, Origin)", spec="ensures e == (vp_c0.0, vp_c0.1)"),
             dict(types=["&(Origin, Loan)"], ret="e: Option<Origin>", spec="ensures e == if vertices@.contains(vp_c0.0) { Some(vp_c0.0) } else { None }"),
             dict(types=["&Region"], ret="e: bool", spec="ensures e == rg.var"),
             dict(types=["Region"], ret="e: Origin", spec="requires rg.var ensures e == origin(rg.v)"),
             dict(types=["Origin"], ret="e: SccIdx", spec="requires p.num() < scc_constraints.nodes() ensures e == scc_constraints.of(p)"),
             dict(types=["&&(Origin, Origin)"], ret="e: bool", spec="ensures e == (vertices@.contains((*vp_c0).0) && vertices@.contains((*vp_c0).1))"),
             dict(types=["&(Origin, Origin)"], ret="e: (SccIdx, SccIdx)", spec="requires vp_c0.0.num() < scc_constraints.nodes(), vp_c0.1.num() < scc_constraints.nodes() ensures e == (scc_constraints.of(vp_c0.0), scc_constraints.of(vp_c0.1))"),
             dict(types=["&SccIdx"], ret="e: (SccIdx, SccIdx)", spec="ensures e == (*vp_c0, *vp_c0)")])
    u.helpers()
    u.raw("} fn main() {}")
    return u
