"""The datalog rules of `derive_permission_facts`, by contract: each recorded fact holds exactly where its rule says."""
import re

import iters
import rsx

F = "crates/aquascope/src/analysis/permissions/context.rs"
O = "crates/aquascope/src/analysis/permissions/output.rs"

STUBS = r"""
use vstd::std_specs::core::*;
verus! {
global size_of usize == 8;
""" + iters.STUBS + r"""
impl<'a, T> IntoIt for &'a [T] { type Item = &'a T; open spec fn seq(&self) -> Seq<&'a T> { vp_refs(self@) } #[verifier::external_body] fn vp_into(self) -> It<&'a T> { unimplemented!() } }
macro_rules! plain { ($($n:ident)*) => { verus! { $(
  #[derive(Copy, Clone)] pub struct $n { pub x: u32 }
  impl PartialEqSpecImpl for $n { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &$n) -> bool { *self == *o } }
  impl PartialEq for $n { #[verifier::external_body] fn eq(&self, o: &$n) -> bool { unimplemented!() } }
)* } } }
plain! { Point Local Path MoveablePath Loan Move Origin DefId LocalDefId BodyId Variable }
pub type PathIndex = Path;
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum Mutability { Not, Mut }
#[derive(Copy, Clone, PartialEq, Eq, Structural)] pub enum PlaceConflictBias { Overlap, NoOverlap }
#[derive(Copy, Clone)] pub struct Location { pub x: u64 }
#[verifier::external_body] #[derive(Copy, Clone)] pub struct TyCtxt<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
#[verifier::external_body] #[derive(Copy, Clone)] pub struct TypingEnv<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
#[derive(Copy, Clone)] pub struct Hir { pub x: u64 }
pub uninterp spec fn owner(b: BodyId) -> LocalDefId;
impl<'tcx> TyCtxt<'tcx> { #[verifier::external_body] pub fn hir(&self) -> Hir { unimplemented!() } }
pub uninterp spec fn callable(d: LocalDefId) -> bool;
pub uninterp spec fn global_id(d: LocalDefId) -> DefId;
#[derive(Copy, Clone)] pub struct OwnerKind { pub d: LocalDefId }
impl OwnerKind { #[verifier::external_body] pub fn is_fn_or_closure(&self) -> (r: bool) ensures r == callable(self.d) { unimplemented!() } }
#[derive(Copy, Clone)] pub struct HirId { pub x: u64 }
#[derive(Copy, Clone)] pub struct Symbol { pub x: u32 }
impl Symbol { #[verifier::external_body] pub fn to_ident_string(self) -> String { unimplemented!() } }
#[verifier::external_body] pub fn vp_owned(s: &str) -> String { unimplemented!() }
#[verifier::external_body] pub fn vp_flag() -> bool { unimplemented!() }
pub struct Instant { pub x: u64 }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } }
impl DefId { #[verifier::external_body] pub fn as_local(self) -> (r: Option<LocalDefId>) { unimplemented!() } }
pub enum Algorithm { Naive, DatafrogOpt, LocationInsensitive }
/// the borrow checker's analysis, without shortcuts, of its input
pub uninterp spec fn solution(f: AllFacts<RustcFacts>) -> PEOutput<RustcFacts>;
impl PEOutput<RustcFacts> { #[verifier::external_body] pub fn compute(f: &AllFacts<RustcFacts>, a: Algorithm, dump: bool) -> (r: Self) ensures a is Naive && dump ==> r == solution(*f) { unimplemented!() } }
pub uninterp spec fn all_moves<'tcx>(b: Body<'tcx>, t: TyCtxt<'tcx>) -> MoveData<'tcx>;
pub uninterp spec fn all_borrows<'tcx>(t: TyCtxt<'tcx>, b: Body<'tcx>, exit: bool, m: MoveData<'tcx>) -> BorrowSet<'tcx>;
impl<'tcx> MoveData<'tcx> { #[verifier::external_body] pub fn gather_moves<F: Fn(Ty<'tcx>) -> bool>(b: &Body<'tcx>, t: TyCtxt<'tcx>, f: F) -> (r: Self)
  requires forall|y: Ty<'tcx>| #[trigger] call_requires(f, (y,)), ensures (forall|y: Ty<'tcx>, k: bool| #[trigger] call_ensures(f, (y,), k) ==> k) ==> r == all_moves(*b, t) { unimplemented!() } }
impl<'tcx> BorrowSet<'tcx> { #[verifier::external_body] pub fn build(t: TyCtxt<'tcx>, b: &Body<'tcx>, exit: bool, m: &MoveData<'tcx>) -> (r: Self) ensures r == all_borrows(t, *b, exit, *m) { unimplemented!() } }
impl<'tcx> TypingEnv<'tcx> { #[verifier::external_body] pub fn post_analysis(t: TyCtxt<'tcx>, d: DefId) -> Self { unimplemented!() } }
impl<I, T> IndexVec<I, T> { #[verifier::external_body] pub fn new() -> (r: Self) ensures forall|i: I| !#[trigger] r.has(i) { unimplemented!() } }
impl Hir {
  pub open spec fn callable(&self, d: LocalDefId) -> bool { callable(d) }
  #[verifier::external_body] pub fn body_owner_kind(&self, d: LocalDefId) -> (r: OwnerKind) ensures r.d == d { unimplemented!() }
  #[verifier::external_body] pub fn body_owner(&self, b: BodyId) -> HirId { unimplemented!() }
  #[verifier::external_body] pub fn opt_name(&self, h: HirId) -> Option<Symbol> { unimplemented!() }
  #[verifier::external_body] pub fn body_owner_def_id(&self, b: BodyId) -> (r: LocalDefId) ensures r == owner(b) { unimplemented!() } }
impl LocalDefId { #[verifier::external_body] pub fn to_def_id(self) -> (r: DefId) ensures r == global_id(self) { unimplemented!() } }
#[verifier::external_body] #[derive(Copy, Clone)] pub struct Ty<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
impl<'tcx> Ty<'tcx> { pub uninterp spec fn reference(&self) -> Option<Mutability>;
  #[verifier::external_body] pub fn ref_mutability(&self) -> (r: Option<Mutability>) ensures r == self.reference() { unimplemented!() } }
pub struct PlaceTy<'tcx> { pub ty: Ty<'tcx> }
#[derive(Copy, Clone)] pub enum ProjectionElem { Deref, Other(u64) }
#[verifier::external_body] pub struct PlaceElems<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
impl<'tcx> View for PlaceElems<'tcx> { type V = Seq<ProjectionElem>; uninterp spec fn view(&self) -> Seq<ProjectionElem>; }
#[derive(Copy, Clone)] pub struct Place<'tcx> { pub local: Local, pub projection: &'tcx PlaceElems<'tcx> }
impl<'tcx> PartialEqSpecImpl for Place<'tcx> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Place<'tcx>) -> bool { *self == *o } }
impl<'tcx> PartialEq for Place<'tcx> { #[verifier::external_body] fn eq(&self, o: &Place<'tcx>) -> bool { unimplemented!() } }
#[verifier::external] impl<'tcx> std::fmt::Debug for Place<'tcx> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
#[derive(Copy, Clone)] pub struct PlaceRef<'tcx> { pub local: Local, pub projection: &'tcx [ProjectionElem] }
impl<'tcx> PlaceRef<'tcx> {
  pub open spec fn indirect(&self) -> bool { exists|i: int| 0 <= i < self.projection@.len() && (#[trigger] self.projection@[i]) is Deref }
  #[verifier::external_body] pub fn is_indirect(&self) -> (r: bool) ensures r == self.indirect() { unimplemented!() }
}
pub uninterp spec fn type_of<'tcx>(b: Body<'tcx>, l: Local, proj: Seq<ProjectionElem>) -> Ty<'tcx>;
pub uninterp spec fn normal<'tcx>(t: TyCtxt<'tcx>, d: DefId, p: Place<'tcx>) -> Place<'tcx>;
/// the places whose values lie inside a place's value, without crossing a pointer
pub uninterp spec fn interior<'tcx>(b: Body<'tcx>, p: Place<'tcx>) -> Set<Place<'tcx>>;
/// two places whose memory may overlap
pub uninterp spec fn clash<'tcx>(b: Body<'tcx>, p: Place<'tcx>, q: Place<'tcx>) -> bool;
#[verifier::external_body]
pub fn places_conflict<'tcx>(t: TyCtxt<'tcx>, b: &Body<'tcx>, p: Place<'tcx>, q: Place<'tcx>, bias: PlaceConflictBias) -> (r: bool) ensures bias == PlaceConflictBias::Overlap ==> r == clash(*b, p, q) { unimplemented!() }
impl<'tcx> Place<'tcx> {
  pub open spec fn indirect(&self) -> bool { exists|i: int| 0 <= i < self.projection@.len() && (#[trigger] self.projection@[i]) is Deref }
  pub open spec fn indirect_within(&self, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] self.projection@[i]) is Deref }
  #[verifier::external_body] pub fn is_indirect(&self) -> (r: bool) ensures r == self.indirect() { unimplemented!() }
  #[verifier::external_body]
  pub fn iter_projections(self) -> (r: It<(PlaceRef<'tcx>, ProjectionElem)>)
    ensures r.s().len() == self.projection@.len(),
      forall|i: int| #![trigger r.s()[i]] #![trigger self.projection@[i]] 0 <= i < r.s().len() ==> r.s()[i].1 == self.projection@[i] && r.s()[i].0.local == self.local && r.s()[i].0.projection@ == self.projection@.take(i) { unimplemented!() }
  #[verifier::external_body] pub fn normalize(&self, t: TyCtxt<'tcx>, d: DefId) -> (r: Place<'tcx>) ensures r == normal(t, d, *self) { unimplemented!() }
  #[verifier::external_body] pub fn from_local(l: Local, t: TyCtxt<'tcx>) -> (r: Place<'tcx>) ensures r.local == l, r.projection@.len() == 0 { unimplemented!() }
  #[verifier::external_body] pub fn interior_paths(&self, t: TyCtxt<'tcx>, b: &Body<'tcx>, d: DefId) -> (r: Vec<Place<'tcx>>) ensures r@.to_set() == interior(*b, *self) { unimplemented!() }
}
impl<'tcx> PlaceRef<'tcx> {
  #[verifier::external_body] pub fn ty(&self, b: &LocalDecls<'tcx>, t: TyCtxt<'tcx>) -> (r: PlaceTy<'tcx>) ensures r.ty == type_of(b.body(), self.local, self.projection@) { unimplemented!() }
}
#[verifier::external_body] pub struct LocalDecls<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
pub struct LocalDecl { pub mutability: Mutability }
impl<'tcx> LocalDecls<'tcx> { pub uninterp spec fn body(&self) -> Body<'tcx>; pub uninterp spec fn decl(&self, l: Local) -> LocalDecl; }
impl<'tcx> IndexSpecImpl<Local> for LocalDecls<'tcx> { open spec fn index_req(&self, i: &Local) -> bool { true } }
impl<'tcx> std::ops::Index<Local> for LocalDecls<'tcx> { type Output = LocalDecl;
  #[verifier::external_body] fn index(&self, l: Local) -> (o: &LocalDecl) ensures *o == self.decl(l) { unimplemented!() } }
pub struct Body<'tcx> { pub local_decls: LocalDecls<'tcx>, pub span: u64 }
pub uninterp spec fn places_of<'tcx>(b: Body<'tcx>) -> Set<Place<'tcx>>;
impl<'tcx> Body<'tcx> {
  #[verifier::external_body] pub fn all_places(&self, t: TyCtxt<'tcx>, d: DefId) -> (r: It<Place<'tcx>>) ensures r.s().to_set() == places_of(*self) { unimplemented!() }
}
pub struct LocationTable { pub x: u64 }
impl LocationTable { pub uninterp spec fn first(&self, l: Location) -> Point; #[verifier::external_body] pub fn start_index(&self, l: Location) -> (r: Point) ensures r == self.first(l) { unimplemented!() } }
pub struct BodyWithBorrowckFacts<'tcx> { pub input_facts: Option<Box<AllFacts<RustcFacts>>>, pub body: Body<'tcx>, pub location_table: Option<LocationTable> }
pub struct RustcFacts {}
#[verifier::reject_recursive_types(T)]
pub struct AllFacts<T> { pub cfg_edge: Vec<(Point, Point)>, pub child_path: Vec<(MoveablePath, MoveablePath)>, pub path_assigned_at_base: Vec<(MoveablePath, Point)>, pub path_moved_at_base: Vec<(MoveablePath, Point)>, pub path_accessed_at_base: Vec<(MoveablePath, Point)>, pub loan_issued_at: Vec<(Origin, Loan, Point)>, pub loan_killed_at: Vec<(Loan, Point)>, pub loan_invalidated_at: Vec<(Point, Loan)>, pub vp_p: core::marker::PhantomData<T> }
#[verifier::reject_recursive_types(T)]
pub struct PEOutput<T> { pub path_maybe_uninitialized_on_exit: HashMap<Point, Vec<MoveablePath>>, pub loan_live_at: HashMap<Point, Vec<Loan>>, pub var_live_on_entry: HashMap<Point, Vec<Variable>>, pub vp_p: core::marker::PhantomData<T> }
pub enum BorrowKind { Shared, Fake(u8), Mut { kind: u8 } }
#[verifier::external_body] pub struct BorrowData<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
impl<'tcx> BorrowData<'tcx> {
  pub uninterp spec fn k(&self) -> BorrowKind;
  pub uninterp spec fn of(&self) -> Place<'tcx>;
  #[verifier::external_body] pub fn kind(&self) -> (r: BorrowKind) ensures r == self.k() { unimplemented!() }
  #[verifier::external_body] pub fn borrowed_place(&self) -> (r: Place<'tcx>) ensures r == self.of() { unimplemented!() }
}
#[verifier::external_body] pub struct BorrowSet<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
impl<'tcx> BorrowSet<'tcx> { pub uninterp spec fn borrow(&self, l: Loan) -> BorrowData<'tcx>; }
impl<'tcx> IndexSpecImpl<Loan> for BorrowSet<'tcx> { open spec fn index_req(&self, i: &Loan) -> bool { true } }
impl<'tcx> std::ops::Index<Loan> for BorrowSet<'tcx> { type Output = BorrowData<'tcx>;
  #[verifier::external_body] fn index(&self, l: Loan) -> (o: &BorrowData<'tcx>) ensures *o == self.borrow(l) { unimplemented!() } }
#[derive(Copy, Clone)] pub struct MoveOut { pub path: MoveablePath, pub source: Location }
pub struct MovePath<'tcx> { pub place: Place<'tcx>, pub parent: Option<MoveablePath> }
pub struct MoveData<'tcx> { pub move_paths: IndexVec<MoveablePath, MovePath<'tcx>>, pub moves: IndexVec<Move, MoveOut> }
pub struct RegionFlows { pub x: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(T)]
pub struct IndexVec<I, T> { p: core::marker::PhantomData<(I, T)> }
impl<I, T> IndexVec<I, T> {
  pub open spec fn lists(&self, x: T) -> bool { exists|i: I| #[trigger] self.has(i) && x == self.at(i) }
  pub uninterp spec fn at(&self, i: I) -> T;
  pub uninterp spec fn has(&self, i: I) -> bool;
  /// each entry once, with its index
  #[verifier::external_body] pub fn iter_enumerated(&self) -> (r: It<(I, &T)>)
    ensures forall|k: int| 0 <= k < r.s().len() ==> self.has((#[trigger] r.s()[k]).0) && *r.s()[k].1 == self.at(r.s()[k].0),
      forall|i: I| #[trigger] self.has(i) ==> exists|k: int| 0 <= k < r.s().len() && (#[trigger] r.s()[k]).0 == i { unimplemented!() }
  #[verifier::external_body] pub fn vp_iter(&self) -> (r: It<&T>)
    ensures forall|k: int| 0 <= k < r.s().len() ==> self.lists(*(#[trigger] r.s()[k])),
      forall|i: I| #[trigger] self.has(i) ==> exists|k: int| 0 <= k < r.s().len() && *(#[trigger] r.s()[k]) == self.at(i) { unimplemented!() }
  #[verifier::external_body] pub fn push(&mut self, t: T) -> (r: I)
    ensures !old(self).has(r), final(self).at(r) == t, forall|i: I| #[trigger] final(self).has(i) == (old(self).has(i) || i == r), forall|i: I| i != r ==> #[trigger] final(self).at(i) == old(self).at(i) { unimplemented!() }
}
impl<I, T> IndexSpecImpl<I> for IndexVec<I, T> { open spec fn index_req(&self, i: &I) -> bool { true } }
impl<I, T> std::ops::Index<I> for IndexVec<I, T> { type Output = T;
  #[verifier::external_body] fn index(&self, i: I) -> (o: &T) ensures *o == self.at(i) { unimplemented!() } }
impl<'tcx> MovePath<'tcx> {
  pub uninterp spec fn above(&self, v: IndexVec<MoveablePath, MovePath<'tcx>>) -> Set<MoveablePath>;
  #[verifier::external_body] pub fn parents<'a>(&self, v: &'a IndexVec<MoveablePath, MovePath<'tcx>>) -> (r: It<(MoveablePath, &'a MovePath<'tcx>)>)
    ensures forall|k: int| 0 <= k < r.s().len() ==> v.has((#[trigger] r.s()[k]).0) && self.above(*v).contains(r.s()[k].0) && *r.s()[k].1 == v.at(r.s()[k].0),
      forall|i: MoveablePath| #[trigger] self.above(*v).contains(i) ==> exists|k: int| 0 <= k < r.s().len() && (#[trigger] r.s()[k]).0 == i { unimplemented!() }
}
pub trait FactTypes { type Point; type Path; type Loan; }
#[derive(Copy, Clone)] pub struct AquascopeFacts;
impl FactTypes for AquascopeFacts { type Point = Point; type Path = Path; type Loan = Loan; }

/// hash maps and sets read as maps and sets; they list what they hold in some order, each once
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(T)] pub struct HashMap<K, T> { x: core::marker::PhantomData<(K, T)> }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] pub struct HashSet<K> { x: core::marker::PhantomData<K> }
impl<K, T> View for HashMap<K, T> { type V = Map<K, T>; uninterp spec fn view(&self) -> Map<K, T>; }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<T> FromIt<T> for HashSet<T> { open spec fn holds(&self, s: Seq<T>) -> bool { self@ == s.to_set() } }
impl<K, T> HashMap<K, T> {
  #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Map::<K, T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&T>) ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None::<&T> }) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K, v: T) -> (r: Option<T>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
  #[verifier::external_body] pub fn vp_iter(&self) -> (r: It<(&K, &T)>)
    ensures forall|i: int| 0 <= i < r.s().len() ==> self@.contains_key(*(#[trigger] r.s()[i]).0) && *r.s()[i].1 == self@[*r.s()[i].0],
      forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r.s().len() && (#[trigger] r.s()[i]) == (&k, &self@[k]) { unimplemented!() }
}
impl<K> HashSet<K> {
  #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k) { unimplemented!() }
}
pub trait Fresh: Sized { spec fn fresh(&self) -> bool; }
impl<T> Fresh for Vec<T> { open spec fn fresh(&self) -> bool { self@ == Seq::<T>::empty() } }
impl<K> Fresh for HashSet<K> { open spec fn fresh(&self) -> bool { self@ == Set::<K>::empty() } }
impl<K, T> Fresh for HashMap<K, T> { open spec fn fresh(&self) -> bool { self@ == Map::<K, T>::empty() } }
/// what a map holds at a key, put there first if need be
#[verifier::external_body] pub fn vp_slot<K, T: Fresh>(m: &mut HashMap<K, T>, k: K) -> (r: &mut T)
  ensures old(m)@.contains_key(k) ==> *r == old(m)@[k], !old(m)@.contains_key(k) ==> (*r).fresh(), final(m)@ == old(m)@.insert(k, *final(r)) { unimplemented!() }

/// datafrog: a relation is the set of its tuples, listed in some order, each once
#[verifier::reject_recursive_types(T)] pub struct Relation<T> { pub elements: Vec<T> }
impl<T> Relation<T> { pub open spec fn set(&self) -> Set<T> { self.elements@.to_set() } }
/// what joins make out of the tuples of `src`: each new tuple comes from a tuple and a value that go together, and each such pair gives one
pub open spec fn joined<S, V, E, L: Leapers<S, V>, G: Fn(&S, &V) -> E>(src: Set<S>, l: L, g: G, new: Set<E>) -> bool {
  &&& forall|e: E| #[trigger] new.contains(e) ==> exists|t: S, v: V| src.contains(t) && #[trigger] l.may(t, v) && call_ensures(g, (&t, &v), e)
  &&& forall|t: S, v: V| src.contains(t) && #[trigger] l.must(t, v) ==> exists|e: E| #[trigger] new.contains(e) && call_ensures(g, (&t, &v), e)
}
pub open spec fn paired<K, A, B, E, G: Fn(&K, &A, &B) -> E>(src: Set<(K, A)>, rel: Set<(K, B)>, g: G, new: Set<E>) -> bool {
  &&& forall|e: E| #[trigger] new.contains(e) ==> exists|k: K, a: A, b: B| src.contains((k, a)) && rel.contains((k, b)) && #[trigger] call_ensures(g, (&k, &a, &b), e)
  &&& forall|k: K, a: A, b: B| #[trigger] src.contains((k, a)) && #[trigger] rel.contains((k, b)) ==> exists|e: E| #[trigger] new.contains(e) && call_ensures(g, (&k, &a, &b), e)
}
pub trait Leapers<S, V>: Sized {
  /// the value may go with the tuple; it surely does; asking is allowed
  spec fn may(&self, t: S, v: V) -> bool;
  spec fn must(&self, t: S, v: V) -> bool;
  spec fn ok(&self, t: S, v: V) -> bool;
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(G)]
pub struct ExtendWith<K, V, S, G> { x: core::marker::PhantomData<(K, V, S, G)> }
impl<K, V, S, G: Fn(&S) -> K> ExtendWith<K, V, S, G> { pub uninterp spec fn rel(&self) -> Set<(K, V)>; pub uninterp spec fn g(&self) -> G; }
impl<K, V, S, G: Fn(&S) -> K> Leapers<S, V> for ExtendWith<K, V, S, G> {
  open spec fn may(&self, t: S, v: V) -> bool { exists|k: K| #[trigger] call_ensures(self.g(), (&t,), k) && self.rel().contains((k, v)) }
  open spec fn must(&self, t: S, v: V) -> bool { forall|k: K| #[trigger] call_ensures(self.g(), (&t,), k) ==> self.rel().contains((k, v)) }
  open spec fn ok(&self, t: S, v: V) -> bool { call_requires(self.g(), (&t,)) }
}
#[verifier::external_body] #[verifier::reject_recursive_types(V)] #[verifier::reject_recursive_types(S)] #[verifier::reject_recursive_types(G)]
pub struct ValueFilter<S, V, G> { x: core::marker::PhantomData<(S, V, G)> }
impl<S, V, G: Fn(&S, &V) -> bool> ValueFilter<S, V, G> { pub uninterp spec fn g(&self) -> G;
  #[verifier::external_body] pub fn from(g: G) -> (r: Self) ensures r.g() == g { unimplemented!() } }
impl<S, V, G: Fn(&S, &V) -> bool> Leapers<S, V> for ValueFilter<S, V, G> {
  open spec fn may(&self, t: S, v: V) -> bool { call_ensures(self.g(), (&t, &v), true) }
  open spec fn must(&self, t: S, v: V) -> bool { !call_ensures(self.g(), (&t, &v), false) }
  open spec fn ok(&self, t: S, v: V) -> bool { call_requires(self.g(), (&t, &v)) }
}
impl<S, V, A: Leapers<S, V>, B: Leapers<S, V>> Leapers<S, V> for (A, B) {
  open spec fn may(&self, t: S, v: V) -> bool { self.0.may(t, v) && self.1.may(t, v) }
  open spec fn must(&self, t: S, v: V) -> bool { self.0.must(t, v) && self.1.must(t, v) }
  open spec fn ok(&self, t: S, v: V) -> bool { self.0.ok(t, v) && self.1.ok(t, v) }
}
impl<K, V> Relation<(K, V)> {
  #[verifier::external_body] pub fn extend_with<S, G: Fn(&S) -> K>(&self, g: G) -> (r: ExtendWith<K, V, S, G>) ensures r.rel() == self.set(), r.g() == g { unimplemented!() }
}
impl<T> Relation<T> {
  #[verifier::external_body] pub fn from_iter(i: It<T>) -> (r: Self) ensures r.set() == i.s().to_set() { unimplemented!() }
  #[verifier::external_body] pub fn from_leapjoin<S, V, L: Leapers<S, V>, G: Fn(&S, &V) -> T>(src: &Relation<S>, l: L, g: G) -> (r: Self)
    requires forall|t: S, v: V| #[trigger] l.ok(t, v), forall|t: S, v: V| #[trigger] call_requires(g, (&t, &v)), ensures joined(src.set(), l, g, r.set()) { unimplemented!() }
  #[verifier::external_body] pub fn from_join<K, A, B, G: Fn(&K, &A, &B) -> T>(src: &Relation<(K, A)>, rel: &Relation<(K, B)>, g: G) -> (r: Self)
    requires forall|k: K, a: A, b: B| #[trigger] call_requires(g, (&k, &a, &b)), ensures paired(src.set(), rel.set(), g, r.set()) { unimplemented!() }
}
/// a variable of an iteration: tuples seen before the last round, found in the last round, found since
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Var<T> { x: core::marker::PhantomData<T> }
/// a variable as it is at a moment
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Now<T> { x: core::marker::PhantomData<T> }
impl<T> Now<T> { pub uninterp spec fn recent(&self) -> Set<T>; }
pub struct Iteration { pub x: u64 }
impl Iteration {
  #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
  #[verifier::external_body] pub fn variable<T>(&mut self, n: &str) -> (r: Var<T>) ensures r.stable() == Set::<T>::empty(), r.recent() == Set::<T>::empty(), r.pending() == Set::<T>::empty() { unimplemented!() }
}
impl<T> Var<T> {
  pub uninterp spec fn stable(&self) -> Set<T>;
  pub uninterp spec fn recent(&self) -> Set<T>;
  pub uninterp spec fn pending(&self) -> Set<T>;
  pub open spec fn all(&self) -> Set<T> { self.stable() + self.recent() + self.pending() }
  #[verifier::external_body] pub fn now(&self) -> (r: Now<T>) ensures r.recent() == self.recent() { unimplemented!() }
  #[verifier::external_body] pub fn extend(&mut self, i: It<T>) ensures final(self).stable() == old(self).stable(), final(self).recent() == old(self).recent(), final(self).pending() == old(self).pending() + i.s().to_set() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, i: Relation<T>) ensures final(self).stable() == old(self).stable(), final(self).recent() == old(self).recent(), final(self).pending() == old(self).pending() + i.set() { unimplemented!() }
  #[verifier::external_body] pub fn from_leapjoin<S, V, L: Leapers<S, V>, G: Fn(&S, &V) -> T>(&mut self, src: &Now<S>, l: L, g: G) -> (new: Ghost<Set<T>>)
    requires forall|t: S, v: V| #[trigger] l.ok(t, v), forall|t: S, v: V| #[trigger] call_requires(g, (&t, &v)),
    ensures joined(src.recent(), l, g, new@), final(self).stable() == old(self).stable(), final(self).recent() == old(self).recent(), final(self).pending() == old(self).pending() + new@ { unimplemented!() }
  #[verifier::external_body] pub fn from_join<K, A, B, G: Fn(&K, &A, &B) -> T>(&mut self, src: &Now<(K, A)>, rel: &Relation<(K, B)>, g: G) -> (new: Ghost<Set<T>>)
    requires forall|k: K, a: A, b: B| #[trigger] call_requires(g, (&k, &a, &b)),
    ensures paired(src.recent(), rel.set(), g, new@), final(self).stable() == old(self).stable(), final(self).recent() == old(self).recent(), final(self).pending() == old(self).pending() + new@ { unimplemented!() }
  #[verifier::external_body] pub fn complete(self) -> (r: Relation<T>) requires self.recent() == Set::<T>::empty(), self.pending() == Set::<T>::empty(), ensures r.set() == self.stable() { unimplemented!() }
}
/// one more round: what was found in the last one is old, what was found since and is not old is recent
pub open spec fn round<T>(a: Var<T>, b: Var<T>) -> bool { b.stable() == a.stable() + a.recent() && b.recent() == a.pending().difference(b.stable()) && b.pending() == Set::<T>::empty() }
#[verifier::external_body] pub fn vp_changed<A, B>(i: &mut Iteration, a: &mut Var<A>, b: &mut Var<B>) -> (r: bool)
  ensures round(*old(a), *final(a)), round(*old(b), *final(b)), !r ==> final(a).recent() == Set::<A>::empty() && final(b).recent() == Set::<B>::empty() { unimplemented!() }
"""

SPECS = r"""
/// what the rules read
pub ghost struct G<'tcx> { pub tcx: TyCtxt<'tcx>, pub def_id: DefId, pub polonius_input_facts: AllFacts<RustcFacts>, pub polonius_output: PEOutput<RustcFacts>, pub body_with_facts: BodyWithBorrowckFacts<'tcx>,
  pub borrow_set: BorrowSet<'tcx>, pub move_data: MoveData<'tcx>, pub place_data: IndexVec<Path, Place<'tcx>>, pub rev_lookup: Map<Local, Vec<Path>> }
impl<'tcx> PermissionsCtxt<'tcx> {
  pub open spec fn g(&self) -> G<'tcx> { G { tcx: self.tcx, def_id: self.def_id, polonius_input_facts: *self.polonius_input_facts, polonius_output: self.polonius_output, body_with_facts: *self.body_with_facts,
    borrow_set: self.borrow_set, move_data: self.move_data, place_data: self.place_data, rev_lookup: self.rev_lookup@ } }
  pub open spec fn out(&self) -> Output<AquascopeFacts> { self.permissions_output }
  pub open spec fn blank(&self) -> bool {
    &&& self.rev_lookup@ == Map::<Local, Vec<Path>>::empty()
    &&& self.out().never_write@ == Set::<Path>::empty() && self.out().loan_read_refined@ == Map::<Point, HashMap<Path, Loan>>::empty()
    &&& self.out().loan_write_refined@ == Map::<Point, HashMap<Path, Loan>>::empty() && self.out().loan_drop_refined@ == Map::<Point, HashMap<Path, Loan>>::empty()
    &&& self.out().move_refined@ == Map::<Point, HashMap<Path, Move>>::empty() && self.out().path_maybe_uninitialized_on_entry@ == Map::<Point, HashSet<Path>>::empty()
    &&& self.out().move_live_at@ == Map::<Point, Vec<Move>>::empty()
  }
  /// Only paths and facts are added.
  pub open spec fn same_facts(&self, o: &Self) -> bool {
    *o == (PermissionsCtxt { permissions_output: o.permissions_output, place_data: o.place_data, rev_lookup: o.rev_lookup, ..*self })
  }
}
impl<'tcx> G<'tcx> {
  pub open spec fn place(&self, p: Path) -> Place<'tcx> { self.place_data.at(p) }
  pub open spec fn norm(&self, p: Place<'tcx>) -> Place<'tcx> { normal(self.tcx, self.def_id, p) }
  pub open spec fn body(&self) -> Body<'tcx> { self.body_with_facts.body }
  /// p is listed as a path
  pub open spec fn listed(&self, l: Local, p: Path) -> bool { self.rev_lookup.contains_key(l) && self.rev_lookup[l]@.contains(p) }
  /// The place has been given a path (see `place_to_path`, which panics otherwise).
  pub open spec fn registered(&self, p: Place<'tcx>) -> bool {
    let n = self.norm(p);
    self.rev_lookup.contains_key(n.local) && exists|i: int| 0 <= i < self.rev_lookup[n.local]@.len() && self.place(#[trigger] self.rev_lookup[n.local]@[i]) == n
  }
  pub open spec fn path_index(&self, p: Place<'tcx>, i: int) -> bool {
    let n = self.norm(p);
    let v = self.rev_lookup[n.local]@;
    0 <= i < v.len() && self.place(v[i]) == n && forall|j: int| 0 <= j < i ==> self.place(#[trigger] v[j]) != n
  }
  /// The first path of place p.
  pub open spec fn path(&self, p: Place<'tcx>) -> Path { self.rev_lookup[self.norm(p).local]@[choose|i: int| self.path_index(p, i)] }
  pub open spec fn well_listed(&self) -> bool { forall|l: Local, p: Path| #[trigger] self.listed(l, p) ==> self.place_data.has(p) }
  pub open spec fn mpath(&self, mp: MoveablePath) -> Path { self.path(self.move_data.move_paths.at(mp).place) }
  pub open spec fn cfg(&self, a: Point, b: Point) -> bool { self.polonius_input_facts.cfg_edge@.contains((a, b)) }

  // --- the places a body has
  pub open spec fn known(&self, pl: Place<'tcx>) -> bool { places_of(self.body()).contains(pl) || (exists|mp: MoveablePath| self.move_data.move_paths.has(mp) && pl == (#[trigger] self.move_data.move_paths.at(mp)).place) || exists|mv: Move| #[trigger] self.inside(mv, pl) }
  /// inside the place moved out of
  pub open spec fn inside(&self, mv: Move, pl: Place<'tcx>) -> bool { self.move_data.moves.has(mv) && interior(self.body(), self.norm(self.move_data.move_paths.at(self.move_data.moves.at(mv).path).place)).contains(pl) }
  pub open spec fn all_known(&self) -> bool { forall|pl: Place<'tcx>| #[trigger] self.known(pl) ==> self.registered(pl) }
  /// What rustc's facts are about: move paths by their index, places of the body.
  pub open spec fn sound(&self) -> bool {
    &&& forall|mp: MoveablePath| #[trigger] self.move_data.move_paths.has(mp)
    &&& self.body_with_facts.location_table is Some
  }

  // --- writing by declaration
  pub open spec fn readonly(&self, l: Local) -> bool { self.body().local_decls.decl(l).mutability != Mutability::Mut }
  pub open spec fn prefix_type(&self, pl: Place<'tcx>, i: int) -> Ty<'tcx> { type_of(self.body().local_decls.body(), pl.local, pl.projection@.take(i)) }
  /// The pointer at step i does not let its target be written: a shared reference, or a pointer held directly by a variable not declared mutable.
  pub open spec fn seals(&self, pl: Place<'tcx>, i: int) -> bool {
    pl.projection@[i] is Deref && match self.prefix_type(pl, i).reference() { Some(m) => m == Mutability::Not, None => self.readonly(pl.local) && !pl.indirect_within(i) }
  }
  pub open spec fn never_written(&self, p: Path) -> bool {
    let pl = self.place(p);
    (!pl.indirect() && self.readonly(pl.local)) || exists|i: int| 0 <= i < pl.projection@.len() && #[trigger] self.seals(pl, i)
  }

  // --- loans
  pub open spec fn issued(&self, l: Loan) -> bool { exists|i: int| 0 <= i < self.polonius_input_facts.loan_issued_at@.len() && (#[trigger] self.polonius_input_facts.loan_issued_at@[i]).1 == l }
  /// The loan's borrowed place and the path may overlap.
  pub open spec fn conflicts(&self, l: Loan, p: Path) -> bool { self.issued(l) && exists|pl: Place<'tcx>| self.known(pl) && #[trigger] clash(self.body(), self.borrow_set.borrow(l).of(), pl) && p == self.path(pl) }
  pub open spec fn loan_live(&self, l: Loan, pt: Point) -> bool { self.polonius_output.loan_live_at@.contains_key(pt) && self.polonius_output.loan_live_at@[pt]@.contains(l) }
  pub open spec fn mutable(&self, l: Loan) -> bool { self.borrow_set.borrow(l).k() is Mut }
  pub open spec fn lends(&self, l: Loan, p: Path, pt: Point) -> bool { self.conflicts(l, p) && self.loan_live(l, pt) }

  // --- moves
  /// The move takes the path, something that contains it, or (part of) a value inside it.
  pub open spec fn touches(&self, mv: Move, p: Path) -> bool {
    let mp = self.move_data.moves.at(mv).path;
    self.move_data.moves.has(mv) && ((exists|pl: Place<'tcx>| #[trigger] interior(self.body(), self.place(self.mpath(mp))).contains(pl) && p == self.path(pl))
      || exists|a: MoveablePath| #[trigger] self.move_data.move_paths.at(mp).above(self.move_data.move_paths).contains(a) && p == self.mpath(a))
  }
  /// Something that may overlap what was moved is assigned at the point.
  pub open spec fn reassigned(&self, mv: Move, pt: Point) -> bool {
    exists|i: int| 0 <= i < self.polonius_input_facts.path_assigned_at_base@.len() && (#[trigger] self.polonius_input_facts.path_assigned_at_base@[i]).1 == pt
      && clash(self.body(), self.place(self.mpath(self.polonius_input_facts.path_assigned_at_base@[i].0)), self.place(self.mpath(self.move_data.moves.at(mv).path)))
  }
  pub open spec fn start(&self, l: Location) -> Point { self.body_with_facts.location_table->Some_0.first(l) }
  pub open spec fn gone_first(&self, mv: Move, pt: Point) -> bool { self.move_data.moves.has(mv) && pt == self.start(self.move_data.moves.at(mv).source) }
  pub open spec fn gone_step(&self, mv: Move, q: Point, pt: Point) -> bool { self.cfg(q, pt) && !self.reassigned(mv, pt) }
  /// A run of control flow from the move to the point, with nothing moved back on the way.
  pub open spec fn gone_along(&self, s: Seq<Point>, mv: Move, pt: Point) -> bool { s.len() > 0 && self.gone_first(mv, s[0]) && s.last() == pt && forall|i: int| 0 <= i < s.len() - 1 ==> self.gone_step(mv, #[trigger] s[i], s[i + 1]) }
  pub open spec fn gone(&self, mv: Move, pt: Point) -> bool { exists|s: Seq<Point>| #[trigger] self.gone_along(s, mv, pt) }
  /// The move is in force on entry to the point.
  pub open spec fn moved(&self, mv: Move, pt: Point) -> bool { exists|q: Point| #[trigger] self.gone(mv, q) && self.cfg(q, pt) }
  pub open spec fn takes(&self, mv: Move, p: Path, pt: Point) -> bool { self.touches(mv, p) && self.moved(mv, pt) }

  // --- initialization
  pub open spec fn unset_after(&self, pt: Point, mp: MoveablePath) -> bool { self.polonius_output.path_maybe_uninitialized_on_exit@.contains_key(pt) && self.polonius_output.path_maybe_uninitialized_on_exit@[pt]@.contains(mp) }
  pub open spec fn left_unset(&self, pt: Point, p: Path) -> bool { exists|mp: MoveablePath| #[trigger] self.unset_after(pt, mp) && p == self.mpath(mp) }
  pub open spec fn part_of(&self, child: Path, parent: Path) -> bool {
    exists|i: int| 0 <= i < self.polonius_input_facts.child_path@.len() && child == self.mpath((#[trigger] self.polonius_input_facts.child_path@[i]).0) && parent == self.mpath(self.polonius_input_facts.child_path@[i].1)
  }
  pub open spec fn unset_first(&self, p: Path, pt: Point) -> bool { exists|q: Point| #[trigger] self.left_unset(q, p) && self.cfg(q, pt) }
  /// Unset after a point just before, or a part of it is, or a part of that.
  pub open spec fn unset_along(&self, s: Seq<Path>, p: Path, pt: Point) -> bool { s.len() > 0 && self.unset_first(s[0], pt) && s.last() == p && forall|i: int| 0 <= i < s.len() - 1 ==> self.part_of(#[trigger] s[i], s[i + 1]) }
  pub open spec fn unset(&self, p: Path, pt: Point) -> bool { exists|s: Seq<Path>| #[trigger] self.unset_along(s, p, pt) }
}
pub open spec fn w_read(g: G<'_>) -> spec_fn(Loan, Path, Point) -> bool { |l: Loan, p: Path, pt: Point| g.lends(l, p, pt) && g.mutable(l) }
pub open spec fn w_lends(g: G<'_>) -> spec_fn(Loan, Path, Point) -> bool { |l: Loan, p: Path, pt: Point| g.lends(l, p, pt) }
pub open spec fn w_takes(g: G<'_>) -> spec_fn(Move, Path, Point) -> bool { |m: Move, p: Path, pt: Point| g.takes(m, p, pt) }
impl<'tcx> PermissionsCtxt<'tcx> {
  /// Every place has a path, and what is recorded is what the rules say.
  pub open spec fn derived(&self) -> bool {
    &&& self.g().all_known()
    &&& forall|p: Path| #[trigger] self.out().never_write@.contains(p) <==> (exists|l: Local| self.g().listed(l, p)) && self.g().never_written(p)
    &&& filed(self.out().loan_read_refined@, w_read(self.g()))
    &&& filed(self.out().loan_write_refined@, w_lends(self.g()))
    &&& filed(self.out().loan_drop_refined@, w_lends(self.g()))
    &&& filed(self.out().move_refined@, w_takes(self.g()))
    &&& forall|p: Path, pt: Point| #![trigger self.g().unset(p, pt)] self.g().unset(p, pt) <==> self.out().path_maybe_uninitialized_on_entry@.contains_key(pt) && self.out().path_maybe_uninitialized_on_entry@[pt]@.contains(p)
    &&& forall|m: Move, pt: Point| #![trigger self.g().moved(m, pt)] self.g().moved(m, pt) <==> self.out().move_live_at@.contains_key(pt) && self.out().move_live_at@[pt]@.contains(m)
  }
}
/// The value filed for a path at a point is one that holds there; there is one wherever one holds.
pub open spec fn filed<L>(m: Map<Point, HashMap<Path, L>>, f: spec_fn(L, Path, Point) -> bool) -> bool {
  &&& forall|pt: Point, p: Path| #![trigger m[pt]@[p]] #![trigger m[pt]@.contains_key(p)] m.contains_key(pt) && m[pt]@.contains_key(p) ==> f(m[pt]@[p], p, pt)
  &&& forall|l: L, p: Path, pt: Point| #[trigger] f(l, p, pt) ==> m.contains_key(pt) && m[pt]@.contains_key(p)
}
/// the first n tuples filed
pub open spec fn filing<L>(m: Map<Point, HashMap<Path, L>>, s: Seq<(Path, L, Point)>, n: int) -> bool {
  &&& forall|pt: Point, p: Path| #![trigger m[pt]@[p]] #![trigger m[pt]@.contains_key(p)] m.contains_key(pt) && m[pt]@.contains_key(p) ==> exists|i: int| 0 <= i < n && #[trigger] s[i] == (p, m[pt]@[p], pt)
  &&& forall|i: int| 0 <= i < n ==> m.contains_key((#[trigger] s[i]).2) && m[s[i].2]@.contains_key(s[i].0)
}
pub open spec fn filing_set(m: Map<Point, HashSet<Path>>, s: Seq<(Path, Point)>, n: int) -> bool {
  &&& forall|pt: Point, p: Path| #![trigger m[pt]@.contains(p)] m.contains_key(pt) && m[pt]@.contains(p) ==> exists|i: int| 0 <= i < n && #[trigger] s[i] == (p, pt)
  &&& forall|i: int| 0 <= i < n ==> m.contains_key((#[trigger] s[i]).1) && m[s[i].1]@.contains(s[i].0)
}
pub open spec fn filing_vec(m: Map<Point, Vec<Move>>, s: Seq<(Move, Point)>, n: int) -> bool {
  &&& forall|pt: Point, p: Move| #![trigger m[pt]@.contains(p)] m.contains_key(pt) && m[pt]@.contains(p) ==> exists|i: int| 0 <= i < n && #[trigger] s[i] == (p, pt)
  &&& forall|i: int| 0 <= i < n ==> m.contains_key((#[trigger] s[i]).1) && m[s[i].1]@.contains(s[i].0)
}
"""

LEMMAS = r"""
pub open spec fn keeps_but_paths(a: PermissionsCtxt<'_>, b: PermissionsCtxt<'_>) -> bool { b == (PermissionsCtxt { place_data: b.place_data, rev_lookup: b.rev_lookup, ..a }) }
pub proof fn lemma_pushed<T>(s: Seq<T>, x: T) ensures forall|y: T| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x
{ assert forall|y: T| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x by { if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); } if y == x { assert(s.push(x)[s.len() as int] == y); } } }
pub proof fn lemma_paths(a: G<'_>, b: G<'_>, s: Seq<Path>, r: Path)
  requires forall|l: Local, p: Path| #[trigger] a.listed(l, p) ==> s.contains(p), forall|p: Path| #[trigger] s.contains(p) ==> exists|l: Local| a.listed(l, p),
    forall|l: Local, p: Path| #[trigger] b.listed(l, p) ==> a.listed(l, p) || p == r, exists|l: Local| #[trigger] b.listed(l, r), forall|l: Local, p: Path| #[trigger] a.listed(l, p) ==> b.listed(l, p)
  ensures forall|l: Local, p: Path| #[trigger] b.listed(l, p) ==> s.push(r).contains(p), forall|p: Path| #[trigger] s.push(r).contains(p) ==> exists|l: Local| b.listed(l, p)
{
  lemma_pushed(s, r);
  assert forall|p: Path| #[trigger] s.push(r).contains(p) implies exists|l: Local| b.listed(l, p) by { if s.contains(p) { let l = choose|l: Local| a.listed(l, p); assert(b.listed(l, p)); } }
}
pub broadcast proof fn lemma_cat<T>(a: Seq<T>, b: Seq<T>, x: T) ensures #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x)
{
  if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); }
  if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert((a + b)[a.len() + i] == x); }
}
pub proof fn lemma_set<T>(s: Seq<T>) ensures forall|x: T| #[trigger] s.to_set().contains(x) <==> s.contains(x) {}
pub open spec fn flat_of<T>(s: Seq<T>, p: Seq<Seq<T>>) -> bool { forall|x: T| #[trigger] s.contains(x) <==> exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).contains(x) }
pub proof fn lemma_flat_of<T>(p: Seq<Seq<T>>) ensures flat_of(vp_flat(p), p) { lemma_flat(p); }

/// what a join with a filter gives, its closures being functions
pub proof fn lemma_leap<S, K, V, E, A: Fn(&S) -> K, B: Fn(&S, &V) -> bool, C: Fn(&S, &V) -> E>(src: Set<S>, l: (ExtendWith<K, V, S, A>, ValueFilter<S, V, B>), c: C, new: Set<E>, key: spec_fn(S) -> K, keep: spec_fn(S, V) -> bool, out: spec_fn(S, V) -> E)
  requires joined(src, l, c, new), forall|t: S, k: K| #[trigger] call_ensures(l.0.g(), (&t,), k) ==> k == key(t),
    forall|t: S, v: V, b: bool| #[trigger] call_ensures(l.1.g(), (&t, &v), b) ==> b == keep(t, v), forall|t: S, v: V, e: E| #[trigger] call_ensures(c, (&t, &v), e) ==> e == out(t, v),
  ensures leaps(src, l.0.rel(), new, key, keep, out)
{
  assert forall|e: E| new.contains(e) implies exists|t: S, v: V| #![trigger src.contains(t), l.0.rel().contains((key(t), v))] src.contains(t) && l.0.rel().contains((key(t), v)) && keep(t, v) && e == out(t, v) by {
    let (t, v) = choose|t: S, v: V| src.contains(t) && #[trigger] l.may(t, v) && call_ensures(c, (&t, &v), e);
    assert(l.0.may(t, v) && l.1.may(t, v));
    assert(src.contains(t) && l.0.rel().contains((key(t), v)) && keep(t, v) && e == out(t, v));
  }
  assert forall|t: S, v: V| src.contains(t) && l.0.rel().contains((key(t), v)) && keep(t, v) implies new.contains(#[trigger] out(t, v)) by {
    assert(l.0.must(t, v)); assert(l.1.must(t, v)); assert(l.must(t, v));
    let e = choose|e: E| #[trigger] new.contains(e) && call_ensures(c, (&t, &v), e);
    assert(e == out(t, v));
  }
}
pub open spec fn leaps<S, K, V, E>(src: Set<S>, rel: Set<(K, V)>, new: Set<E>, key: spec_fn(S) -> K, keep: spec_fn(S, V) -> bool, out: spec_fn(S, V) -> E) -> bool {
  &&& forall|e: E| #[trigger] new.contains(e) ==> exists|t: S, v: V| #![trigger src.contains(t), rel.contains((key(t), v))] src.contains(t) && rel.contains((key(t), v)) && keep(t, v) && e == out(t, v)
  &&& forall|t: S, v: V| src.contains(t) && rel.contains((key(t), v)) && keep(t, v) ==> new.contains(#[trigger] out(t, v))
}
/// the same without a filter
pub proof fn lemma_hop<S, K, V, E, A: Fn(&S) -> K, C: Fn(&S, &V) -> E>(src: Set<S>, l: ExtendWith<K, V, S, A>, c: C, new: Set<E>, key: spec_fn(S) -> K, out: spec_fn(S, V) -> E)
  requires joined(src, l, c, new), forall|t: S, k: K| #[trigger] call_ensures(l.g(), (&t,), k) ==> k == key(t), forall|t: S, v: V, e: E| #[trigger] call_ensures(c, (&t, &v), e) ==> e == out(t, v),
  ensures leaps(src, l.rel(), new, key, |t: S, v: V| true, out)
{
  assert forall|e: E| new.contains(e) implies exists|t: S, v: V| #![trigger src.contains(t), l.rel().contains((key(t), v))] src.contains(t) && l.rel().contains((key(t), v)) && e == out(t, v) by {
    let (t, v) = choose|t: S, v: V| src.contains(t) && #[trigger] l.may(t, v) && call_ensures(c, (&t, &v), e);
    assert(src.contains(t) && l.rel().contains((key(t), v)) && e == out(t, v));
  }
  assert forall|t: S, v: V| src.contains(t) && l.rel().contains((key(t), v)) implies new.contains(#[trigger] out(t, v)) by {
    assert(l.must(t, v));
    let e = choose|e: E| #[trigger] new.contains(e) && call_ensures(c, (&t, &v), e);
    assert(e == out(t, v));
  }
}
pub open spec fn pairs<K, A, B, E>(src: Set<(K, A)>, rel: Set<(K, B)>, new: Set<E>, out: spec_fn(K, A, B) -> E) -> bool {
  &&& forall|e: E| #[trigger] new.contains(e) ==> exists|k: K, a: A, b: B| #[trigger] src.contains((k, a)) && #[trigger] rel.contains((k, b)) && e == out(k, a, b)
  &&& forall|k: K, a: A, b: B| src.contains((k, a)) && rel.contains((k, b)) ==> new.contains(#[trigger] out(k, a, b))
}
pub proof fn lemma_pairs<K, A, B, E, C: Fn(&K, &A, &B) -> E>(src: Set<(K, A)>, rel: Set<(K, B)>, c: C, new: Set<E>, out: spec_fn(K, A, B) -> E)
  requires paired(src, rel, c, new), forall|k: K, a: A, b: B, e: E| #[trigger] call_ensures(c, (&k, &a, &b), e) ==> e == out(k, a, b),
  ensures pairs(src, rel, new, out)
{
  assert forall|e: E| new.contains(e) implies exists|k: K, a: A, b: B| #[trigger] src.contains((k, a)) && #[trigger] rel.contains((k, b)) && e == out(k, a, b) by {
    let (k, a, b) = choose|k: K, a: A, b: B| src.contains((k, a)) && rel.contains((k, b)) && #[trigger] call_ensures(c, (&k, &a, &b), e);
    assert(src.contains((k, a)) && rel.contains((k, b)) && e == out(k, a, b));
  }
  assert forall|k: K, a: A, b: B| src.contains((k, a)) && rel.contains((k, b)) implies new.contains(#[trigger] out(k, a, b)) by {
    let e = choose|e: E| #[trigger] new.contains(e) && call_ensures(c, (&k, &a, &b), e);
    assert(e == out(k, a, b));
  }
}

// --- what each relation is
pub open spec fn is_edges(g: G<'_>, s: Set<(Point, Point)>) -> bool { forall|a: Point, b: Point| #![trigger s.contains((a, b))] #![trigger g.cfg(a, b)] s.contains((a, b)) <==> g.cfg(a, b) }
pub open spec fn is_left(g: G<'_>, s: Set<(Point, Path)>) -> bool { forall|a: Point, b: Path| #![trigger s.contains((a, b))] #![trigger g.left_unset(a, b)] s.contains((a, b)) <==> g.left_unset(a, b) }
pub open spec fn is_touch(g: G<'_>, s: Set<(Move, Path)>) -> bool { forall|a: Move, b: Path| #![trigger s.contains((a, b))] #![trigger g.touches(a, b)] s.contains((a, b)) <==> g.touches(a, b) }
pub open spec fn is_parts(g: G<'_>, s: Set<(Path, Path)>) -> bool { forall|a: Path, b: Path| #![trigger s.contains((a, b))] #![trigger g.part_of(a, b)] s.contains((a, b)) <==> g.part_of(a, b) }
pub open spec fn is_conflict(g: G<'_>, s: Set<(Loan, Path)>) -> bool { forall|a: Loan, b: Path| #![trigger s.contains((a, b))] #![trigger g.conflicts(a, b)] s.contains((a, b)) <==> g.conflicts(a, b) }
pub open spec fn is_live(g: G<'_>, s: Set<(Loan, Point)>) -> bool { forall|a: Loan, b: Point| #![trigger s.contains((a, b))] #![trigger g.loan_live(a, b)] s.contains((a, b)) <==> g.loan_live(a, b) }
pub open spec fn is_gone(g: G<'_>, s: Set<(Move, Point)>) -> bool { forall|a: Move, b: Point| #![trigger s.contains((a, b))] #![trigger g.gone(a, b)] s.contains((a, b)) <==> g.gone(a, b) }
pub open spec fn is_moved(g: G<'_>, s: Set<(Move, Point)>) -> bool { forall|a: Move, b: Point| #![trigger s.contains((a, b))] #![trigger g.moved(a, b)] s.contains((a, b)) <==> g.moved(a, b) }
pub open spec fn is_unset(g: G<'_>, s: Set<(Path, Point)>) -> bool { forall|a: Path, b: Point| #![trigger s.contains((a, b))] #![trigger g.unset(a, b)] s.contains((a, b)) <==> g.unset(a, b) }
pub open spec fn is_first_unset(g: G<'_>, s: Set<(Path, Point)>) -> bool { forall|a: Path, b: Point| #![trigger s.contains((a, b))] #![trigger g.unset_first(a, b)] s.contains((a, b)) <==> g.unset_first(a, b) }
pub open spec fn is_moves(g: G<'_>, s: Set<(Move, Point)>) -> bool { forall|a: Move, b: Point| #![trigger s.contains((a, b))] #![trigger g.gone_first(a, b)] s.contains((a, b)) <==> g.gone_first(a, b) }
pub open spec fn is_rel<L>(s: Set<(Path, L, Point)>, f: spec_fn(L, Path, Point) -> bool) -> bool { forall|p: Path, l: L, pt: Point| #![trigger s.contains((p, l, pt))] #![trigger f(l, p, pt)] s.contains((p, l, pt)) <==> f(l, p, pt) }

// --- what one fact adds to a relation
pub open spec fn left_part(g: G<'_>, pt: Point, v: Seq<MoveablePath>, s: Seq<(Point, Path)>) -> bool { forall|x: (Point, Path)| #[trigger] s.contains(x) <==> x.0 == pt && exists|mp: MoveablePath| v.contains(mp) && x.1 == #[trigger] g.mpath(mp) }
pub open spec fn touch_part(g: G<'_>, mv: Move, s: Seq<(Move, Path)>) -> bool { forall|x: (Move, Path)| #[trigger] s.contains(x) <==> x.0 == mv && g.touches(mv, x.1) }
pub open spec fn conflict_part(g: G<'_>, l: Loan, s: Seq<(Loan, Path)>) -> bool { forall|x: (Loan, Path)| #[trigger] s.contains(x) <==> x.0 == l && exists|pl: Place<'_>| g.known(pl) && #[trigger] clash(g.body(), g.borrow_set.borrow(l).of(), pl) && x.1 == g.path(pl) }
pub open spec fn live_part(pt: Point, v: Seq<Loan>, s: Seq<(Loan, Point)>) -> bool { forall|x: (Loan, Point)| #[trigger] s.contains(x) <==> x.1 == pt && v.contains(x.0) }
/// the listing of a map
pub open spec fn lists<K, T>(h: Seq<(&K, &T)>, m: Map<K, T>) -> bool {
  &&& forall|i: int| 0 <= i < h.len() ==> m.contains_key(*(#[trigger] h[i]).0) && *h[i].1 == m[*h[i].0]
  &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < h.len() && (#[trigger] h[i]) == (&k, &m[k])
}
pub proof fn lemma_left_part(g: G<'_>, pt: Point, v: Seq<MoveablePath>, s: Seq<(Point, Path)>)
  requires s.len() == v.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (pt, g.mpath(v[i])) ensures left_part(g, pt, v, s)
{
  assert forall|x: (Point, Path)| #[trigger] s.contains(x) <==> x.0 == pt && exists|mp: MoveablePath| v.contains(mp) && x.1 == #[trigger] g.mpath(mp) by {
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(v.contains(v[i])); assert(x.1 == g.mpath(v[i])); }
    if x.0 == pt && exists|mp: MoveablePath| v.contains(mp) && x.1 == #[trigger] g.mpath(mp) { let mp = choose|mp: MoveablePath| v.contains(mp) && x.1 == #[trigger] g.mpath(mp); let i = choose|i: int| 0 <= i < v.len() && v[i] == mp; assert(s[i] == x); }
  }
}
pub proof fn lemma_live_part(pt: Point, v: Seq<Loan>, s: Seq<(Loan, Point)>)
  requires s.len() == v.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (v[i], pt) ensures live_part(pt, v, s)
{
  assert forall|x: (Loan, Point)| #[trigger] s.contains(x) <==> x.1 == pt && v.contains(x.0) by {
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(v[i] == x.0); }
    if x.1 == pt && v.contains(x.0) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x.0; assert(s[i] == x); }
  }
}
pub proof fn lemma_touch_part(g: G<'_>, mv: Move, a: Seq<Place<'_>>, b: Seq<MoveablePath>, x: Seq<(Move, Path)>, y: Seq<(Move, Path)>)
  requires g.move_data.moves.has(mv), a.to_set() == interior(g.body(), g.place(g.mpath(g.move_data.moves.at(mv).path))),
    forall|q: MoveablePath| #[trigger] b.contains(q) <==> g.move_data.move_paths.at(g.move_data.moves.at(mv).path).above(g.move_data.move_paths).contains(q),
    x.len() == a.len(), forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == (mv, g.path(a[i])), y.len() == b.len(), forall|i: int| 0 <= i < y.len() ==> #[trigger] y[i] == (mv, g.mpath(b[i])),
  ensures touch_part(g, mv, x + y)
{
  broadcast use lemma_cat;
  let mp = g.move_data.moves.at(mv).path; let inn = interior(g.body(), g.place(g.mpath(mp))); let up = g.move_data.move_paths.at(mp).above(g.move_data.move_paths);
  assert forall|z: (Move, Path)| #[trigger] (x + y).contains(z) <==> z.0 == mv && g.touches(mv, z.1) by {
    if x.contains(z) { let i = choose|i: int| 0 <= i < x.len() && x[i] == z; assert(a.to_set().contains(a[i])); assert(inn.contains(a[i]) && z.1 == g.path(a[i])); }
    if y.contains(z) { let i = choose|i: int| 0 <= i < y.len() && y[i] == z; assert(b.contains(b[i])); assert(up.contains(b[i]) && z.1 == g.mpath(b[i])); }
    if z.0 == mv && g.touches(mv, z.1) {
      if exists|pl: Place<'_>| #[trigger] inn.contains(pl) && z.1 == g.path(pl) { let pl = choose|pl: Place<'_>| #[trigger] inn.contains(pl) && z.1 == g.path(pl); assert(a.to_set().contains(pl)); let i = choose|i: int| 0 <= i < a.len() && a[i] == pl; assert(x[i] == z); }
      else { let q = choose|q: MoveablePath| #[trigger] up.contains(q) && z.1 == g.mpath(q); assert(b.contains(q)); let i = choose|i: int| 0 <= i < b.len() && b[i] == q; assert(y[i] == z); }
    }
  }
}
pub proof fn lemma_conflict_part(g: G<'_>, l: Loan, v: Seq<Place<'_>>, o: Seq<Option<(Loan, Path)>>)
  requires forall|pl: Place<'_>| #[trigger] v.contains(pl) <==> g.known(pl), o.len() == v.len(),
    forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == (if clash(g.body(), g.borrow_set.borrow(l).of(), v[i]) { Some((l, g.path(v[i]))) } else { None::<(Loan, Path)> })
  ensures conflict_part(g, l, vp_somes(o))
{
  lemma_somes(o);
  let of = g.borrow_set.borrow(l).of();
  assert forall|x: (Loan, Path)| #[trigger] vp_somes(o).contains(x) <==> x.0 == l && exists|pl: Place<'_>| g.known(pl) && #[trigger] clash(g.body(), of, pl) && x.1 == g.path(pl) by {
    if vp_somes(o).contains(x) { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some(x); assert(v.contains(v[i])); assert(g.known(v[i]) && clash(g.body(), of, v[i])); }
    if x.0 == l && exists|pl: Place<'_>| g.known(pl) && #[trigger] clash(g.body(), of, pl) && x.1 == g.path(pl) {
      let pl = choose|pl: Place<'_>| g.known(pl) && #[trigger] clash(g.body(), of, pl) && x.1 == g.path(pl); assert(v.contains(pl)); let i = choose|i: int| 0 <= i < v.len() && v[i] == pl; assert(o[i] == Some(x)); }
  }
}
pub proof fn lemma_places<'tcx>(g: G<'tcx>, a: Seq<Place<'tcx>>, h: Seq<&MovePath<'tcx>>, y: Seq<Place<'tcx>>, w: Seq<&MoveOut>, p: Seq<Seq<Place<'tcx>>>, z: Seq<Place<'tcx>>)
  requires a.to_set() == places_of(g.body()), forall|k: int| 0 <= k < h.len() ==> g.move_data.move_paths.lists(*(#[trigger] h[k])),
    forall|i: MoveablePath| #[trigger] g.move_data.move_paths.has(i) ==> exists|k: int| 0 <= k < h.len() && *(#[trigger] h[k]) == g.move_data.move_paths.at(i),
    y.len() == h.len(), forall|i: int| 0 <= i < h.len() ==> y[i] == (#[trigger] h[i]).place,
    forall|k: int| 0 <= k < w.len() ==> g.move_data.moves.lists(*(#[trigger] w[k])), forall|i: Move| #[trigger] g.move_data.moves.has(i) ==> exists|k: int| 0 <= k < w.len() && *(#[trigger] w[k]) == g.move_data.moves.at(i),
    p.len() == w.len(), forall|i: int| 0 <= i < w.len() ==> in_part(g, *(#[trigger] w[i]), p[i]), flat_of(z, p),
  ensures forall|pl: Place<'tcx>| #[trigger] (a + y + z).contains(pl) <==> g.known(pl)
{
  broadcast use lemma_cat;
  assert forall|pl: Place<'tcx>| #[trigger] (a + y + z).contains(pl) <==> g.known(pl) by {
    assert((a + y + z).contains(pl) <==> (a + y).contains(pl) || z.contains(pl));
    assert((a + y).contains(pl) <==> a.contains(pl) || y.contains(pl));
    assert(a.contains(pl) <==> a.to_set().contains(pl));
    if y.contains(pl) { let k = choose|k: int| 0 <= k < y.len() && y[k] == pl; let i = choose|i: MoveablePath| #[trigger] g.move_data.move_paths.has(i) && *(h[k]) == g.move_data.move_paths.at(i); assert(pl == g.move_data.move_paths.at(i).place); }
    if z.contains(pl) { let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).contains(pl); assert(in_part(g, *w[k], p[k])); let i = choose|i: Move| #[trigger] g.move_data.moves.has(i) && *(w[k]) == g.move_data.moves.at(i); assert(g.inside(i, pl)); }
    if exists|i: MoveablePath| g.move_data.move_paths.has(i) && pl == (#[trigger] g.move_data.move_paths.at(i)).place { let i = choose|i: MoveablePath| g.move_data.move_paths.has(i) && pl == (#[trigger] g.move_data.move_paths.at(i)).place; let k = choose|k: int| 0 <= k < h.len() && *(#[trigger] h[k]) == g.move_data.move_paths.at(i); assert(y[k] == pl); }
    if exists|mv: Move| #[trigger] g.inside(mv, pl) { let mv = choose|mv: Move| #[trigger] g.inside(mv, pl); let k = choose|k: int| 0 <= k < w.len() && *(#[trigger] w[k]) == g.move_data.moves.at(mv); assert(in_part(g, *w[k], p[k])); assert(p[k].contains(pl)); }
  }
}
/// what one move adds to the places
pub open spec fn in_part(g: G<'_>, m: MoveOut, s: Seq<Place<'_>>) -> bool { s.to_set() == interior(g.body(), g.norm(g.move_data.move_paths.at(m.path).place)) && forall|x: Place<'_>| #[trigger] s.contains(x) <==> s.to_set().contains(x) }
pub open spec fn sealing(g: G<'_>, q: PlaceRef<'_>) -> bool { match type_of(g.body().local_decls.body(), q.local, q.projection@).reference() { Some(m) => m == Mutability::Not, None => g.readonly(q.local) && !q.indirect() } }
pub proof fn lemma_never<'tcx>(g: G<'tcx>, p: Path, h: Seq<(PlaceRef<'tcx>, ProjectionElem)>, o: Seq<Option<PlaceRef<'tcx>>>, b: bool)
  requires h.len() == g.place(p).projection@.len(), forall|i: int| #![trigger h[i]] 0 <= i < h.len() ==> h[i].1 == g.place(p).projection@[i] && h[i].0.local == g.place(p).local && h[i].0.projection@ == g.place(p).projection@.take(i),
    o.len() == h.len(), forall|i: int| 0 <= i < h.len() ==> o[i] == (if (#[trigger] h[i]).1 is Deref { Some(h[i].0) } else { None::<PlaceRef<'tcx>> }),
    b ==> exists|i: int| 0 <= i < vp_somes(o).len() && sealing(g, #[trigger] vp_somes(o)[i]), !b ==> forall|i: int| 0 <= i < vp_somes(o).len() ==> !sealing(g, #[trigger] vp_somes(o)[i])
  ensures b == (exists|i: int| 0 <= i < g.place(p).projection@.len() && #[trigger] g.seals(g.place(p), i))
{
  lemma_somes(o);
  let pl = g.place(p);
  assert forall|i: int| #![trigger h[i]] 0 <= i < h.len() implies h[i].0.indirect() == pl.indirect_within(i) by {
    let t = pl.projection@.take(i); assert(h[i].0.projection@ == t);
    if h[i].0.indirect() { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]) is Deref; assert(pl.projection@[j] is Deref); }
    if pl.indirect_within(i) { let j = choose|j: int| 0 <= j < i && (#[trigger] pl.projection@[j]) is Deref; assert(t[j] is Deref); }
  }
  if b { let k = choose|k: int| 0 <= k < vp_somes(o).len() && sealing(g, #[trigger] vp_somes(o)[k]); let q = vp_somes(o)[k]; assert(vp_somes(o).contains(q)); let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some(q); assert(h[i].1 is Deref && h[i].0 == q); assert(g.seals(pl, i)); }
  if exists|i: int| 0 <= i < pl.projection@.len() && #[trigger] g.seals(pl, i) { let i = choose|i: int| 0 <= i < pl.projection@.len() && #[trigger] g.seals(pl, i); assert(h[i].1 is Deref); assert(o[i] == Some(h[i].0)); assert(vp_somes(o).contains(h[i].0)); let k = choose|k: int| 0 <= k < vp_somes(o).len() && vp_somes(o)[k] == h[i].0; assert(sealing(g, vp_somes(o)[k])); }
}
pub proof fn lemma_mp(g: G<'_>) requires g.sound(), g.all_known() ensures forall|mp: MoveablePath| g.registered(#[trigger] g.move_data.move_paths.at(mp).place),
  forall|mv: Move, q: Place<'_>| g.move_data.moves.has(mv) && #[trigger] interior(g.body(), g.norm(g.move_data.move_paths.at(g.move_data.moves.at(mv).path).place)).contains(q) ==> g.registered(q)
{
  assert forall|mp: MoveablePath| g.registered(#[trigger] g.move_data.move_paths.at(mp).place) by { assert(g.move_data.move_paths.has(mp)); assert(g.known(g.move_data.move_paths.at(mp).place)); }
  assert forall|mv: Move, q: Place<'_>| g.move_data.moves.has(mv) && #[trigger] interior(g.body(), g.norm(g.move_data.move_paths.at(g.move_data.moves.at(mv).path).place)).contains(q) implies g.registered(q) by { assert(g.inside(mv, q)); assert(g.known(q)); }
}
pub proof fn lemma_same_known<'tcx>(a: G<'tcx>, b: G<'tcx>, pl: Place<'tcx>) requires b == (G { place_data: b.place_data, rev_lookup: b.rev_lookup, ..a }) ensures a.known(pl) == b.known(pl)
{
  assert(forall|mv: Move| a.inside(mv, pl) == b.inside(mv, pl));
  assert(forall|mp: MoveablePath| a.move_data.move_paths.has(mp) == b.move_data.move_paths.has(mp));
}
pub proof fn lemma_sound(a: G<'_>, b: G<'_>) requires a.sound(), b == (G { place_data: b.place_data, rev_lookup: b.rev_lookup, ..a }) ensures b.sound()
{
  assert forall|mp: MoveablePath| #[trigger] b.move_data.move_paths.has(mp) by { assert(a.move_data.move_paths.has(mp)); }
}
/// the paths kept by a filter
pub proof fn lemma_kept(g: G<'_>, v: Seq<Path>, o: Seq<Option<Path>>)
  requires o.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> o[i] == (if g.never_written(#[trigger] v[i]) { Some(v[i]) } else { None::<Path> })
  ensures forall|p: Path| #[trigger] vp_somes(o).to_set().contains(p) <==> v.contains(p) && g.never_written(p)
{
  lemma_somes(o);
  assert forall|p: Path| #[trigger] vp_somes(o).to_set().contains(p) <==> v.contains(p) && g.never_written(p) by {
    if vp_somes(o).contains(p) { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == Some(p); assert(v[i] == p); }
    if v.contains(p) && g.never_written(p) { let i = choose|i: int| 0 <= i < v.len() && v[i] == p; assert(o[i] == Some(p)); }
  }
}
pub proof fn lemma_left(g: G<'_>, h: Seq<(&Point, &Vec<MoveablePath>)>, pt: Seq<Seq<(Point, Path)>>, s: Seq<(Point, Path)>)
  requires lists(h, g.polonius_output.path_maybe_uninitialized_on_exit@), pt.len() == h.len(), forall|i: int| 0 <= i < h.len() ==> left_part(g, *(#[trigger] h[i]).0, h[i].1@, pt[i]), flat_of(s, pt)
  ensures is_left(g, s.to_set())
{
  let m = g.polonius_output.path_maybe_uninitialized_on_exit@;
  assert forall|a: Point, b: Path| #![trigger s.to_set().contains((a, b))] #![trigger g.left_unset(a, b)] s.to_set().contains((a, b)) <==> g.left_unset(a, b) by {
    if s.contains((a, b)) { let i = choose|i: int| 0 <= i < pt.len() && (#[trigger] pt[i]).contains((a, b)); assert(left_part(g, *h[i].0, h[i].1@, pt[i])); let mp = choose|mp: MoveablePath| h[i].1@.contains(mp) && b == #[trigger] g.mpath(mp); assert(g.unset_after(a, mp)); }
    if g.left_unset(a, b) { let mp = choose|mp: MoveablePath| #[trigger] g.unset_after(a, mp) && b == g.mpath(mp); let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]) == (&a, &m[a]); assert(left_part(g, *h[i].0, h[i].1@, pt[i])); assert(pt[i].contains((a, b))); }
  }
}
pub proof fn lemma_live(g: G<'_>, h: Seq<(&Point, &Vec<Loan>)>, pt: Seq<Seq<(Loan, Point)>>, s: Seq<(Loan, Point)>)
  requires lists(h, g.polonius_output.loan_live_at@), pt.len() == h.len(), forall|i: int| 0 <= i < h.len() ==> live_part(*(#[trigger] h[i]).0, h[i].1@, pt[i]), flat_of(s, pt)
  ensures is_live(g, s.to_set())
{
  let m = g.polonius_output.loan_live_at@;
  assert forall|a: Loan, b: Point| #![trigger s.to_set().contains((a, b))] #![trigger g.loan_live(a, b)] s.to_set().contains((a, b)) <==> g.loan_live(a, b) by {
    if s.contains((a, b)) { let i = choose|i: int| 0 <= i < pt.len() && (#[trigger] pt[i]).contains((a, b)); assert(live_part(*h[i].0, h[i].1@, pt[i])); }
    if g.loan_live(a, b) { let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]) == (&b, &m[b]); assert(live_part(*h[i].0, h[i].1@, pt[i])); assert(pt[i].contains((a, b))); }
  }
}
pub proof fn lemma_touch(g: G<'_>, h: Seq<(Move, &MoveOut)>, pt: Seq<Seq<(Move, Path)>>, s: Seq<(Move, Path)>)
  requires forall|m: Move| #[trigger] g.move_data.moves.has(m) ==> exists|k: int| 0 <= k < h.len() && (#[trigger] h[k]).0 == m, pt.len() == h.len(), forall|i: int| 0 <= i < h.len() ==> touch_part(g, (#[trigger] h[i]).0, pt[i]), flat_of(s, pt)
  ensures is_touch(g, s.to_set())
{
  assert forall|a: Move, b: Path| #![trigger s.to_set().contains((a, b))] #![trigger g.touches(a, b)] s.to_set().contains((a, b)) <==> g.touches(a, b) by {
    if s.contains((a, b)) { let i = choose|i: int| 0 <= i < pt.len() && (#[trigger] pt[i]).contains((a, b)); assert(touch_part(g, h[i].0, pt[i])); }
    if g.touches(a, b) { assert(g.move_data.moves.has(a)); let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).0 == a; assert(touch_part(g, h[i].0, pt[i])); assert(pt[i].contains((a, b))); }
  }
}
pub proof fn lemma_conflict(g: G<'_>, v: Seq<(Origin, Loan, Point)>, pt: Seq<Seq<(Loan, Path)>>, s: Seq<(Loan, Path)>)
  requires v == g.polonius_input_facts.loan_issued_at@, pt.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> conflict_part(g, (#[trigger] v[i]).1, pt[i]), flat_of(s, pt)
  ensures is_conflict(g, s.to_set())
{
  assert forall|a: Loan, b: Path| #![trigger s.to_set().contains((a, b))] #![trigger g.conflicts(a, b)] s.to_set().contains((a, b)) <==> g.conflicts(a, b) by {
    if s.contains((a, b)) { let i = choose|i: int| 0 <= i < pt.len() && (#[trigger] pt[i]).contains((a, b)); assert(conflict_part(g, v[i].1, pt[i])); assert(g.issued(a)); }
    if g.conflicts(a, b) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == a; assert(conflict_part(g, v[i].1, pt[i])); assert(pt[i].contains((a, b))); }
  }
}
pub proof fn lemma_parts(g: G<'_>, v: Seq<(MoveablePath, MoveablePath)>, s: Seq<(Path, Path)>)
  requires v == g.polonius_input_facts.child_path@, s.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> s[i] == (g.mpath((#[trigger] v[i]).0), g.mpath(v[i].1))
  ensures is_parts(g, s.to_set())
{
  assert forall|a: Path, b: Path| #![trigger s.to_set().contains((a, b))] #![trigger g.part_of(a, b)] s.to_set().contains((a, b)) <==> g.part_of(a, b) by {
    if s.contains((a, b)) { let i = choose|i: int| 0 <= i < s.len() && s[i] == (a, b); assert(v[i] == g.polonius_input_facts.child_path@[i]); }
    if g.part_of(a, b) { let i = choose|i: int| 0 <= i < v.len() && a == g.mpath((#[trigger] v[i]).0) && b == g.mpath(v[i].1); assert(s[i] == (a, b)); }
  }
}
pub proof fn lemma_moves(g: G<'_>, h: Seq<(Move, &MoveOut)>, s: Seq<(Move, Point)>)
  requires forall|k: int| 0 <= k < h.len() ==> g.move_data.moves.has((#[trigger] h[k]).0) && *h[k].1 == g.move_data.moves.at(h[k].0),
    forall|m: Move| #[trigger] g.move_data.moves.has(m) ==> exists|k: int| 0 <= k < h.len() && (#[trigger] h[k]).0 == m, s.len() == h.len(), forall|i: int| 0 <= i < h.len() ==> s[i] == ((#[trigger] h[i]).0, g.start(h[i].1.source))
  ensures is_moves(g, s.to_set())
{
  assert forall|a: Move, b: Point| #![trigger s.to_set().contains((a, b))] #![trigger g.gone_first(a, b)] s.to_set().contains((a, b)) <==> g.gone_first(a, b) by {
    if s.contains((a, b)) { let i = choose|i: int| 0 <= i < s.len() && s[i] == (a, b); assert(h[i].0 == a); }
    if g.gone_first(a, b) { let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).0 == a; assert(s[i] == (a, b)); }
  }
}

// --- the two closures over the graph
pub open spec fn live_steps(g: G<'_>, from: Set<(Move, Point)>, into: Set<(Move, Point)>) -> bool { forall|m: Move, q: Point, pt: Point| #[trigger] from.contains((m, q)) && #[trigger] g.cfg(q, pt) && !g.reassigned(m, pt) ==> into.contains((m, pt)) }
pub open spec fn unset_steps(g: G<'_>, from: Set<(Path, Point)>, into: Set<(Path, Point)>) -> bool { forall|c: Path, p: Path, pt: Point| #[trigger] from.contains((c, pt)) && #[trigger] g.part_of(c, p) ==> into.contains((p, pt)) }
pub open spec fn only_gone(g: G<'_>, s: Set<(Move, Point)>) -> bool { forall|m: Move, pt: Point| #[trigger] s.contains((m, pt)) ==> g.gone(m, pt) }
pub open spec fn only_unset(g: G<'_>, s: Set<(Path, Point)>) -> bool { forall|p: Path, pt: Point| #[trigger] s.contains((p, pt)) ==> g.unset(p, pt) }
pub open spec fn live_inv(g: G<'_>, v: Var<(Move, Point)>) -> bool {
  only_gone(g, v.all()) && live_steps(g, v.stable() + v.recent(), v.all()) && forall|m: Move, pt: Point| #[trigger] g.gone_first(m, pt) ==> v.all().contains((m, pt))
}
pub open spec fn unset_inv(g: G<'_>, v: Var<(Path, Point)>) -> bool {
  only_unset(g, v.all()) && unset_steps(g, v.stable() + v.recent(), v.all()) && forall|p: Path, pt: Point| #[trigger] g.unset_first(p, pt) ==> v.all().contains((p, pt))
}
pub proof fn lemma_live_start(g: G<'_>, v: Var<(Move, Point)>) requires v.stable() == Set::<(Move, Point)>::empty(), v.recent() == Set::<(Move, Point)>::empty(), is_moves(g, v.pending()) ensures live_inv(g, v)
{ assert forall|m: Move, pt: Point| #[trigger] v.all().contains((m, pt)) implies g.gone(m, pt) by { assert(v.pending().contains((m, pt))); assert(g.gone_first(m, pt)); assert(g.gone_along(seq![pt], m, pt)); }
  assert forall|m: Move, pt: Point| #[trigger] g.gone_first(m, pt) implies v.all().contains((m, pt)) by { assert(v.pending().contains((m, pt))); } }
pub proof fn lemma_unset_start(g: G<'_>, v: Var<(Path, Point)>) requires v.stable() == Set::<(Path, Point)>::empty(), v.recent() == Set::<(Path, Point)>::empty(), is_first_unset(g, v.pending()) ensures unset_inv(g, v)
{ assert forall|m: Path, pt: Point| #[trigger] v.all().contains((m, pt)) implies g.unset(m, pt) by { assert(v.pending().contains((m, pt))); assert(g.unset_first(m, pt)); assert(g.unset_along(seq![m], m, pt)); }
  assert forall|m: Path, pt: Point| #[trigger] g.unset_first(m, pt) implies v.all().contains((m, pt)) by { assert(v.pending().contains((m, pt))); } }
/// a round of the iteration, and the rule applied to what was recent
pub proof fn lemma_live_round(g: G<'_>, a: Var<(Move, Point)>, b: Var<(Move, Point)>, c: Var<(Move, Point)>, edges: Set<(Point, Point)>, new: Set<(Move, Point)>)
  requires live_inv(g, a), round(a, b), c.stable() == b.stable(), c.recent() == b.recent(), c.pending() == b.pending() + new, is_edges(g, edges),
    leaps(b.recent(), edges, new, |t: (Move, Point)| t.1, |t: (Move, Point), v: Point| !g.reassigned(t.0, v), |t: (Move, Point), v: Point| (t.0, v)),
  ensures live_inv(g, c)
{
  let key = |t: (Move, Point)| t.1; let out = |t: (Move, Point), v: Point| (t.0, v);
  assert forall|m: Move, pt: Point| a.all().contains((m, pt)) implies #[trigger] c.all().contains((m, pt)) by { if !b.stable().contains((m, pt)) { assert(a.pending().contains((m, pt))); assert(b.recent().contains((m, pt))); } }
  assert forall|m: Move, pt: Point| #[trigger] c.all().contains((m, pt)) implies g.gone(m, pt) by {
    if new.contains((m, pt)) {
      let (t, v) = choose|t: (Move, Point), v: Point| #![trigger b.recent().contains(t), edges.contains((key(t), v))] b.recent().contains(t) && edges.contains((key(t), v)) && !g.reassigned(t.0, v) && (m, pt) == out(t, v);
      assert(t == (m, t.1)); assert(a.pending().contains(t)); assert(a.all().contains((m, t.1))); assert(g.gone(m, t.1)); assert(g.cfg(t.1, pt));
      lemma_gone_on(g, m, t.1, pt);
    } else { assert(a.all().contains((m, pt))); }
  }
  assert forall|m: Move, q: Point, pt: Point| #[trigger] (c.stable() + c.recent()).contains((m, q)) && #[trigger] g.cfg(q, pt) && !g.reassigned(m, pt) implies c.all().contains((m, pt)) by {
    if b.stable().contains((m, q)) { assert((a.stable() + a.recent()).contains((m, q))); assert(a.all().contains((m, pt))); assert(c.all().contains((m, pt))); }
    else { let t = (m, q); assert(b.recent().contains(t)); assert(edges.contains((key(t), pt))); assert(new.contains(out(t, pt))); }
  }
  assert forall|m: Move, pt: Point| #[trigger] g.gone_first(m, pt) implies c.all().contains((m, pt)) by { assert(a.all().contains((m, pt))); }
}
pub proof fn lemma_gone_on(g: G<'_>, m: Move, q: Point, pt: Point) requires g.gone(m, q), g.cfg(q, pt), !g.reassigned(m, pt) ensures g.gone(m, pt)
{ let s = choose|s: Seq<Point>| #[trigger] g.gone_along(s, m, q); let t = s.push(pt); assert forall|i: int| 0 <= i < t.len() - 1 implies g.gone_step(m, #[trigger] t[i], t[i + 1]) by { if i < s.len() - 1 { assert(g.gone_step(m, s[i], s[i + 1])); } } assert(g.gone_along(t, m, pt)); }
pub proof fn lemma_unset_on(g: G<'_>, c: Path, p: Path, pt: Point) requires g.unset(c, pt), g.part_of(c, p) ensures g.unset(p, pt)
{ let s = choose|s: Seq<Path>| #[trigger] g.unset_along(s, c, pt); let t = s.push(p); assert forall|i: int| 0 <= i < t.len() - 1 implies g.part_of(#[trigger] t[i], t[i + 1]) by { if i < s.len() - 1 { assert(g.part_of(s[i], s[i + 1])); } } assert(g.unset_along(t, p, pt)); }
pub proof fn lemma_unset_round(g: G<'_>, a: Var<(Path, Point)>, b: Var<(Path, Point)>, c: Var<(Path, Point)>, parts: Set<(Path, Path)>, new: Set<(Path, Point)>)
  requires unset_inv(g, a), round(a, b), c.stable() == b.stable(), c.recent() == b.recent(), c.pending() == b.pending() + new, is_parts(g, parts),
    pairs(b.recent(), parts, new, |k: Path, x: Point, y: Path| (y, x)),
  ensures unset_inv(g, c)
{
  let out = |k: Path, x: Point, y: Path| (y, x);
  assert forall|m: Path, pt: Point| a.all().contains((m, pt)) implies #[trigger] c.all().contains((m, pt)) by { if !b.stable().contains((m, pt)) { assert(a.pending().contains((m, pt))); assert(b.recent().contains((m, pt))); } }
  assert forall|m: Path, pt: Point| #[trigger] c.all().contains((m, pt)) implies g.unset(m, pt) by {
    if new.contains((m, pt)) {
      let (k, x, y) = choose|k: Path, x: Point, y: Path| #[trigger] b.recent().contains((k, x)) && #[trigger] parts.contains((k, y)) && (m, pt) == out(k, x, y);
      assert(a.pending().contains((k, x))); assert(a.all().contains((k, pt))); assert(g.unset(k, pt)); assert(g.part_of(k, m));
      lemma_unset_on(g, k, m, pt);
    } else { assert(a.all().contains((m, pt))); }
  }
  assert forall|k: Path, p: Path, pt: Point| #[trigger] (c.stable() + c.recent()).contains((k, pt)) && #[trigger] g.part_of(k, p) implies c.all().contains((p, pt)) by {
    if b.stable().contains((k, pt)) { assert((a.stable() + a.recent()).contains((k, pt))); assert(a.all().contains((p, pt))); assert(c.all().contains((p, pt))); }
    else { assert(b.recent().contains((k, pt))); assert(parts.contains((k, p))); assert(new.contains(out(k, pt, p))); }
  }
  assert forall|m: Path, pt: Point| #[trigger] g.unset_first(m, pt) implies c.all().contains((m, pt)) by { assert(a.all().contains((m, pt))); }
}
/// nothing recent and nothing pending after a round: the rule's least fixed point is reached
pub proof fn lemma_live_done(g: G<'_>, a: Var<(Move, Point)>, b: Var<(Move, Point)>) requires live_inv(g, a), round(a, b), b.recent() == Set::<(Move, Point)>::empty() ensures is_gone(g, b.stable())
{
  let s = b.stable();
  assert forall|m: Move, pt: Point| a.all().contains((m, pt)) implies #[trigger] s.contains((m, pt)) by { if !s.contains((m, pt)) { assert(a.pending().contains((m, pt))); assert(b.recent().contains((m, pt))); } }
  assert forall|m: Move, pt: Point| #[trigger] s.contains((m, pt)) implies g.gone(m, pt) by { assert(a.all().contains((m, pt))); }
  assert forall|m: Move, pt: Point| #[trigger] g.gone(m, pt) implies s.contains((m, pt)) by { let c = choose|c: Seq<Point>| #[trigger] g.gone_along(c, m, pt); lemma_gone_least(g, a, s, c, c.len() - 1, m, pt); }
}
pub proof fn lemma_gone_least(g: G<'_>, a: Var<(Move, Point)>, s: Set<(Move, Point)>, c: Seq<Point>, k: int, m: Move, pt: Point)
  requires live_inv(g, a), s == a.stable() + a.recent(), g.gone_along(c, m, pt), 0 <= k < c.len(), forall|m: Move, pt: Point| a.all().contains((m, pt)) ==> #[trigger] s.contains((m, pt))
  ensures s.contains((m, c[k])) decreases k
{
  if k == 0 { assert(a.all().contains((m, c[0]))); }
  else { lemma_gone_least(g, a, s, c, k - 1, m, pt); assert((a.stable() + a.recent()).contains((m, c[k - 1]))); assert(g.gone_step(m, c[k - 1], c[k - 1 + 1])); assert(a.all().contains((m, c[k]))); }
}
pub proof fn lemma_unset_done(g: G<'_>, a: Var<(Path, Point)>, b: Var<(Path, Point)>) requires unset_inv(g, a), round(a, b), b.recent() == Set::<(Path, Point)>::empty() ensures is_unset(g, b.stable())
{
  let s = b.stable();
  assert forall|m: Path, pt: Point| a.all().contains((m, pt)) implies #[trigger] s.contains((m, pt)) by { if !s.contains((m, pt)) { assert(a.pending().contains((m, pt))); assert(b.recent().contains((m, pt))); } }
  assert forall|m: Path, pt: Point| #[trigger] s.contains((m, pt)) implies g.unset(m, pt) by { assert(a.all().contains((m, pt))); }
  assert forall|m: Path, pt: Point| #[trigger] g.unset(m, pt) implies s.contains((m, pt)) by { let c = choose|c: Seq<Path>| #[trigger] g.unset_along(c, m, pt); lemma_unset_least(g, a, s, c, c.len() - 1, m, pt); }
}
pub proof fn lemma_unset_least(g: G<'_>, a: Var<(Path, Point)>, s: Set<(Path, Point)>, c: Seq<Path>, k: int, p: Path, pt: Point)
  requires unset_inv(g, a), s == a.stable() + a.recent(), g.unset_along(c, p, pt), 0 <= k < c.len(), forall|m: Path, pt: Point| a.all().contains((m, pt)) ==> #[trigger] s.contains((m, pt))
  ensures s.contains((c[k], pt)) decreases k
{
  if k == 0 { assert(a.all().contains((c[0], pt))); }
  else { lemma_unset_least(g, a, s, c, k - 1, p, pt); assert((a.stable() + a.recent()).contains((c[k - 1], pt))); assert(g.part_of(c[k - 1], c[k - 1 + 1])); assert(a.all().contains((c[k], pt))); }
}
pub proof fn lemma_first_unset(g: G<'_>, left: Set<(Point, Path)>, edges: Set<(Point, Point)>, new: Set<(Path, Point)>)
  requires is_left(g, left), is_edges(g, edges), pairs(left, edges, new, |k: Point, a: Path, b: Point| (a, b)) ensures is_first_unset(g, new)
{
  let out = |k: Point, a: Path, b: Point| (a, b);
  assert forall|p: Path, pt: Point| #![trigger new.contains((p, pt))] #![trigger g.unset_first(p, pt)] new.contains((p, pt)) <==> g.unset_first(p, pt) by {
    if new.contains((p, pt)) { let (k, a, b) = choose|k: Point, a: Path, b: Point| #[trigger] left.contains((k, a)) && #[trigger] edges.contains((k, b)) && (p, pt) == out(k, a, b); assert(g.left_unset(k, p) && g.cfg(k, pt)); }
    if g.unset_first(p, pt) { let q = choose|q: Point| #[trigger] g.left_unset(q, p) && g.cfg(q, pt); assert(left.contains((q, p)) && edges.contains((q, pt))); assert(new.contains(out(q, p, pt))); }
  }
}
pub proof fn lemma_shift(g: G<'_>, gone: Set<(Move, Point)>, edges: Set<(Point, Point)>, new: Set<(Move, Point)>)
  requires is_gone(g, gone), is_edges(g, edges), leaps(gone, edges, new, |t: (Move, Point)| t.1, |t: (Move, Point), v: Point| true, |t: (Move, Point), v: Point| (t.0, v)) ensures is_moved(g, new)
{
  let key = |t: (Move, Point)| t.1; let out = |t: (Move, Point), v: Point| (t.0, v);
  assert forall|m: Move, pt: Point| #![trigger new.contains((m, pt))] #![trigger g.moved(m, pt)] new.contains((m, pt)) <==> g.moved(m, pt) by {
    if new.contains((m, pt)) { let (t, v) = choose|t: (Move, Point), v: Point| #![trigger gone.contains(t), edges.contains((key(t), v))] gone.contains(t) && edges.contains((key(t), v)) && (m, pt) == out(t, v);
      assert(t == (m, t.1)); assert(g.gone(m, t.1) && g.cfg(t.1, pt)); }
    if g.moved(m, pt) { let q = choose|q: Point| #[trigger] g.gone(m, q) && g.cfg(q, pt); let t = (m, q); assert(gone.contains(t) && edges.contains((key(t), pt))); assert(new.contains(out(t, pt))); }
  }
}
/// a conflict and a point where it counts
pub proof fn lemma_meet<L>(con: Set<(L, Path)>, live: Set<(L, Point)>, new: Set<(Path, L, Point)>, f: spec_fn(L, Path) -> bool, h: spec_fn(L, Point) -> bool, w: spec_fn(L, Path, Point) -> bool)
  requires pairs(con, live, new, |k: L, a: Path, b: Point| (a, k, b)), forall|l: L, p: Path| #[trigger] con.contains((l, p)) <==> f(l, p), forall|l: L, pt: Point| #[trigger] live.contains((l, pt)) <==> h(l, pt),
    forall|l: L, p: Path, pt: Point| #[trigger] w(l, p, pt) <==> f(l, p) && h(l, pt),
  ensures is_rel(new, w)
{
  let out = |k: L, a: Path, b: Point| (a, k, b);
  assert forall|p: Path, l: L, pt: Point| #![trigger new.contains((p, l, pt))] #![trigger w(l, p, pt)] new.contains((p, l, pt)) <==> w(l, p, pt) by {
    if new.contains((p, l, pt)) { let (k, a, b) = choose|k: L, a: Path, b: Point| #[trigger] con.contains((k, a)) && #[trigger] live.contains((k, b)) && (p, l, pt) == out(k, a, b); assert(w(l, p, pt)); }
    if w(l, p, pt) { assert(con.contains((l, p)) && live.contains((l, pt))); assert(new.contains(out(l, p, pt))); }
  }
}
pub proof fn lemma_meet_mut(g: G<'_>, con: Set<(Loan, Path)>, live: Set<(Loan, Point)>, new: Set<(Path, Loan, Point)>)
  requires is_conflict(g, con), is_live(g, live), leaps(con, live, new, |t: (Loan, Path)| t.0, |t: (Loan, Path), v: Point| g.mutable(t.0), |t: (Loan, Path), v: Point| (t.1, t.0, v)),
  ensures is_rel(new, w_read(g))
{
  let key = |t: (Loan, Path)| t.0; let out = |t: (Loan, Path), v: Point| (t.1, t.0, v); let w = w_read(g);
  assert forall|p: Path, l: Loan, pt: Point| #![trigger new.contains((p, l, pt))] #![trigger w(l, p, pt)] new.contains((p, l, pt)) <==> w(l, p, pt) by {
    if new.contains((p, l, pt)) { let (t, v) = choose|t: (Loan, Path), v: Point| #![trigger con.contains(t), live.contains((key(t), v))] con.contains(t) && live.contains((key(t), v)) && g.mutable(t.0) && (p, l, pt) == out(t, v);
      assert(t == (l, p)); assert(g.conflicts(l, p) && g.loan_live(l, pt)); }
    if w(l, p, pt) { let t = (l, p); assert(con.contains(t) && live.contains((key(t), pt))); assert(new.contains(out(t, pt))); }
  }
}
pub proof fn lemma_meet_lends(g: G<'_>, con: Set<(Loan, Path)>, live: Set<(Loan, Point)>, new: Set<(Path, Loan, Point)>)
  requires is_conflict(g, con), is_live(g, live), pairs(con, live, new, |k: Loan, a: Path, b: Point| (a, k, b)) ensures is_rel(new, w_lends(g))
{ lemma_meet(con, live, new, |l: Loan, p: Path| g.conflicts(l, p), |l: Loan, pt: Point| g.loan_live(l, pt), w_lends(g)); }
pub proof fn lemma_meet_takes(g: G<'_>, con: Set<(Move, Path)>, live: Set<(Move, Point)>, new: Set<(Path, Move, Point)>)
  requires is_touch(g, con), is_moved(g, live), pairs(con, live, new, |k: Move, a: Path, b: Point| (a, k, b)) ensures is_rel(new, w_takes(g))
{ lemma_meet(con, live, new, |l: Move, p: Path| g.touches(l, p), |l: Move, pt: Point| g.moved(l, pt), w_takes(g)); }
/// filing the tuples of a relation
pub proof fn lemma_filed<L>(m: Map<Point, HashMap<Path, L>>, s: Seq<(Path, L, Point)>, w: spec_fn(L, Path, Point) -> bool) requires filing(m, s, s.len() as int), is_rel(s.to_set(), w) ensures filed(m, w)
{
  assert forall|pt: Point, p: Path| #![trigger m[pt]@[p]] #![trigger m[pt]@.contains_key(p)] m.contains_key(pt) && m[pt]@.contains_key(p) implies w(m[pt]@[p], p, pt) by { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (p, m[pt]@[p], pt); assert(s.to_set().contains((p, m[pt]@[p], pt))); }
  assert forall|l: L, p: Path, pt: Point| #[trigger] w(l, p, pt) implies m.contains_key(pt) && m[pt]@.contains_key(p) by { assert(s.to_set().contains((p, l, pt))); let i = choose|i: int| 0 <= i < s.len() && s[i] == (p, l, pt); assert(s[i].2 == pt); }
}
pub proof fn lemma_file<L>(m: Map<Point, HashMap<Path, L>>, m2: Map<Point, HashMap<Path, L>>, s: Seq<(Path, L, Point)>, n: int)
  requires 0 <= n < s.len(), filing(m, s, n), m2[s[n].2]@ == (if m.contains_key(s[n].2) { m[s[n].2]@ } else { Map::<Path, L>::empty() }).insert(s[n].0, s[n].1), m2 == m.insert(s[n].2, m2[s[n].2]) ensures filing(m2, s, n + 1)
{
  assert forall|pt: Point, p: Path| #![trigger m2[pt]@[p]] #![trigger m2[pt]@.contains_key(p)] m2.contains_key(pt) && m2[pt]@.contains_key(p) implies exists|i: int| 0 <= i < n + 1 && #[trigger] s[i] == (p, m2[pt]@[p], pt) by {
    if pt == s[n].2 && p == s[n].0 { assert(s[n] == (p, m2[pt]@[p], pt)); }
    else { assert(m.contains_key(pt) && m[pt]@.contains_key(p) && m[pt]@[p] == m2[pt]@[p]); }
  }
  assert forall|i: int| 0 <= i < n + 1 implies m2.contains_key((#[trigger] s[i]).2) && m2[s[i].2]@.contains_key(s[i].0) by { if i < n { assert(m.contains_key(s[i].2)); } }
}
pub proof fn lemma_file_set(m: Map<Point, HashSet<Path>>, m2: Map<Point, HashSet<Path>>, s: Seq<(Path, Point)>, n: int)
  requires 0 <= n < s.len(), filing_set(m, s, n), m2[s[n].1]@ == (if m.contains_key(s[n].1) { m[s[n].1]@ } else { Set::<Path>::empty() }).insert(s[n].0), m2 == m.insert(s[n].1, m2[s[n].1]) ensures filing_set(m2, s, n + 1)
{
  assert forall|pt: Point, p: Path| #![trigger m2[pt]@.contains(p)] m2.contains_key(pt) && m2[pt]@.contains(p) implies exists|i: int| 0 <= i < n + 1 && #[trigger] s[i] == (p, pt) by {
    if pt == s[n].1 && p == s[n].0 { assert(s[n] == (p, pt)); } else { assert(m.contains_key(pt) && m[pt]@.contains(p)); }
  }
  assert forall|i: int| 0 <= i < n + 1 implies m2.contains_key((#[trigger] s[i]).1) && m2[s[i].1]@.contains(s[i].0) by { if i < n { assert(m.contains_key(s[i].1)); } }
}
pub proof fn lemma_file_vec(m: Map<Point, Vec<Move>>, m2: Map<Point, Vec<Move>>, s: Seq<(Move, Point)>, n: int)
  requires 0 <= n < s.len(), filing_vec(m, s, n), m2[s[n].1]@ == (if m.contains_key(s[n].1) { m[s[n].1]@ } else { Seq::<Move>::empty() }).push(s[n].0), m2 == m.insert(s[n].1, m2[s[n].1]) ensures filing_vec(m2, s, n + 1)
{
  let x = if m.contains_key(s[n].1) { m[s[n].1]@ } else { Seq::<Move>::empty() }; let y = m2[s[n].1]@;
  assert(forall|z: Move| y.contains(z) <==> x.contains(z) || z == s[n].0) by {
    assert forall|z: Move| y.contains(z) <==> x.contains(z) || z == s[n].0 by {
      if x.contains(z) { let i = choose|i: int| 0 <= i < x.len() && x[i] == z; assert(y[i] == z); }
      if z == s[n].0 { assert(y[x.len() as int] == z); } } }
  assert forall|pt: Point, p: Move| #![trigger m2[pt]@.contains(p)] m2.contains_key(pt) && m2[pt]@.contains(p) implies exists|i: int| 0 <= i < n + 1 && #[trigger] s[i] == (p, pt) by {
    if pt == s[n].1 && p == s[n].0 { assert(s[n] == (p, pt)); } else { assert(m.contains_key(pt) && m[pt]@.contains(p)); }
  }
  assert forall|i: int| 0 <= i < n + 1 implies m2.contains_key((#[trigger] s[i]).1) && m2[s[i].1]@.contains(s[i].0) by { if i < n { assert(m.contains_key(s[i].1)); } }
}
"""


COMPUTE = r"""
impl<'tcx> G<'tcx> {
  /// The facts read are rustc's own for this body: the borrow checker's input, its naive analysis of that, every move, every borrow.
  pub open spec fn from_rustc(&self, tcx: TyCtxt<'tcx>, id: BodyId, b: &BodyWithBorrowckFacts<'tcx>) -> bool {
    &&& self.tcx == tcx && self.def_id == global_id(owner(id)) && self.body_with_facts == *b
    &&& b.input_facts is Some && self.polonius_input_facts == *b.input_facts->Some_0 && self.polonius_output == solution(*b.input_facts->Some_0)
    &&& self.move_data == all_moves(b.body, tcx) && self.borrow_set == all_borrows(tcx, b.body, callable(owner(id)), all_moves(b.body, tcx))
  }
}
/// what rustc says of a body is about its places (see ASSUMPTIONS)
pub open spec fn rustc_is_sound<'tcx>(tcx: TyCtxt<'tcx>, id: BodyId, b: &BodyWithBorrowckFacts<'tcx>) -> bool { forall|g: G<'tcx>| #[trigger] g.from_rustc(tcx, id, b) ==> g.sound() }
impl<'tcx> PermissionsCtxt<'tcx> {
  #[verifier::external_body] pub fn construct_loan_regions(&mut self) ensures *final(self) == (PermissionsCtxt { loan_regions: final(self).loan_regions, ..*old(self) }) { unimplemented!() }
}
#[verifier::external_body] pub fn vp_compute_flows<'tcx>(ctxt: &mut PermissionsCtxt<'tcx>) ensures *final(ctxt) == (PermissionsCtxt { region_flows: final(ctxt).region_flows, ..*old(ctxt) }) { unimplemented!() }
"""


def split_args(text, i):
    """Arguments of the call whose opening parenthesis is at i, and where it closes."""
    depth, args, st, j = 0, [], i + 1, i
    bar = False
    while True:
        ch = text[j]
        if ch == "/" and text[j + 1] == "/":
            j = text.index("\n", j)
            continue
        if ch == '"':
            j = text.index('"', j + 1) + 1
            continue
        if ch in "([{":
            depth += 1
        elif ch in ")]}":
            depth -= 1
            if depth == 0:
                args.append(text[st:j])
                return [a.strip() for a in args if a.strip()], j
        elif ch == "|" and depth == 1 and not (text[j + 1] == "|" or text[j - 1] == "|"):
            bar = not bar
        elif ch == "," and depth == 1 and not bar and not generic(text, st, j):
            args.append(text[st:j])
            st = j + 1
        j += 1


def generic(text, st, j):
    """A comma after `<` of a written type (closure results): not one between arguments."""
    seg = text[st:j]
    k = seg.rfind("-> (")
    return False if k < 0 else seg.count("<", k) > seg.count(">", k + 2) + seg.count("==>", k) * 0 and "{" not in seg[k:]


PARAMS = {
    "C": ("vp_c: &'a PermissionsCtxt<'tcx>", "", "vp_c"),
    "I": ("ictxt: &'a PermissionsCtxt<'tcx>", "*ictxt == *vp_c", "ictxt"),
    "B": ("body: &'a Body<'tcx>", "*body == vp_c.g().body()", "body"),
    "T": ("tcx: TyCtxt<'tcx>", "tcx == vp_c.tcx", "tcx"),
    "D": ("def_id: LocalDefId", "global_id(def_id) == vp_c.def_id", "def_id"),
    "S": ("", "vp_c.g().sound()", ""),
    "K": ("", "vp_c.g().all_known()", ""),
    "P": ("places: &'a Vec<Place<'tcx>>", "forall|pl: Place<'_>| #[trigger] places@.contains(pl) <==> vp_c.g().known(pl)", "&places"),
}
for _x, _ty, _is in (("cfg_edge", "(Point, Point)", "is_edges"), ("path_maybe_uninitialized_on_exit", "(Point, Path)", "is_left"), ("move_conflicts_with", "(Move, Path)", "is_touch"), ("child_path", "(Path, Path)", "is_parts"),
                     ("loan_conflicts_with", "(Loan, Path)", "is_conflict"), ("loan_live_at", "(Loan, Point)", "is_live")):
    PARAMS[_x] = (f"{_x}: &'a Relation<{_ty}>", f"{_is}(vp_c.g(), {_x}.set())", "&" + _x)
PARAMS["path"] = ("path: Path", "", "path")
PARAMS["gone"] = ("move_live_at: &'a Relation<(Move, Point)>", "is_gone(vp_c.g(), move_live_at.set())", "&move_live_at")
PARAMS["moved"] = ("move_live_at: &'a Relation<(Move, Point)>", "is_moved(vp_c.g(), move_live_at.set())", "&move_live_at")
HIDE = ["live_inv", "unset_inv", "is_edges", "is_parts", "is_left", "is_gone", "is_unset", "is_first_unset", "is_moves", "leaps", "pairs", "round", "joined", "paired"]
RELS = ["is_edges", "is_gone", "is_moved", "is_conflict", "is_live", "is_touch", "is_rel", "leaps", "pairs", "joined", "paired"]
TYPES = {}
FIX = ("path_maybe_uninitialized_on_entry", "move_live_at")
REL = r"&?{}"


def inner(proof):
    return lambda body: f"let vp_b = {{ {body} }}; proof {{ {proof} }} vp_b"


def touch(body):
    """The two halves of the chain named."""
    m = re.search(r"\.chain\(", body)
    f = re.search(r"(?m)^\s*place\s*\.interior_paths", body)
    if not m or not f:
        raise rsx.Lost("derive_permission_facts: move conflicts made in a new way")
    (g,), e = split_args(body, m.end() - 1)
    k1, k2 = re.search(r"\.map\(", body[f.start():]), re.search(r"\.map\(", g)
    if body[e + 1:].strip() or not k1 or not k2 or f.start() + k1.start() > m.start():
        raise rsx.Lost("derive_permission_facts: move conflicts made in a new way")
    i = f.start() + k1.start()
    return (body[:f.start()] + f"let vp_a = {body[f.start():i].strip()}; proof {{ assert forall|q: int| 0 <= q < vp_a.s().len() implies vp_k.registered(#[trigger] vp_a.s()[q]) by {{ assert(vp_a.s().to_set().contains(vp_a.s()[q])); }} }} let ghost vp_sa = vp_a.s(); let vp_x = vp_a{body[i:m.start()]}; "
            f"let vp_e = {g[:k2.start()].strip()}; let ghost vp_se = vp_e.s(); let vp_y = vp_e{g[k2.start():]}; let ghost vp_sx = vp_x.s(); let ghost vp_sy = vp_y.s(); let vp_b = vp_x.chain(vp_y); "
            "proof { let vp_u = Seq::new(vp_se.len(), |i: int| vp_se[i].0); let vp_q = vp_k.move_data.move_paths.at(vp_k.move_data.moves.at(vp_c0.0).path).above(vp_k.move_data.move_paths); "
            "assert forall|q: MoveablePath| #[trigger] vp_u.contains(q) <==> vp_q.contains(q) by { if vp_u.contains(q) { let i = choose|i: int| 0 <= i < vp_u.len() && vp_u[i] == q; assert(vp_se[i].0 == q); } if vp_q.contains(q) { let k = choose|k: int| 0 <= k < vp_se.len() && (#[trigger] vp_se[k]).0 == q; assert(vp_u[k] == q); } } "
            "lemma_touch_part(vp_k, vp_c0.0, vp_sa, vp_u, vp_sx, vp_sy); } vp_b")


INNER = {
    "path_maybe_uninitialized_on_exit": inner("lemma_left_part(vp_k, *vp_c0.0, vp_c0.1@, vp_b.s());"),
    "loan_live_at": inner("lemma_live_part(*vp_c0.0, vp_c0.1@, vp_b.s());"),
    "loan_conflicts_with": inner("lemma_conflict_part(vp_k, vp_c0.1, places@, vp_b.opts());"),
    "move_conflicts_with": touch,
}


class Joins:
    """Names the parts of each relation made, and expands the local macro, so that ghost text can speak about them."""

    def __init__(self, proofs):
        self.proofs = proofs
        self.cut = []

    def __repr__(self):
        return "<the parts of each datafrog call named by a let; the local macro expanded>"

    def __call__(self, m):
        self.cut = []
        t = m.group(0)
        if "let ghost vp_k" not in t:  # the text before it is annotated
            return t
        self.probe = " assert(false); " if "assert(false);" in t else ""
        t = self.macros(t)
        t = self.relations(t)
        t = self.rules(t)
        t = self.places(t)
        t = self.never(t)
        t = self.fixpoint(t)
        t = self.filings(t)
        return t + "\n" + "\n".join(self.cut)

    def places(self, t):
        m = re.search(r"let places = (body\s*\.all_places[^;]*?)\.chain\(", t)
        if not m:
            raise rsx.Lost("derive_permission_facts: places listed in a new way")
        (g,), e = split_args(t, m.end() - 1)
        m2 = re.match(r"\s*\.chain\(", t[e + 1:])
        if not m2:
            raise rsx.Lost("derive_permission_facts: places listed in a new way")
        (w,), e = split_args(t, e + m2.end())
        m3 = re.match(r"\s*\.collect::<Vec<_>>\(\);", t[e + 1:])
        k, k2 = re.search(r"\.map\(", g), re.search(r"\.flat_map\(", w)
        if not m3 or not k or not k2:
            raise rsx.Lost("derive_permission_facts: places listed in a new way")
        f2 = w[k2.start():]
        c = re.search(r"-> \(b: Vec<Place<'_>>\) ensures [^{]*\{", f2)
        if not c:
            raise rsx.Lost("derive_permission_facts: places listed in a new way")
        _, e3 = split_args(f2, c.end() - 1)
        f2 = f2[:c.end()] + f" let vp_b = {{ {f2[c.end():e3]} }}; proof {{ lemma_set(vp_b@); }} vp_b " + f2[e3:]
        body = (f"let vp_a = {m.group(1)}; let ghost vp_sa = vp_a.s(); let vp_h = {g[:k.start()]}; let ghost vp_sh = vp_h.s(); let vp_y = vp_h{g[k.start():]}; let ghost vp_sy = vp_y.s(); "
                f"let vp_w = {w[:k2.start()]}; let ghost vp_sw = vp_w.s(); let vp_z = vp_w{f2}; let ghost vp_pz = vp_z.parts(); let ghost vp_sz = vp_z.s(); let places = vp_a.chain(vp_y).chain(vp_z).collect::<Vec<_>>(); "
                "proof { lemma_flat_of(vp_pz); assert forall|i: int| 0 <= i < vp_sw.len() implies in_part(vp_k, *(#[trigger] vp_sw[i]), vp_pz[i]) by {} lemma_places(vp_k, vp_sa, vp_sh, vp_sy, vp_sw, vp_pz, vp_sz); } places")
        call = self.outline("vp_places", "C B T D", "(vp_r: Vec<Place<'tcx>>)", "forall|pl: Place<'_>| #[trigger] vp_r@.contains(pl) <==> vp_c.g().known(pl)", body)
        t = t[:m.start()] + f"let places = {call};" + t[e + 1 + m3.end():]
        m = re.search(r"let paths =\s*\{", t)
        _, e = split_args(t, m.end() - 1)
        self.cut.append(f"""
fn vp_paths<'tcx>(ctxt: &mut PermissionsCtxt<'tcx>, places: &Vec<Place<'tcx>>) -> (vp_r: Vec<Path>)
  requires old(ctxt).rev_lookup@ == Map::<Local, Vec<Path>>::empty(),
  ensures keeps_but_paths(*old(ctxt), *final(ctxt)), final(ctxt).g().well_listed(), forall|pl: Place<'tcx>| #[trigger] places@.contains(pl) ==> final(ctxt).g().registered(pl),
    forall|l: Local, p: Path| #[trigger] final(ctxt).g().listed(l, p) ==> vp_r@.contains(p), forall|p: Path| #[trigger] vp_r@.contains(p) ==> exists|l: Local| final(ctxt).g().listed(l, p),
{{ {t[m.end():e]} }}
""")
        return t[:m.start()] + "let paths = vp_paths(ctxt, &places)" + t[e + 1:]

    def never(self, t):
        m = re.search(r"let is_never_write = \|(\w+): Path\| -> \(b: bool\) ensures ([^{]*)\{", t)
        if not m:
            raise rsx.Lost("derive_permission_facts: writes by declaration decided in a new way")
        _, e = split_args(t, m.end() - 1)
        body = t[m.end():e]
        f = re.search(r"(?s)(\n\s*)place(\s*\.iter_projections\(\))(\s*\.filter_map\()", body)
        if not f:
            raise rsx.Lost("derive_permission_facts: writes by declaration decided in a new way")
        _, e2 = split_args(body, f.end() - 1)
        k = re.match(r"\s*\.any\(", body[e2 + 1:])
        if not k:
            raise rsx.Lost("derive_permission_facts: writes by declaration decided in a new way")
        _, e3 = split_args(body, e2 + k.end())
        body = (body[:f.start()] + f"{f.group(1)}let vp_h = place{f.group(2)}; let ghost vp_sh = vp_h.s(); let vp_i = vp_h{body[f.start(3):e2 + 1]}; let ghost vp_so = vp_i.opts(); let ghost vp_si = vp_i.s(); let vp_b = vp_i{body[e2 + 1:e3 + 1]}; proof {{ lemma_never(vp_k, {m.group(1)}, vp_sh, vp_so, vp_b); }} vp_b"
                + body[e3 + 1:])
        call = self.outline("vp_is_never_write", "C B T path", "(b: bool)", m.group(2).replace("vp_k", "vp_c.g()"), f"let {m.group(1)} = path; " + body)
        call = call.replace("(vp_c, body, tcx, path)", f"(vp_c, body, tcx, {m.group(1)})")
        t = t[:m.end()] + " " + call + " " + t[e:]
        m = re.search(r"let never_write = (paths\s*\.vp_iter\(\)\s*\.filter_map\()", t)
        if not m:
            raise rsx.Lost("derive_permission_facts: writes by declaration decided in a new way")
        _, e = split_args(t, m.end() - 1)
        k = re.match(r"\s*\.collect::<HashSet<_>>\(\);", t[e + 1:])
        if not k:
            raise rsx.Lost("derive_permission_facts: writes by declaration decided in a new way")
        k = e + 1 + k.end()
        return t[:m.start()] + "let vp_i = " + t[m.start(1):e + 1] + "; let ghost vp_o = vp_i.opts(); let never_write = vp_i" + t[e + 1:k] + " proof { broadcast use group_vp_ext; lemma_kept(vp_k, paths@, vp_o); }" + t[k:]

    def fixpoint(self, t):
        i = re.search(r"let mut iteration = Iteration::new\(\);", t)
        ends = list(re.finditer(r"let (\w+) =\s*(\w+)\.complete\(\);", t))
        if not i or len(ends) != 2 or {m.group(1) for m in ends} != set(FIX):
            raise rsx.Lost("derive_permission_facts: iteration changed")
        a, b = FIX
        body = "let ghost mut vp_first = Set::<(Path, Point)>::empty(); " + t[i.start():ends[1].end()] + f" ({a}, {b})"
        c = re.search(r"while (vp_changed\([^)]*\))", body)
        if not c or "VP_TEST" not in body:
            raise rsx.Lost("derive_permission_facts: iteration changed")
        r = re.search(r"-> \(b: bool\) ensures b == !vp_k\.reassigned\([^{]*\{", body)
        if r:
            _, e = split_args(body, r.end() - 1)
            body = body[:r.end()] + f" broadcast use group_vp_ext; let vp_b = {{ {body[r.end():e]} }}; proof {{ let v = vp_k.polonius_input_facts.path_assigned_at_base@; let rem: Seq<&(MoveablePath, Point)> = vp_refs(v); assert(forall|i: int| 0 <= i < v.len() ==> *(#[trigger] rem[i]) == v[i]); if vp_k.reassigned(vp_c0.0, *vp_c1) {{ let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == *vp_c1 && clash(vp_k.body(), vp_k.place(vp_k.mpath(v[i].0)), vp_k.place(vp_k.mpath(vp_k.move_data.moves.at(vp_c0.0).path))); assert(*rem[i] == v[i]); }} }} vp_b " + body[e:]
            c = re.search(r"while (vp_changed\([^)]*\))", body)
        body = (body[:c.start()] + "loop" + body[c.end():]).replace("VP_TEST;", f"if !{c.group(1)} {{ proof {{ reveal(round); lemma_live_done(vp_k, vp_a1, {b}); lemma_unset_done(vp_k, vp_a2, {a}); }} break; }}")
        call = self.outline("vp_fixpoint", "C B T S K cfg_edge child_path path_maybe_uninitialized_on_exit", "(vp_r: (Relation<(Path, Point)>, Relation<(Move, Point)>))", "is_unset(vp_c.g(), vp_r.0.set()), is_gone(vp_c.g(), vp_r.1.set())", body, HIDE)
        return t[:i.start()] + f"let ({a}, {b}) = {call};" + t[ends[1].end():]

    def filings(self, t):
        while True:
            m = re.search(r"let ghost vp_g(\w+) = \*ctxt; let ghost vp_q = (\w+)\.elements@;", t)
            if not m:
                return t
            i = t.index("{", t.index("for ", m.end()))
            _, e = split_args(t, i)
            x = m.group(2)
            inv = re.search(r"(filing\w*)\(ctxt\.permissions_output\.(\w+)@", t[m.end():i])
            kind, f = inv.groups()
            ty = {"filing": "(Path, {}, Point)".format("Move" if f == "move_refined" else "Loan"), "filing_set": "(Path, Point)", "filing_vec": "(Move, Point)"}[kind]
            if f == "move_refined" and x == "move_refined":
                pass
            body = t[m.start():e + 1]
            self.cut.append(f"\nfn vp_file_{f}(ctxt: &mut PermissionsCtxt<'_>, {x}: &Relation<{ty}>)\n  requires old(ctxt).out().{f}@.dom() =~= Set::<Point>::empty(),\n  ensures keeps_but_{f}(*old(ctxt), *final(ctxt)), {kind}(final(ctxt).out().{f}@, {x}.elements@, {x}.elements@.len() as int)\n{{ {body} }}\n")
            t = t[:m.start()] + f"vp_file_{f}(ctxt, &{x});" + t[e + 1:]

    def macros(self, t):
        m = re.search(r"macro_rules! (\w+) \{\s*\(\$(\w+):expr, \$(\w+):expr\) => \{", t)
        if not m:
            raise rsx.Lost("derive_permission_facts: local macro changed")
        _, e = split_args(t, m.end() - 1)
        body = t[m.end():e]
        rest = t[e + 1:]
        k = re.match(r"\s*;?\s*\}", rest)
        t = t[:m.start()] + rest[k.end():]
        n = [0]

        def expand(c):
            i = t.index("(", c.start())
            a, e = split_args(t, i)
            return a, e
        out, pos = "", 0
        for c in re.finditer(re.escape(m.group(1)) + r"!\(", t):
            a, e = split_args(t, c.end() - 1)
            f = re.sub(r"\s", "", a[1]).split(".")[-1]
            b = body.replace("$" + m.group(2), a[0]).replace("$" + m.group(3), re.sub(r"\s+", "", a[1]))
            b = b.replace("VP_FRAME", frame(f, "vp_g" + f)).replace("VP_G", "vp_g" + f).replace("VP_FIELD", f)
            out += t[pos:c.start()] + "; { " + b + " }"
            pos = e + 1
        return out + t[pos:]

    def relations(self, t):
        for m in reversed(list(re.finditer(r"let (\w+)(: Relation<[^=;]*>)? =\s*Relation::(from_\w+)\(", t))):
            a, e = split_args(t, m.end() - 1)
            x, kind = m.group(1), m.group(3)
            key = (kind, x)
            if key not in self.proofs:
                raise rsx.Lost(f"derive_permission_facts: relation {x} made in a new way")
            params, ens, pr = self.proofs[key]
            ty = (m.group(2) or "")[2:] or TYPES.get(key)
            if kind == "from_iter":
                k = re.search(r"\.(flat_map|map)\(", a[0])
                if not k:
                    raise rsx.Lost(f"derive_permission_facts: relation {x} made in a new way")
                new = f"let vp_h = {a[0][:k.start()].strip()}; let ghost vp_sh = vp_h.s(); let vp_i = vp_h{a[0][k.start():]}; let ghost vp_s = vp_i.s(); let ghost vp_pt = vp_i.parts(); let {x}: {ty} = Relation::from_iter(vp_i); proof {{ {pr} }} {x}"
                new = self.ghosts(new, x)
            elif kind == "from_join":
                new = f"let vp_f = {a[2]}; let vp_r = Relation::from_join({a[0]}, {a[1]}, vp_f); proof {{ {pr} }} vp_r"
            else:
                new = f"let vp_l = {a[1]}; let vp_f = {a[2]}; let vp_r = Relation::from_leapjoin({a[0]}, vp_l, vp_f); proof {{ {pr} }} vp_r"
            name = f"vp_{kind[5:]}_{x}"
            call = self.outline(name, params, f"(vp_r: {ty})", ens, new, () if kind == "from_iter" else RELS)
            t = t[:m.start()] + f"let {x}: {ty} = {call}" + t[e + 1:]
        return t

    def outline(self, name, params, ret, ens, body, hide=()):
        """Statements cut out of the body into a function of their own, called in their place."""
        args, reqs, decls = [], [], []
        for p in params.split():
            d, r, a = PARAMS[p]
            if d:
                decls.append(d)
                args.append(a)
            if r:
                reqs.append(r)
        mp = "proof { lemma_mp(vp_k); }" if "K" in params.split() else ""
        req = ("requires " + ", ".join(reqs) + ",\n  ") if reqs else ""
        self.cut.append(f"\n#[verifier::exec_allows_no_decreases_clause]\nfn {name}<'a, 'tcx>({', '.join(decls)}) -> {ret}\n  {req}ensures {ens}\n{{ {''.join(f'hide({h}); ' for h in hide)}broadcast use group_vp_ext; let ghost vp_k = vp_c.g(); {mp}{self.probe}\n {body} }}\n")
        return f"{name}({', '.join(args)})"

    def ghosts(self, t, x):
        """The result of a closure that yields a chain is named, so that its parts can be spoken of."""
        if x not in INNER:
            return t
        m = re.search(r"-> \(b: It<.*?>\) (?:requires .*? )?ensures [^{]*\{", t)
        if not m:
            raise rsx.Lost(f"derive_permission_facts: relation {x} made in a new way")
        _, e = split_args(t, m.end() - 1)
        body = t[m.end():e]
        return t[:m.end()] + " " + INNER[x](body) + " " + t[e:]

    def rules(self, t):
        for m in reversed(list(re.finditer(r"(\w+)\.(from_join|from_leapjoin)\(", t))):
            if m.group(1) == "Relation":
                continue
            a, e = split_args(t, m.end() - 1)
            src = a[0].lstrip("&").strip()
            new = f"let vp_n = {src}.now(); let vp_l = {a[1]}; let vp_f = {a[2]}; let vp_w = {m.group(1)}.{m.group(2)}(&vp_n, vp_l, vp_f); proof {{ {self.proofs.get((m.group(2), m.group(1), 'rule'), '')} }}"
            t = t[:m.start()] + new + t[e + 1:]
        for m in reversed(list(re.finditer(r"(\w+)\.insert\(Relation::from_join\(", t))):
            a, e = split_args(t, m.end() - 1)
            new = f"let vp_f = {a[2]}; let vp_r = Relation::from_join({a[0]}, {a[1]}, vp_f); proof {{ {self.proofs.get(('from_join', m.group(1), 'insert'), '')} }} {m.group(1)}.insert(vp_r"
            t = t[:m.start()] + new + t[e + 1:]
        for m in reversed(list(re.finditer(r"(\w+)\.extend\(", t))):
            a, e = split_args(t, m.end() - 1)
            k = re.search(r"\.map\(", a[0])
            if not k:
                raise rsx.Lost("derive_permission_facts: first facts made in a new way")
            new = f"let vp_h = {a[0][:k.start()].strip()}; let ghost vp_sh = vp_h.s(); let vp_i = vp_h{a[0][k.start():]}; let ghost vp_s = vp_i.s(); {m.group(1)}.extend(vp_i); proof {{ {self.proofs.get(('extend', m.group(1)), '')} }}"
            t = t[:m.start()] + new + t[e + 1:]
        return t


FIELDS = ["never_write", "loan_read_refined", "loan_write_refined", "loan_drop_refined", "path_maybe_uninitialized_on_entry", "move_refined", "move_live_at"]


KEEPS = "".join(f"""pub open spec fn keeps_but_{f}(a: PermissionsCtxt<'_>, b: PermissionsCtxt<'_>) -> bool {{ b == (PermissionsCtxt {{ permissions_output: Output {{ {f}: b.permissions_output.{f}, ..a.permissions_output }}, ..a }}) }}
""" for f in FIELDS)


def frame(f, g):
    return f"keeps_but_{f}({g}, *ctxt)"


PROOFS = {
    ("from_iter", "cfg_edge"): ("C", "is_edges(vp_c.g(), vp_r.set())", "assert(vp_s =~= vp_k.polonius_input_facts.cfg_edge@); lemma_set(vp_s);"),
    ("from_iter", "path_maybe_uninitialized_on_exit"): ("C S K", "is_left(vp_c.g(), vp_r.set())", "lemma_flat_of(vp_pt); lemma_left(vp_k, vp_sh, vp_pt, vp_s);"),
    ("from_iter", "move_conflicts_with"): ("C I B T D S K", "is_touch(vp_c.g(), vp_r.set())", "lemma_flat_of(vp_pt); lemma_touch(vp_k, vp_sh, vp_pt, vp_s);"),
    ("from_iter", "child_path"): ("C S K", "is_parts(vp_c.g(), vp_r.set())", "lemma_parts(vp_k, vp_k.polonius_input_facts.child_path@, vp_s);"),
    ("from_iter", "loan_conflicts_with"): ("C B T S K P", "is_conflict(vp_c.g(), vp_r.set())", "lemma_flat_of(vp_pt); lemma_conflict(vp_k, vp_k.polonius_input_facts.loan_issued_at@, vp_pt, vp_s);"),
    ("from_iter", "loan_live_at"): ("C", "is_live(vp_c.g(), vp_r.set())", "lemma_flat_of(vp_pt); lemma_live(vp_k, vp_sh, vp_pt, vp_s);"),
    ("extend", "move_live_at"): "lemma_moves(vp_k, vp_sh, vp_s); assert(move_live_at.pending() =~= vp_s.to_set()); lemma_live_start(vp_k, move_live_at);",
    ("from_join", "path_maybe_uninitialized_on_entry", "insert"): "lemma_pairs(path_maybe_uninitialized_on_exit.set(), cfg_edge.set(), vp_f, vp_r.set(), |k: Point, a: Path, b: Point| (a, b)); lemma_first_unset(vp_k, path_maybe_uninitialized_on_exit.set(), cfg_edge.set(), vp_r.set()); vp_first = vp_r.set();",
    ("from_leapjoin", "move_live_at", "rule"): "lemma_leap(vp_n.recent(), vp_l, vp_f, vp_w@, |t: (Move, Point)| t.1, |t: (Move, Point), v: Point| !vp_k.reassigned(t.0, v), |t: (Move, Point), v: Point| (t.0, v)); lemma_live_round(vp_k, vp_a1, vp_b1, move_live_at, cfg_edge.set(), vp_w@);",
    ("from_join", "path_maybe_uninitialized_on_entry", "rule"): "lemma_pairs(vp_n.recent(), child_path.set(), vp_f, vp_w@, |k: Path, x: Point, y: Path| (y, x)); lemma_unset_round(vp_k, vp_a2, vp_b2, path_maybe_uninitialized_on_entry, child_path.set(), vp_w@);",
    ("from_leapjoin", "move_live_at"): ("C gone cfg_edge", "is_moved(vp_c.g(), vp_r.set())", "lemma_hop(move_live_at.set(), vp_l, vp_f, vp_r.set(), |t: (Move, Point)| t.1, |t: (Move, Point), v: Point| (t.0, v)); lemma_shift(vp_k, move_live_at.set(), cfg_edge.set(), vp_r.set());"),
    ("from_leapjoin", "loan_read_refined"): ("C loan_conflicts_with loan_live_at", "is_rel(vp_r.set(), w_read(vp_c.g()))", "lemma_leap(loan_conflicts_with.set(), vp_l, vp_f, vp_r.set(), |t: (Loan, Path)| t.0, |t: (Loan, Path), v: Point| vp_k.mutable(t.0), |t: (Loan, Path), v: Point| (t.1, t.0, v)); lemma_meet_mut(vp_k, loan_conflicts_with.set(), loan_live_at.set(), vp_r.set());"),
}
for _x in ("loan_write_refined", "loan_drop_refined"):
    PROOFS[("from_join", _x)] = ("C loan_conflicts_with loan_live_at", "is_rel(vp_r.set(), w_lends(vp_c.g()))", "lemma_pairs(loan_conflicts_with.set(), loan_live_at.set(), vp_f, vp_r.set(), |k: Loan, a: Path, b: Point| (a, k, b)); lemma_meet_lends(vp_k, loan_conflicts_with.set(), loan_live_at.set(), vp_r.set());")
PROOFS[("from_join", "move_refined")] = ("C move_conflicts_with moved", "is_rel(vp_r.set(), w_takes(vp_c.g()))", "lemma_pairs(move_conflicts_with.set(), move_live_at.set(), vp_f, vp_r.set(), |k: Move, a: Path, b: Point| (a, k, b)); lemma_meet_takes(vp_k, move_conflicts_with.set(), move_live_at.set(), vp_r.set());")

STUBS = STUBS.replace("""ensures r.s().len() == self.s().len(), forall|i: int| 0 <= i < self.s().len() ==> call_ensures(f, (#[trigger] self.s()[i],), r.s()[i]) { unimplemented!() }
  #[verifier::external_body]
  pub fn filter_map""", """ensures r.s().len() == self.s().len(), forall|i: int| #![trigger self.s()[i]] #![trigger r.s()[i]] 0 <= i < self.s().len() ==> call_ensures(f, (self.s()[i],), r.s()[i]) { unimplemented!() }
  #[verifier::external_body]
  pub fn filter_map""").replace("0 <= i < self.s().len() ==> vp_part::<T, V, F>(f, self.s()[i], #[trigger] r.parts()[i])", "#![trigger self.s()[i]] #![trigger r.parts()[i]] 0 <= i < self.s().len() ==> vp_part::<T, V, F>(f, self.s()[i], r.parts()[i])").replace(
      "0 <= i < self.s().len() ==> call_ensures(f, (#[trigger] self.s()[i],), r.opts()[i])", "#![trigger self.s()[i]] #![trigger r.opts()[i]] 0 <= i < self.s().len() ==> call_ensures(f, (self.s()[i],), r.opts()[i])")


def floop(f, inv, lemma, g):
    return dict(kind="for", iter="vp_it", before=f"let ghost {g} = *ctxt; let ghost vp_q = {f}.elements@;",
                inv=f"    invariant vp_it.seq() =~= vp_refs(vp_q), {inv}(ctxt.permissions_output.{f}@, vp_q, vp_it.index@), {frame(f, g)},",
                start=f"let ghost vp_m = ctxt.permissions_output.{f}@; proof {{ assert(vp_it.seq()[vp_it.index@] == vp_refs(vp_q)[vp_it.index@]); }}",
                end=f"proof {{ {lemma}(vp_m, ctxt.permissions_output.{f}@, vp_q, vp_it.index@); }}")


def build(ctx):
    u = ctx.unit("rules")
    u.raw(STUBS, stubs=["normal"])
    nodebug = [(r"T: FactTypes \+ std::fmt::Debug", "T: FactTypes", "Debug bound dropped")]
    u.item(O, "struct", "Output", subst=nodebug, attrs="#[verifier::reject_recursive_types(T)]")
    u.item(F, "struct", "PermissionsCtxt")
    u.raw(SPECS + KEEPS + LEMMAS)
    u.impl(F, "PermissionsCtxt", None, {
        "new_path": dict(ret="r", spec="""requires old(self).g().well_listed()
    ensures final(self).g().well_listed(), *final(self) == (PermissionsCtxt { place_data: final(self).place_data, rev_lookup: final(self).rev_lookup, ..*old(self) }),
      final(self).g().registered(place), forall|q: Place<'tcx>| #[trigger] old(self).g().registered(q) ==> final(self).g().registered(q),
      forall|l: Local, p: Path| #[trigger] final(self).g().listed(l, p) ==> old(self).g().listed(l, p) || p == r,
      exists|l: Local| #[trigger] final(self).g().listed(l, r), forall|l: Local, p: Path| #[trigger] old(self).g().listed(l, p) ==> final(self).g().listed(l, p)""",
                         tail="proof { lemma_new_path(old(self).g(), self.g(), vp_given, new_path); }", start="let ghost vp_given = place;",
                         subst=[(r"self\.rev_lookup\.entry\(local\)\.or_default\(\)", "vp_slot(&mut self.rev_lookup, local)", "entry by contract")]),
        "path_to_place": dict(ret="r", spec="ensures r == self.g().place(p)"),
        "place_to_path": dict(ret="r", spec="requires self.g().registered(*p), ensures self.g().path(*p) == r, self.g().place(r) == self.g().norm(*p)",
                              start="broadcast use group_vp_ext; proof { lemma_first_path(self.g(), *p); let v = self.rev_lookup@[self.g().norm(*p).local]@; let rem: Seq<&Path> = vp_refs(v); let i = choose|i: int| self.g().path_index(*p, i); assert(rem[i] == &v[i]); assert forall|j: int| 0 <= j < v.len() implies self.g().place(*rem[j]) == self.g().place(#[trigger] v[j]) by {} }", subst=iters.SUBST,
                              closures=[dict(ret="b: bool", types=["&&Path"], spec="ensures b == (self.g().place(**path) == p)"), dict(ret="b: &Path", spec="requires false")]),
        "location_table": dict(ret="r", spec="requires self.body_with_facts.location_table is Some, ensures *r == self.body_with_facts.location_table->Some_0"),
        "location_to_point": dict(ret="r", spec="requires self.body_with_facts.location_table is Some, ensures r == self.g().start(l)"),
        "moveable_path_to_path": dict(ret="r", spec="requires self.g().registered(self.move_data.move_paths.at(mp).place), ensures r == self.g().mpath(mp), self.g().place(r) == self.g().norm(self.move_data.move_paths.at(mp).place)"),
        "move_to_moveable_path": dict(ret="r", spec="ensures r == self.move_data.moves.at(mv).path"),
        "loan_to_borrow": dict(ret="r", spec="ensures *r == self.borrow_set.borrow(l)"),
        "is_mutable_borrow": dict(ret="r", spec="ensures r == (brw.k() is Mut)"),
        "is_mutable_loan": dict(ret="r", spec="ensures r == self.g().mutable(loan)"),
        "is_declared_readonly": dict(ret="r", spec="ensures r == self.g().readonly(place.local)"),
    })
    u.raw(r"""
pub proof fn lemma_new_path<'tcx>(a: G<'tcx>, b: G<'tcx>, p: Place<'tcx>, r: Path)
  requires a.well_listed(), b == (G { place_data: b.place_data, rev_lookup: b.rev_lookup, ..a }), !a.place_data.has(r), b.place_data.at(r) == a.norm(p), forall|i: Path| #[trigger] b.place_data.has(i) == (a.place_data.has(i) || i == r),
    forall|i: Path| i != r ==> #[trigger] b.place_data.at(i) == a.place_data.at(i), b.rev_lookup == a.rev_lookup.insert(a.norm(p).local, b.rev_lookup[a.norm(p).local]),
    b.rev_lookup[a.norm(p).local]@ == (if a.rev_lookup.contains_key(a.norm(p).local) { a.rev_lookup[a.norm(p).local]@ } else { Seq::<Path>::empty() }).push(r)
  ensures b.well_listed(), b.registered(p), forall|q: Place<'tcx>| #[trigger] a.registered(q) ==> b.registered(q), forall|l: Local, q: Path| #[trigger] b.listed(l, q) ==> a.listed(l, q) || q == r,
    exists|l: Local| #[trigger] b.listed(l, r), forall|l: Local, q: Path| #[trigger] a.listed(l, q) ==> b.listed(l, q)
{
  let n = a.norm(p); let v = if a.rev_lookup.contains_key(n.local) { a.rev_lookup[n.local]@ } else { Seq::<Path>::empty() };
  lemma_pushed(v, r);
  assert(b.rev_lookup[n.local]@[v.len() as int] == r);
  assert(b.rev_lookup.contains_key(n.local)); assert(b.norm(p) == n); assert(b.place(b.rev_lookup[n.local]@[v.len() as int]) == n);
  assert(b.registered(p));
  assert(b.rev_lookup[n.local]@.contains(r));
  assert(b.listed(n.local, r));
  assert forall|l: Local, q: Path| #[trigger] b.listed(l, q) implies (a.listed(l, q) || q == r) && b.place_data.has(q) by { if q != r { assert(a.listed(l, q)); } }
  assert forall|l: Local, q: Path| #[trigger] a.listed(l, q) implies b.listed(l, q) by {}
  assert forall|q: Place<'tcx>| #[trigger] a.registered(q) implies b.registered(q) by {
    let m = a.norm(q); let i = choose|i: int| 0 <= i < a.rev_lookup[m.local]@.len() && a.place(#[trigger] a.rev_lookup[m.local]@[i]) == m;
    assert(a.rev_lookup[m.local]@.contains(a.rev_lookup[m.local]@[i])); assert(a.listed(m.local, a.rev_lookup[m.local]@[i]));
    assert(b.norm(q) == m); assert(b.rev_lookup.contains_key(m.local));
    assert(b.rev_lookup[m.local]@[i] == a.rev_lookup[m.local]@[i]); assert(b.place(b.rev_lookup[m.local]@[i]) == m);
  }
}
pub proof fn lemma_first_path<'tcx>(c: G<'tcx>, p: Place<'tcx>)
  requires c.registered(p)
  ensures exists|i: int| c.path_index(p, i), forall|i: int, j: int| c.path_index(p, i) && c.path_index(p, j) ==> i == j
{
  let n = c.norm(p); let v = c.rev_lookup[n.local]@;
  let k = choose|i: int| 0 <= i < v.len() && c.place(#[trigger] v[i]) == n;
  lemma_first_from(c, p, k);
}
pub proof fn lemma_first_from<'tcx>(c: G<'tcx>, p: Place<'tcx>, k: int)
  requires 0 <= k < c.rev_lookup[c.norm(p).local]@.len(), c.place(c.rev_lookup[c.norm(p).local]@[k]) == c.norm(p)
  ensures exists|i: int| c.path_index(p, i) decreases k
{
  let n = c.norm(p); let v = c.rev_lookup[n.local]@;
  if forall|j: int| 0 <= j < k ==> c.place(#[trigger] v[j]) != n { assert(c.path_index(p, k)); }
  else { let j = choose|j: int| 0 <= j < k && c.place(#[trigger] v[j]) == n; lemma_first_from(c, p, j); }
}
""")
    text = u.crate.find(O, "fn", "derive_permission_facts").text()
    variables = re.findall(r"let (\w+) =\s*iteration\s*\.variable::", text)
    if len(variables) != 2:
        raise rsx.Lost("derive_permission_facts: iteration variables changed")
    K = "vp_k"
    T2 = lambda a, b: f"&({a}, {b})"
    keep3 = dict(types=["&Loan", "&Path", "&Point"], ret="b: (Path, Loan, Point)", spec="ensures b == (*vp_c1, *vp_c0, *vp_c2)")
    MP = "Path"
    u.fn(O, "derive_permission_facts", attrs="#[verifier::exec_allows_no_decreases_clause]",
         spec="""requires old(ctxt).blank(), old(ctxt).g().sound(), old(ctxt).def_id == global_id(owner(old(ctxt).body_id))
    ensures old(ctxt).same_facts(final(ctxt)), final(ctxt).derived()""",
         start="  let vp_c = &*ctxt; let ghost vp_0 = vp_c.g();",
         closures=[
             dict(types=["&MovePath<'_>"], ret="b: Place<'_>", spec="ensures b == v.place"),
             dict(types=["&MoveOut"], ret="b: Vec<Place<'_>>", spec=f"ensures in_part({K}, *v, b@)"),
             None,
             dict(types=["&(Point, Point)"], ret="b: (Point, Point)", spec="ensures b == *vp_c0"),
             dict(types=["(&Point, &Vec<MoveablePath>)"], ret="b: It<(Point, Path)>", spec=f"ensures left_part({K}, *vp_c0.0, vp_c0.1@, b.s())"),
             dict(types=["&MoveablePath"], ret="b: (Point, Path)", spec=f"ensures b == (*point, {K}.mpath(*path))"),
             dict(types=["(Move, &MoveOut)"], ret="b: It<(Move, Path)>", spec=f"requires {K}.move_data.moves.has(vp_c0.0) && *vp_c0.1 == {K}.move_data.moves.at(vp_c0.0), ensures touch_part({K}, vp_c0.0, b.s())", start="broadcast use group_vp_ext; "),
             dict(types=["Place<'_>"], ret="b: (Move, Path)", spec=f"requires {K}.registered(place), ensures b == (move_idx, {K}.path(place))"),
             dict(types=["(MoveablePath, &MovePath<'_>)"], ret="b: (Move, Path)", spec=f"requires *vp_c0.1 == {K}.move_data.move_paths.at(vp_c0.0), ensures b == (move_idx, {K}.mpath(vp_c0.0))"),
             dict(types=["&(MoveablePath, MoveablePath)"], ret="b: (Path, Path)", spec=f"ensures b == ({K}.mpath(vp_c0.0), {K}.mpath(vp_c0.1))"),
             dict(types=["(Move, &MoveOut)"], ret="b: (Move, Point)", spec=f"ensures b == (vp_c0.0, {K}.start(vp_c0.1.source))"),
             dict(types=["&Point", "&Path", "&Point"], ret="b: (Path, Point)", spec="ensures b == (*vp_c1, *vp_c2)"),
             dict(types=["&(Move, Point)"], ret="b: Point", spec="ensures b == vp_c0.1"),
             dict(types=["&(Move, Point)", "&Point"], ret="b: bool", spec=f"ensures b == !{K}.reassigned(vp_c0.0, *vp_c1)"),
             dict(types=["&(MoveablePath, Point)"], ret="b: bool", spec=f"ensures b == (vp_c0.1 == point2 && clash({K}.body(), {K}.place({K}.mpath(vp_c0.0)), place2))"),
             dict(types=["&(Move, Point)", "&Point"], ret="b: (Move, Point)", spec="ensures b == (vp_c0.0, *vp_c1)"),
             dict(types=["&Path", "&Point", "&Path"], ret="b: (Path, Point)", spec="ensures b == (*vp_c2, *vp_c1)"),
             dict(types=["&(Move, Point)"], ret="b: Point", spec="ensures b == vp_c0.1"),
             dict(types=["&(Move, Point)", "&Point"], ret="b: (Move, Point)", spec="ensures b == (vp_c0.0, *vp_c1)"),
             dict(types=["Path"], ret="b: bool", spec=f"ensures b == {K}.never_written(path)"),
             dict(types=["(PlaceRef<'_>, ProjectionElem)"], ret="b: Option<PlaceRef<'_>>", spec="ensures b == (if vp_c0.1 is Deref { Some(vp_c0.0) } else { None::<PlaceRef<'_>> })"),
             dict(types=["PlaceRef<'_>"], ret="b: bool", spec=f"ensures b == sealing({K}, prefix)"),
             dict(types=["&(Origin, Loan, Point)"], ret="b: It<(Loan, Path)>", spec=f"ensures conflict_part({K}, vp_c0.1, b.s())", start="broadcast use group_vp_ext; proof { let rem: Seq<&Place<'_>> = vp_refs(places@); assert forall|i: int| 0 <= i < rem.len() implies vp_k.known(*#[trigger] rem[i]) by { assert(places@.contains(places@[i])); } } "),
             dict(types=["&Place<'_>"], ret="b: Option<(Loan, Path)>", spec=f"requires {K}.known(*place), ensures b == (if clash({K}.body(), borrow.of(), *place) {{ Some((*loan, {K}.path(*place))) }} else {{ None::<(Loan, Path)> }})"),
             dict(types=["(&Point, &Vec<Loan>)"], ret="b: It<(Loan, Point)>", spec="ensures live_part(*vp_c0.0, vp_c0.1@, b.s())"),
             dict(types=["&Loan"], ret="b: (Loan, Point)", spec="ensures b == (*loan, *point)"),
             dict(types=["&(Loan, Path)"], ret="b: Loan", spec="ensures b == vp_c0.0"),
             dict(types=["&(Loan, Path)", "&Point"], ret="b: bool", spec=f"ensures b == {K}.mutable(vp_c0.0)"),
             dict(types=["&(Loan, Path)", "&Point"], ret="b: (Path, Loan, Point)", spec="ensures b == (vp_c0.1, vp_c0.0, *vp_c1)"),
             keep3, keep3,
             dict(types=["&Move", "&Path", "&Point"], ret="b: (Path, Move, Point)", spec="ensures b == (*vp_c1, *vp_c0, *vp_c2)"),
             dict(types=["&Path"], ret="b: Option<Path>", spec=f"ensures b == (if {K}.never_written(*path) {{ Some(*path) }} else {{ None::<Path> }})"),
         ],
         loops=[dict(kind="while", inv=f"    invariant_except_break live_inv({K}, move_live_at), unset_inv({K}, path_maybe_uninitialized_on_entry), vp_a1 == move_live_at, vp_a2 == path_maybe_uninitialized_on_entry, "
                     f" invariant is_edges({K}, cfg_edge.set()), is_parts({K}, child_path.set()), {K} == vp_c.g(), {K}.sound(), {K}.all_known(), *body == {K}.body(), "
                     f" ensures is_gone({K}, move_live_at.stable()), is_unset({K}, path_maybe_uninitialized_on_entry.stable()), move_live_at.recent() == Set::<(Move, Point)>::empty(), move_live_at.pending() == Set::<(Move, Point)>::empty(), path_maybe_uninitialized_on_entry.recent() == Set::<(Path, Point)>::empty(), path_maybe_uninitialized_on_entry.pending() == Set::<(Path, Point)>::empty(),",
                     before="proof { assert(path_maybe_uninitialized_on_entry.pending() =~= vp_first); lemma_unset_start(vp_k, path_maybe_uninitialized_on_entry); } let ghost mut vp_a1 = move_live_at; let ghost mut vp_a2 = path_maybe_uninitialized_on_entry;",
                     start="VP_TEST; let ghost vp_b1 = move_live_at; let ghost vp_b2 = path_maybe_uninitialized_on_entry; proof { lemma_mp(vp_k); }", end="proof { vp_a1 = move_live_at; vp_a2 = path_maybe_uninitialized_on_entry; }"),
                floop("path_maybe_uninitialized_on_entry", "filing_set", "lemma_file_set", "vp_g1"),
                floop("move_live_at", "filing_vec", "lemma_file_vec", "vp_g2"),
                dict(kind="for", iter="vp_it", before="let ghost VP_G = *ctxt; let ghost vp_q = $input.elements@;", inv="    invariant vp_it.seq() =~= vp_refs(vp_q), filing($field@, vp_q, vp_it.index@), VP_FRAME,",
                     start="let ghost vp_m = $field@; proof { assert(vp_it.seq()[vp_it.index@] == vp_refs(vp_q)[vp_it.index@]); }", end="proof { lemma_file(vp_m, $field@, vp_q, vp_it.index@); }")],
         at=[(r"let cfg_edge: Relation", "before", "  let vp_c = &*ctxt; let ghost vp_k = vp_c.g(); proof { assert forall|pl: Place<'_>| #[trigger] places@.contains(pl) <==> vp_k.known(pl) by { lemma_same_known(vp_0, vp_k, pl); } assert forall|pl: Place<'_>| #[trigger] vp_k.known(pl) implies vp_k.registered(pl) by { lemma_same_known(vp_0, vp_k, pl); assert(vp_0.known(pl)); assert(places@.contains(pl)); } assert(vp_0 == old(ctxt).g()); assert(vp_k == (G { place_data: vp_k.place_data, rev_lookup: vp_k.rev_lookup, ..vp_0 })); lemma_sound(vp_0, vp_k); }")],
         subst=[(r"(?s)log::(debug|warn)!\(.*?\);", "", "log statement"),
                (r"places\s*\.iter\(\)\s*\.map\(\|place\| ctxt\.new_path\(\*place\)\)\s*\.collect::<Vec<_>>\(\)", """{ let mut vp_p: Vec<Path> = Vec::new(); let ghost vp_o = *ctxt;
    for place in vp_it: places.iter( )
      invariant vp_it.seq() =~= vp_refs(places@), keeps_but_paths(vp_o, *ctxt), ctxt.g().well_listed(), forall|i: int| 0 <= i < vp_it.index@ ==> ctxt.g().registered(#[trigger] places@[i]),
        forall|l: Local, p: Path| #[trigger] ctxt.g().listed(l, p) ==> vp_p@.contains(p), forall|p: Path| #[trigger] vp_p@.contains(p) ==> exists|l: Local| ctxt.g().listed(l, p),
    { let ghost vp_p0 = vp_p@; let ghost vp_x = ctxt.g(); assert(vp_it.seq()[vp_it.index@] == vp_refs(places@)[vp_it.index@]); let vp_n = ctxt.new_path(*place); vp_p.push(vp_n); proof { lemma_pushed(vp_p0, vp_n); lemma_paths(vp_x, ctxt.g(), vp_p0, vp_n); } } vp_p }""", "a map with an effect written as a loop"),
                ] + iters.SUBST + [
                (r"in ((?:\w+: )?)\s*(\$?\w+)\.vp_iter\(\)", r"in \1\2.elements.iter()", "the tuples of a relation listed"),
                (r"let (\w+) =\s*iteration\s*\.variable::<([^=;]*)>\(", r"let mut \1 = iteration.variable::<\2>(", "the state of a variable is its own"),
                (r"iteration\.changed\(\)", f"vp_changed(&mut iteration, &mut {variables[0]}, &mut {variables[1]})", "the variables of the iteration named"),
                (r"(?<![\w.])ctxt(\s*)\.(?!new_path|permissions_output|g\(\))", r"vp_c\1.", "a shared borrow named"),
                (r"&\*ctxt;(?! let ghost vp_[0k])", "vp_c;", "a shared borrow named"),
                (r"((?:ctxt\s*\.permissions_output\s*\.\w+)|\$field)\s*\.entry\(point\)\s*\.or_default\(\)", r"vp_slot(&mut \1, point)", "entry by contract"),
                (r"let \(move_idx, &move_out\) = vp_c0;", "let (move_idx, vp_mo) = vp_c0; let move_out = *vp_mo;", "pattern moved into the body"),
                (r"\bmove \|", "|", "captures are copies"),
                (r"(?s)\A.*\Z", Joins(PROOFS), "for the proof")])
    u.impl(O, "Output", "Default", {
        "default": dict(ret="r", spec="ensures r.blank()")}, header="impl Output<AquascopeFacts>", inject="""
  pub open spec fn blank(&self) -> bool {
    &&& self.never_write@ == Set::<Path>::empty() && self.loan_read_refined@ == Map::<Point, HashMap<Path, Loan>>::empty()
    &&& self.loan_write_refined@ == Map::<Point, HashMap<Path, Loan>>::empty() && self.loan_drop_refined@ == Map::<Point, HashMap<Path, Loan>>::empty()
    &&& self.move_refined@ == Map::<Point, HashMap<Path, Move>>::empty() && self.path_maybe_uninitialized_on_entry@ == Map::<Point, HashSet<Path>>::empty()
    &&& self.move_live_at@ == Map::<Point, Vec<Move>>::empty()
  }""")
    u.raw(COMPUTE, stubs=["construct_loan_regions", "vp_compute_flows"])
    u.fn(O, "compute", spec="""requires body_with_facts.input_facts is Some, rustc_is_sound(tcx, body_id, body_with_facts)
    ensures r.derived(), r.g().from_rustc(tcx, body_id, body_with_facts), r.body_id == body_id""", ret="r",
         at=[(r"derive_permission_facts\(&mut ctxt\);", "before", """proof {
      assert(ctxt.rev_lookup@ =~= Map::<Local, Vec<Path>>::empty()); assert(ctxt.permissions_output.blank()); assert(ctxt.blank());
      assert(ctxt.body_with_facts == *body_with_facts);
      assert(ctxt.g().from_rustc(tcx, body_id, body_with_facts));
    }""")],
         closures=[dict(types=["Ty<'tcx>"], ret="b: bool", spec="ensures b"), dict(types=["LocalDefId"], ret="b: bool", spec="ensures b == callable(did)")],
         subst=[(r"(?s)log::(debug|info|warn)!\(.*?\);", "", "log statement"),
                (r"\"([^\"]*)\"\.to_owned\(\)", "vp_owned(\"\\1\")", "std by contract"),
                (r"ENABLE_FLOW_PERMISSIONS\s*\.copied\(\)\s*\.unwrap_or\(ENABLE_FLOW_DEFAULT\)", "vp_flag()", "a run-time switch"),
                (r"flow::compute_flows", "vp_compute_flows", "another module's function by contract"),
                (r"HashMap::default\(\)", "HashMap::<Local, Vec<Path>>::default()", "type argument written out")])
    u.helpers()
    u.raw("} fn main() {}")
    return u
