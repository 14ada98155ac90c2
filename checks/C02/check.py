"""C02: the state shown for a place at a program point is what was recorded for that place at that point."""
import importlib.util
import os

import maps

_s = importlib.util.spec_from_file_location("c02_derive", os.path.join(os.path.dirname(os.path.abspath(__file__)), "derive.py"))
derive = importlib.util.module_from_spec(_s)
_s.loader.exec_module(derive)

F = "crates/aquascope/src/analysis/permissions/context.rs"
P = "crates/aquascope/src/analysis/permissions/mod.rs"
A = "crates/aquascope/src/analysis/mod.rs"
O = "crates/aquascope/src/analysis/permissions/output.rs"

STUBS = r"""
use vstd::std_specs::core::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::hash::*;
use std::collections::HashMap;
use std::collections::HashSet as StdHashSet;
verus! {
pub type FxHashMap<K, V> = HashMap<K, V>;
""" + "".join(maps.key(n) for n in ("Point", "Local", "PathIndex", "MoveablePath")) + r"""
pub type Path = PathIndex;
pub type Variable = Local;
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Loan { x: u32 }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Move { x: u32 }
impl Loan {
  pub uninterp spec fn id(&self) -> u32;
  #[verifier::external_body]
  pub fn as_u32(&self) -> (r: u32) ensures r == self.id() { unimplemented!() }
}
impl Move {
  pub uninterp spec fn id(&self) -> u32;
  #[verifier::external_body]
  pub fn as_u32(&self) -> (r: u32) ensures r == self.id() { unimplemented!() }
}
#[derive(Copy, Clone, PartialEq, Eq)]
pub enum Mutability { Not, Mut }
impl PartialEqSpecImpl for Mutability {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &Mutability) -> bool { *self == *o }
}
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct TyCtxt<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct TypingEnv<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct DefId { x: u64 }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct BodyId { x: u64 }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct AdtDef { x: u64 }
impl AdtDef {
  pub uninterp spec fn dtor(&self) -> bool;
  pub uninterp spec fn boxed(&self) -> bool;
  #[verifier::external_body]
  pub fn has_dtor<'tcx>(&self, t: TyCtxt<'tcx>) -> (r: bool) ensures r == self.dtor() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_box(&self) -> (r: bool) ensures r == self.boxed() { unimplemented!() }
}
pub mod ty {
  use super::*;
  pub enum TyKind { Adt(AdtDef, u8), Ref(u8), Array(u8), Slice(u8), Tuple(u8), Closure(u8), Other(u8) }
  pub use TyKind::*;
}
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Ty<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
impl<'tcx> Ty<'tcx> {
  pub uninterp spec fn copyable(&self) -> bool;
  pub uninterp spec fn k(&self) -> ty::TyKind;
  #[verifier::external_body]
  pub fn is_copyable(&self, tcx: TyCtxt<'tcx>, e: TypingEnv<'tcx>) -> (r: bool) ensures r == self.copyable() { unimplemented!() }
  #[verifier::external_body]
  pub fn kind(&self) -> (r: &ty::TyKind) ensures *r == self.k() { unimplemented!() }
  pub open spec fn dtor_adt(&self) -> bool { match self.k() { ty::TyKind::Adt(a, _) => a.dtor() && !a.boxed(), _ => false } }
}
pub struct PlaceTy<'tcx> { pub ty: Ty<'tcx> }
#[derive(Copy, Clone)]
pub enum ProjectionElem {
  Deref, Field(u32), Index(Local), ConstantIndex { offset: u64, min_length: u64, from_end: bool },
  Subslice { from: u64, to: u64, from_end: bool }, Downcast(u32), OpaqueCast(u32), Subtype(u32),
}
pub open spec fn indexing(e: ProjectionElem) -> bool {
  e is Index || e is ConstantIndex || e is Subslice
}
#[verifier::external_body]
pub struct PlaceElems<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
impl<'tcx> View for PlaceElems<'tcx> { type V = Seq<ProjectionElem>; uninterp spec fn view(&self) -> Seq<ProjectionElem>; }
impl<'tcx> IndexSpecImpl<std::ops::RangeTo<usize>> for PlaceElems<'tcx> { open spec fn index_req(&self, i: &std::ops::RangeTo<usize>) -> bool { i.end <= self@.len() } }
impl<'tcx> std::ops::Index<std::ops::RangeTo<usize>> for PlaceElems<'tcx> {
  type Output = [ProjectionElem];
  #[verifier::external_body]
  fn index(&self, r: std::ops::RangeTo<usize>) -> (o: &[ProjectionElem]) ensures o@ == self@.take(r.end as int) { unimplemented!() }
}
pub open spec fn enumerated<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
/// A finite iterator of rustc's or std's, by the elements it gives.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Items<T> { p: core::marker::PhantomData<T> }
impl<T> Items<T> {
  pub uninterp spec fn seq(&self) -> Seq<T>;
  #[verifier::external_body]
  pub fn any<F: FnMut(T) -> bool>(&self, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (#[trigger] self.seq()[i],)),
    ensures
      r ==> exists|i: int| 0 <= i < self.seq().len() && call_ensures(f, (#[trigger] self.seq()[i],), true),
      !r ==> forall|i: int| 0 <= i < self.seq().len() ==> call_ensures(f, (#[trigger] self.seq()[i],), false),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn all<F: FnMut(T) -> bool>(&self, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (#[trigger] self.seq()[i],)),
    ensures
      !r ==> exists|i: int| 0 <= i < self.seq().len() && call_ensures(f, (#[trigger] self.seq()[i],), false),
      r ==> forall|i: int| 0 <= i < self.seq().len() ==> call_ensures(f, (#[trigger] self.seq()[i],), true),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn enumerate(self) -> (r: Items<(usize, T)>)
    ensures r.seq() == enumerated(self.seq()), self.seq().len() <= usize::MAX
  { unimplemented!() }
}
pub uninterp spec fn places_of<'tcx>(b: Body<'tcx>) -> Set<Place<'tcx>>;
impl<'tcx> Body<'tcx> {
  /// rustc_utils lists the places of the body.
  #[verifier::external_body]
  pub fn all_places(&self, t: TyCtxt<'tcx>, d: DefId) -> (r: Items<Place<'tcx>>) ensures r.seq().to_set() == places_of(*self) { unimplemented!() }
}
pub trait IsSet<K>: Sized { spec fn s(&self) -> Set<K>; }
impl<K> IsSet<K> for HashSet<K> { open spec fn s(&self) -> Set<K> { self@ } }
pub trait IsMap<K, V>: Sized { spec fn m(&self) -> Map<K, V>; }
impl<K, V> IsMap<K, V> for HashMap<K, V> { open spec fn m(&self) -> Map<K, V> { self@ } }
impl<K> Items<K> {
  #[verifier::external_body]
  pub fn collect<C: IsSet<K>>(self) -> (r: C) ensures r.s() == self.seq().to_set() { unimplemented!() }
}
impl<'tcx> PlaceElems<'tcx> {
  #[verifier::external_body]
  pub fn iter(&self) -> (r: Items<ProjectionElem>) ensures r.seq() == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
""" + maps.key("Place", decl="#[derive(Copy, Clone)]\npub struct Place<'tcx> { pub local: Local, pub projection: &'tcx PlaceElems<'tcx> }", lifetime=True) + r"""
#[derive(Copy, Clone)]
pub struct PlaceRef<'tcx> { pub local: Local, pub projection: &'tcx [ProjectionElem] }
pub uninterp spec fn type_of(b: Body<'_>, l: Local, proj: Seq<ProjectionElem>) -> Ty<'_>;
pub uninterp spec fn normal<'tcx>(t: TyCtxt<'tcx>, d: DefId, p: Place<'tcx>) -> Place<'tcx>;
impl<'tcx> Place<'tcx> {
  pub open spec fn indirect(&self) -> bool { exists|i: int| 0 <= i < self.projection@.len() && (#[trigger] self.projection@[i]) is Deref }
  #[verifier::external_body]
  pub fn is_indirect(&self) -> (r: bool) ensures r == self.indirect() { unimplemented!() }
  #[verifier::external_body]
  pub fn iter_projections(self) -> (r: Items<(PlaceRef<'tcx>, ProjectionElem)>)
    ensures r.seq().len() == self.projection@.len(), self.projection@.len() <= usize::MAX,
      forall|i: int| #![trigger r.seq()[i]] #![trigger self.projection@[i]] 0 <= i < r.seq().len() ==> r.seq()[i].1 == self.projection@[i] { unimplemented!() }
  #[verifier::external_body]
  pub fn ty_from(l: Local, proj: &[ProjectionElem], b: &Body<'tcx>, t: TyCtxt<'tcx>) -> (r: PlaceTy<'tcx>) ensures r.ty == type_of(*b, l, proj@) { unimplemented!() }
  #[verifier::external_body]
  pub fn ty(&self, b: &LocalDecls<'tcx>, t: TyCtxt<'tcx>) -> (r: PlaceTy<'tcx>) ensures r.ty == type_of(b.body(), self.local, self.projection@) { unimplemented!() }
  #[verifier::external_body]
  pub fn normalize(&self, t: TyCtxt<'tcx>, d: DefId) -> (r: Place<'tcx>) ensures r == normal(t, d, *self) { unimplemented!() }
}
#[verifier::external_body]
pub struct LocalDecls<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
pub struct LocalDecl { pub mutability: Mutability }
impl<'tcx> LocalDecls<'tcx> { pub uninterp spec fn body(&self) -> Body<'tcx>; pub uninterp spec fn decl(&self, l: Local) -> LocalDecl; }
impl<'tcx> IndexSpecImpl<Local> for LocalDecls<'tcx> { open spec fn index_req(&self, i: &Local) -> bool { true } }
impl<'tcx> std::ops::Index<Local> for LocalDecls<'tcx> {
  type Output = LocalDecl;
  #[verifier::external_body]
  fn index(&self, l: Local) -> (o: &LocalDecl) ensures *o == self.decl(l) { unimplemented!() }
}
pub struct Body<'tcx> { pub local_decls: LocalDecls<'tcx>, pub span: u64 }
pub struct BodyWithBorrowckFacts<'tcx> { pub body: Body<'tcx> }
pub struct RustcFacts {}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct AllFacts<T> { p: core::marker::PhantomData<T> }
#[verifier::reject_recursive_types(T)]
pub struct PEOutput<T> { pub var_live_on_entry: HashMap<Point, Vec<Variable>>, pub loan_live_at: HashMap<Point, Vec<Loan>>, pub vp_p: core::marker::PhantomData<T> }
pub enum BorrowKind { Shared, Fake(u8), Mut { kind: u8 } }
#[verifier::external_body]
pub struct BorrowData<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
impl<'tcx> BorrowData<'tcx> {
  pub uninterp spec fn k(&self) -> BorrowKind;
  #[verifier::external_body]
  pub fn kind(&self) -> (r: BorrowKind) ensures r == self.k() { unimplemented!() }
}
#[verifier::external_body]
pub struct BorrowSet<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
impl<'tcx> BorrowSet<'tcx> { pub uninterp spec fn borrow(&self, l: Loan) -> BorrowData<'tcx>; }
impl<'tcx> IndexSpecImpl<Loan> for BorrowSet<'tcx> { open spec fn index_req(&self, i: &Loan) -> bool { true } }
impl<'tcx> std::ops::Index<Loan> for BorrowSet<'tcx> {
  type Output = BorrowData<'tcx>;
  #[verifier::external_body]
  fn index(&self, l: Loan) -> (o: &BorrowData<'tcx>) ensures *o == self.borrow(l) { unimplemented!() }
}
#[verifier::external_body]
pub struct MoveData<'tcx> { p: core::marker::PhantomData<&'tcx u8> }
#[verifier::external_body]
pub struct RegionFlows { x: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(T)]
pub struct IndexVec<I, T> { p: core::marker::PhantomData<(I, T)> }
impl<I, T> IndexVec<I, T> { pub uninterp spec fn at(&self, i: I) -> T; pub uninterp spec fn has(&self, i: I) -> bool; }
impl<I, T> IndexSpecImpl<I> for IndexVec<I, T> { open spec fn index_req(&self, i: &I) -> bool { true } }
impl<I, T> std::ops::Index<I> for IndexVec<I, T> {
  type Output = T;
  #[verifier::external_body]
  fn index(&self, i: I) -> (o: &T) ensures *o == self.at(i) { unimplemented!() }
}
pub trait FactTypes { type Point; type Path; type Loan; }
#[derive(Copy, Clone)]
pub struct AquascopeFacts;
impl FactTypes for AquascopeFacts { type Point = Point; type Path = PathIndex; type Loan = Loan; }

/// std's HashSet: what the context uses of it.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { p: core::marker::PhantomData<K> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct SetIter<K> { p: core::marker::PhantomData<K> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(F)]
pub struct MapIter<K, F> { p: core::marker::PhantomData<(K, F)> }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<K> View for SetIter<K> { type V = Seq<K>; uninterp spec fn view(&self) -> Seq<K>; }
pub open spec fn folds<K, B, F: FnMut(B, K) -> B>(f: F, s: Seq<K>, init: B, r: B) -> bool {
  exists|a: Seq<B>| #![trigger a.len()] a.len() == s.len() + 1 && a[0] == init && a[s.len() as int] == r
    && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (a[i], #[trigger] s[i]), a[i + 1])
}
impl<K> HashSet<K> {
  #[verifier::external_body]
  pub fn default() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn into_iter(self) -> (r: SetIter<K>) ensures r@.no_duplicates(), r@.to_set() == self@ { unimplemented!() }
}
impl<K> SetIter<K> {
  #[verifier::external_body]
  pub fn fold<B, F: FnMut(B, K) -> B>(self, init: B, f: F) -> (r: B)
    requires forall|b: B, i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (b, self@[i])),
    ensures folds(f, self@, init, r),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn map<B, F: FnMut(K) -> B>(self, f: F) -> (r: MapIter<K, F>)
    requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (self@[i],)),
    ensures r.from() == self@, r.f() == f,
  { unimplemented!() }
}
impl<K, F> MapIter<K, F> {
  pub uninterp spec fn from(&self) -> Seq<K>;
  pub uninterp spec fn f(&self) -> F;
}
impl<K, V, F: FnMut(K) -> (K, V)> MapIter<K, F> {
  /// collect into a map (keys are distinct when the closure keeps them)
  #[verifier::external_body]
  pub fn collect<C: IsMap<K, V>>(self) -> (r: C)
    ensures collects(self.f(), self.from(), r.m()),
  { unimplemented!() }
}
pub open spec fn collects<K, V, F: FnMut(K) -> (K, V)>(f: F, s: Seq<K>, r: Map<K, V>) -> bool {
  exists|p: Seq<(K, V)>| #![trigger p.len()] p.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (s[i],), #[trigger] p[i]))
    && (forall|k: K| #[trigger] r.contains_key(k) <==> exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k)
    && (forall|i: int| 0 <= i < p.len() && (forall|j: int| i < j < p.len() ==> (#[trigger] p[j]).0 != p[i].0) ==> r[(#[trigger] p[i]).0] == p[i].1)
}
"""

SPECS = r"""
pub open spec fn fact<K, L>(m: Map<Point, HashMap<K, L>>, pt: Point, k: K) -> Option<L> {
  if m.contains_key(pt) && m[pt]@.contains_key(k) { Some(m[pt]@[k]) } else { None }
}
pub open spec fn loan_key(l: Option<Loan>) -> Option<LoanKey> { match l { Some(l) => Some(LoanKey(l.id())), None => None } }
pub open spec fn move_key(l: Option<Move>) -> Option<MoveKey> { match l { Some(l) => Some(MoveKey(l.id())), None => None } }
impl<'tcx> PermissionsCtxt<'tcx> {
  pub open spec fn place(&self, p: Path) -> Place<'tcx> { self.place_data.at(p) }
  pub open spec fn live(&self, p: Path, pt: Point) -> bool {
    self.polonius_output.var_live_on_entry@.contains_key(pt) && self.polonius_output.var_live_on_entry@[pt]@.contains(self.place(p).local)
  }
  pub open spec fn writeable(&self, p: Path) -> bool { !self.permissions_output.never_write@.contains(p) }
  pub open spec fn prefix_type(&self, pl: Place<'tcx>, i: int) -> Ty<'tcx> { type_of(self.body_with_facts.body, pl.local, pl.projection@.take(i)) }
  pub open spec fn some_prefix_dtor(&self, pl: Place<'tcx>) -> bool {
    let e = enumerated(pl.projection@);
    exists|i: int| 0 <= i < e.len() && self.prefix_type(pl, (#[trigger] e[i]).0 as int).dtor_adt()
  }
  /// Owned: not behind a reference, not an array or slice element, not part of a type with a destructor.
  pub open spec fn ownable(&self, p: Path) -> bool {
    let pl = self.place(p);
    &&& !pl.indirect()
    &&& forall|i: int| 0 <= i < pl.projection@.len() ==> !indexing(#[trigger] pl.projection@[i])
    &&& forall|i: int| 0 <= i < pl.projection@.len() ==> !(#[trigger] self.prefix_type(pl, i)).dtor_adt()
  }
  pub open spec fn copyable(&self, p: Path) -> bool {
    type_of(self.body_with_facts.body.local_decls.body(), self.place(p).local, self.place(p).projection@).copyable()
  }
  /// Everything recorded about path p at point pt.
  pub open spec fn recorded(&self, p: Path, pt: Point) -> PermissionsData {
    let o = self.permissions_output;
    PermissionsData {
      type_droppable: self.ownable(p),
      type_writeable: self.writeable(p),
      type_copyable: self.copyable(p),
      is_live: self.live(p, pt),
      path_uninitialized: o.path_maybe_uninitialized_on_entry@.contains_key(pt) && o.path_maybe_uninitialized_on_entry@[pt]@.contains(p),
      path_moved: move_key(fact(o.move_refined@, pt, p)),
      loan_read_refined: loan_key(fact(o.loan_read_refined@, pt, p)),
      loan_write_refined: loan_key(fact(o.loan_write_refined@, pt, p)),
      loan_drop_refined: loan_key(fact(o.loan_drop_refined@, pt, p)),
    }
  }
  pub open spec fn places(&self) -> Set<Place<'tcx>> { places_of(self.body_with_facts.body) }
  /// The place has been given a path (see `place_to_path`, which panics otherwise).
  pub open spec fn registered(&self, p: Place<'tcx>) -> bool {
    let n = normal(self.tcx, self.def_id, p);
    self.rev_lookup@.contains_key(n.local) && exists|i: int| 0 <= i < self.rev_lookup@[n.local]@.len() && self.place(#[trigger] self.rev_lookup@[n.local]@[i]) == n
  }
  /// i is where the first path of place p sits among its local's paths.
  pub open spec fn path_index(&self, p: Place<'tcx>, i: int) -> bool {
    let n = normal(self.tcx, self.def_id, p);
    let v = self.rev_lookup@[n.local]@;
    0 <= i < v.len() && self.place(v[i]) == n && forall|j: int| 0 <= j < i ==> self.place(#[trigger] v[j]) != n
  }
  /// The first path of place p.
  pub open spec fn path(&self, p: Place<'tcx>) -> Path {
    self.rev_lookup@[normal(self.tcx, self.def_id, p).local]@[choose|i: int| self.path_index(p, i)]
  }
  pub open spec fn state(&self, pt: Point) -> Map<Place<'tcx>, PermissionsData> {
    Map::new(self.places(), |p: Place<'tcx>| self.recorded(self.path(p), pt))
  }
  pub open spec fn wf(&self) -> bool { forall|p: Place<'tcx>| #[trigger] self.places().contains(p) ==> self.registered(p) }
}
pub open spec fn blank() -> PermissionsData {
  PermissionsData { is_live: false, type_droppable: false, type_writeable: false, type_copyable: false, path_moved: None,
    path_uninitialized: false, loan_read_refined: None, loan_write_refined: None, loan_drop_refined: None }
}
pub broadcast proof fn lemma_state<'tcx, F: FnMut(HashMap<Place<'tcx>, PermissionsData>, Place<'tcx>) -> HashMap<Place<'tcx>, PermissionsData>>(
  c: &PermissionsCtxt<'tcx>, pt: Point, f: F, s: Seq<Place<'tcx>>, init: HashMap<Place<'tcx>, PermissionsData>, r: HashMap<Place<'tcx>, PermissionsData>)
  requires #[trigger] folds(f, s, init, r), init@ == Map::<Place<'tcx>, PermissionsData>::empty(), s.to_set() == c.places(),
    forall|m: HashMap<Place<'tcx>, PermissionsData>, k: Place<'tcx>, o: HashMap<Place<'tcx>, PermissionsData>|
      #[trigger] call_ensures(f, (m, k), o) ==> o@ == m@.insert(k, c.recorded(c.path(k), pt)),
  ensures r@ == #[trigger] c.state(pt),
{
  let a = choose|a: Seq<HashMap<Place<'tcx>, PermissionsData>>| #![trigger a.len()] a.len() == s.len() + 1 && a[0] == init && a[s.len() as int] == r
    && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (a[i], #[trigger] s[i]), a[i + 1]);
  lemma_fold(c, pt, f, s, a, s.len() as int);
  assert forall|p: Place<'tcx>| #[trigger] r@.contains_key(p) <==> c.state(pt).contains_key(p) by {
    assert(s.to_set().contains(p) <==> s.contains(p));
    if s.contains(p) { let i = choose|i: int| 0 <= i < s.len() && s[i] == p; assert(r@.contains_key(s[i])); }
  }
  assert(r@ =~= c.state(pt));
}
pub proof fn lemma_fold<'tcx, F: FnMut(HashMap<Place<'tcx>, PermissionsData>, Place<'tcx>) -> HashMap<Place<'tcx>, PermissionsData>>(
  c: &PermissionsCtxt<'tcx>, pt: Point, f: F, s: Seq<Place<'tcx>>, a: Seq<HashMap<Place<'tcx>, PermissionsData>>, n: int)
  requires 0 <= n <= s.len(), a.len() == s.len() + 1, a[0]@ == Map::<Place<'tcx>, PermissionsData>::empty(),
    forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (a[i], #[trigger] s[i]), a[i + 1]),
    forall|m: HashMap<Place<'tcx>, PermissionsData>, k: Place<'tcx>, o: HashMap<Place<'tcx>, PermissionsData>|
      #[trigger] call_ensures(f, (m, k), o) ==> o@ == m@.insert(k, c.recorded(c.path(k), pt)),
  ensures forall|i: int| 0 <= i < n ==> a[n]@.contains_key(#[trigger] s[i]),
    forall|p: Place<'tcx>| #[trigger] a[n]@.contains_key(p) ==> s.contains(p) && a[n]@[p] == c.recorded(c.path(p), pt),
  decreases n,
{
  if n > 0 {
    lemma_fold(c, pt, f, s, a, n - 1);
    let k = s[n - 1];
    assert(call_ensures(f, (a[n - 1], s[n - 1]), a[n - 1 + 1]));
    assert(a[n]@ == a[n - 1]@.insert(k, c.recorded(c.path(k), pt)));
  }
}
pub broadcast proof fn lemma_blank<'tcx, F: FnMut(Place<'tcx>) -> (Place<'tcx>, PermissionsData)>(f: F, s: Seq<Place<'tcx>>, r: Map<Place<'tcx>, PermissionsData>)
  requires #[trigger] collects(f, s, r), s.no_duplicates(),
    forall|k: Place<'tcx>, o: (Place<'tcx>, PermissionsData)| #[trigger] call_ensures(f, (k,), o) ==> o == (k, blank()),
  ensures r == Map::new(s.to_set(), |p: Place<'tcx>| blank()),
{
  let p = choose|p: Seq<(Place<'tcx>, PermissionsData)>| #![trigger p.len()] p.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (s[i],), #[trigger] p[i]))
    && (forall|k: Place<'tcx>| #[trigger] r.contains_key(k) <==> exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k)
    && (forall|i: int| 0 <= i < p.len() && (forall|j: int| i < j < p.len() ==> (#[trigger] p[j]).0 != p[i].0) ==> r[(#[trigger] p[i]).0] == p[i].1);
  assert forall|i: int| 0 <= i < s.len() implies #[trigger] p[i] == (s[i], blank()) by {}
  let want = Map::new(s.to_set(), |p: Place<'tcx>| blank());
  assert forall|k: Place<'tcx>| r.contains_key(k) <==> want.contains_key(k) by {
    if r.contains_key(k) {
      let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k;
      assert(s[i] == k); assert(s.to_set().contains(k));
    }
    if want.contains_key(k) {
      assert(s.to_set().contains(k));
      let i = choose|i: int| 0 <= i < s.len() && s[i] == k;
      assert(p[i].0 == k);
    }
  }
  assert forall|k: Place<'tcx>| r.contains_key(k) implies #[trigger] r[k] == want[k] by {
    let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k;
    assert forall|j: int| i < j < p.len() implies (#[trigger] p[j]).0 != p[i].0 by { assert(s[j] != s[i]); }
  }
  assert(r =~= want);
}
/// Both ends of every step list the same places.
pub proof fn lemma_same_places<'tcx>(c: &PermissionsCtxt<'tcx>, a: Point, b: Point) ensures c.state(a).dom() =~= c.state(b).dom() {}
"""

KEYS = "broadcast use {point_is_key, local_is_key, pathindex_is_key, place_is_key, group_hash_axioms};"


def build(ctx):
    u = ctx.unit("facts")
    u.raw(STUBS, stubs=["normal"])
    u.item(A, "struct", "LoanKey", attrs="#[derive(Copy, Clone)]")
    u.item(A, "struct", "MoveKey", attrs="#[derive(Copy, Clone)]")
    for k, o in (("LoanKey", "Loan"), ("MoveKey", "Move")):
        u.raw(f"""impl FromSpecImpl<&{o}> for {k} {{
  open spec fn obeys_from_spec() -> bool {{ true }}
  open spec fn from_spec(f: &{o}) -> {k} {{ {k}(f.id()) }}
}}
""")
        u.impl(A, k, "From", {"from": {}})
    u.item(P, "struct", "Permissions", attrs="#[derive(Copy, Clone)]")
    u.item(P, "struct", "PermissionsData", attrs="#[derive(Copy, Clone)]")
    u.item(P, "struct", "PermissionsDomain", subst=[(r"FxHashMap<", "HashMap<", "alias written out")])
    u.raw("""impl<'tcx> FromSpecImpl<FxHashMap<Place<'tcx>, PermissionsData>> for PermissionsDomain<'tcx> {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(m: FxHashMap<Place<'tcx>, PermissionsData>) -> Self { PermissionsDomain(m) }
}
""")
    u.impl(P, "PermissionsDomain", "From", {"from": {}})
    u.item(O, "struct", "Output", subst=[(r"T: FactTypes \+ std::fmt::Debug", "T: FactTypes", "Debug bound dropped")],
           attrs="#[verifier::reject_recursive_types(T)]")
    u.item(F, "struct", "PermissionsCtxt")
    u.raw(SPECS)
    u.impl(F, "PermissionsCtxt", None, {
        "path_to_place": dict(ret="r", spec="ensures r == self.place(p)"),
        "place_to_path": dict(ret="r", spec="requires self.registered(*p), ensures self.path(*p) == r, self.place(r) == normal(self.tcx, self.def_id, *p)",
                              start=KEYS + """
    proof {
      let n = normal(self.tcx, self.def_id, *p);
      let v = self.rev_lookup@[n.local]@;
      lemma_first_path(self, *p);
      let rem = v.as_ref();
      assert(forall|i: int| 0 <= i < v.len() ==> *(#[trigger] rem[i]) == v[i]);
      let i = choose|i: int| self.path_index(*p, i);
      assert(*rem[i] == v[i]);
    }""",
                              closures=[dict(ret="b: bool", types=["&&Path"], spec="ensures b == (self.place(**path) == p)"),
                                        dict(ret="b: &Path", spec="requires false")]),
        "path_to_variable": dict(ret="r", spec="ensures r == self.place(path).local"),
        "loan_to_borrow": dict(ret="r", spec="ensures *r == self.borrow_set.borrow(l)"),
        "is_mutable_borrow": dict(ret="r", spec="ensures r == (brw.k() is Mut)"),
        "is_mutable_loan": dict(ret="r", spec="ensures r == (self.borrow_set.borrow(loan).k() is Mut)"),
        "is_declared_readonly": dict(ret="r", spec="ensures r == (self.body_with_facts.body.local_decls.decl(place.local).mutability != Mutability::Mut)"),
        "is_path_live_at": dict(ret="r", spec="ensures r == self.live(path, point)", start=KEYS,
                                closures=[dict(types=["&Vec<Variable>"], ret="b: bool", spec="ensures b == live_vars@.contains(var)")]),
        "is_path_copyable": dict(ret="r", spec="ensures r == self.copyable(path)"),
        "is_path_write_enabled": dict(ret="r", spec="ensures r == self.writeable(path)"),
        "is_path_drop_enabled": dict(ret="r", spec="ensures r == self.ownable(path)", tail="""    proof {
      let e = enumerated(place.projection@);
      assert(e.len() == place.projection@.len());
      assert forall|i: int| 0 <= i < e.len() implies self.prefix_type(place, i) == self.prefix_type(place, (#[trigger] e[i]).0 as int) by {}
      assert forall|i: int| 0 <= i < e.len() && self.prefix_type(place, i).dtor_adt() implies self.some_prefix_dtor(place) by { assert(e[i].0 == i); }
      assert(self.some_prefix_dtor(place) == !forall|i: int| 0 <= i < place.projection@.len() ==> !(#[trigger] self.prefix_type(place, i)).dtor_adt()) by {
        if self.some_prefix_dtor(place) { let i = choose|i: int| 0 <= i < e.len() && self.prefix_type(place, (#[trigger] e[i]).0 as int).dtor_adt(); assert(self.prefix_type(place, i).dtor_adt()); }
      }
    }
""", closures=[
            dict(types=["(PlaceRef<'tcx>, ProjectionElem)"], ret="b: bool", spec="ensures b == indexing(vp_c0.1)"),
            dict(ret="b: bool", spec="ensures b == self.some_prefix_dtor(place)"),
            dict(types=["(usize, ProjectionElem)"], ret="b: bool", spec="requires vp_c0.0 < place.projection@.len(), ensures b == self.prefix_type(place, vp_c0.0 as int).dtor_adt()")]),
        "max_permissions": dict(ret="r", spec="ensures r == (Permissions { read: true, write: self.writeable(path), drop: self.ownable(path) })"),
        "permissions_for_const_ty": dict(ret="r", spec="""ensures r == (PermissionsData { is_live: true, type_droppable: true, type_writeable: true,
      type_copyable: ty.copyable(), ..blank() })"""),
        "permissions_data_at_point": dict(ret="r", spec="ensures r == self.recorded(path, point)", start=KEYS),
        "domain_places": dict(ret="r", spec="ensures r@ == self.places()"),
        "domain_bottom": dict(ret="r", spec="ensures r.0@ == Map::new(self.places(), |p: Place<'tcx>| blank())",
                              start=KEYS + " broadcast use lemma_blank; let ghost _p = self.places();",
                              closures=[dict(types=["Place<'tcx>"], ret="b: (Place<'tcx>, PermissionsData)", spec="ensures b == (place, blank())")]),
        "permissions_domain_at_point": dict(ret="r", spec="requires self.wf(), ensures r.0@ == self.state(point)",
                                            start=KEYS + " broadcast use lemma_state; let ghost _s = self.state(point);",
                                            at=[(r"places\s*\.into_iter\(\)", "before", "proof { assert forall|k: Place<'tcx>| self.places().contains(k) implies self.registered(k) by {} }")],
                                            closures=[dict(types=["HashMap<Place<'tcx>, PermissionsData>", "Place<'tcx>"], ret="b: HashMap<Place<'tcx>, PermissionsData>",
                                                           spec="requires self.registered(place), ensures b@ == vp_c0@.insert(place, self.recorded(self.path(place), point))",
                                                           start=KEYS)]),
    })
    u.raw(r"""
pub proof fn lemma_first_path<'tcx>(c: &PermissionsCtxt<'tcx>, p: Place<'tcx>)
  requires c.registered(p)
  ensures exists|i: int| c.path_index(p, i), forall|i: int, j: int| c.path_index(p, i) && c.path_index(p, j) ==> i == j
{
  let n = normal(c.tcx, c.def_id, p);
  let v = c.rev_lookup@[n.local]@;
  let k = choose|i: int| 0 <= i < v.len() && c.place(#[trigger] v[i]) == n;
  lemma_first_from(c, p, k);
}
pub proof fn lemma_first_from<'tcx>(c: &PermissionsCtxt<'tcx>, p: Place<'tcx>, k: int)
  requires 0 <= k < c.rev_lookup@[normal(c.tcx, c.def_id, p).local]@.len(), c.place(c.rev_lookup@[normal(c.tcx, c.def_id, p).local]@[k]) == normal(c.tcx, c.def_id, p)
  ensures exists|i: int| c.path_index(p, i)
  decreases k
{
  let n = normal(c.tcx, c.def_id, p);
  let v = c.rev_lookup@[n.local]@;
  if forall|j: int| 0 <= j < k ==> c.place(#[trigger] v[j]) != n {
    assert(c.path_index(p, k));
  } else {
    let j = choose|j: int| 0 <= j < k && c.place(#[trigger] v[j]) == n;
    lemma_first_from(c, p, j);
  }
}
""")
    u.helpers()
    u.raw("} fn main() {}")
    return u


UNITS = [("facts", build), ("rules", derive.build)]
TRUSTED = ["rustc and rustc_utils types (Place, projections, types, loans, moves, borrow set, typing environment): opaque or restated by shape",
           "Place::{normalize, is_indirect, iter_projections, ty, ty_from}, Ty::is_copyable, has_dtor, is_box: uninterpreted or by definition",
           "datafrog (Relation, Iteration, Variable, leapers), places_conflict, interior_paths, polonius' output, MoveData::gather_moves, BorrowSet::build: by contract or uninterpreted",
           "construct_loan_regions, flow::compute_flows: change only the field they are for (C07, C17 prove what they compute)",
           "HashSet::{contains, into_iter, fold, map, collect}, slice enumerate/any: std's documented meaning as contracts"]
ASSUMPTIONS = ["rustc's facts name existing move paths (rustc_is_sound); compute establishes the rest, in particular that every place the derivation looks up has a path",
               "datafrog: a Relation holds the tuples it is built from, from_join / from_leapjoin / from_antijoin give the tuples of the rule they are called with, and a Variable's rounds end with the least relation closed under the rule (contracts, not datafrog's source)",
               "the body of derive_permission_facts is cut, mechanically on every run, at its statements into functions of their own, each with a contract; nothing is dropped but log statements and the timer's use"]
BOUNDED = ("the assumptions above (datafrog, rustc's facts): the derived facts on compiled programs, recomputed by naive "
           "loops over all points, loans, moves and places, and the states reported from them")


def native_run(ctx):
    return ctx.native_crate("aquascope", {O: [("vp_c02", "native.rs")]}, "vp_c02")
