"""C09: the segments the stepper makes of a body follow its control flow."""
import dominance
import iters
import maps

S = "crates/aquascope/src/analysis/stepper/segmented_mir.rs"
M = "crates/aquascope/src/analysis/stepper/mod.rs"


def idx(name, x="usize"):
    return maps.key(name, decl=f"#[derive(Copy, Clone)]\npub struct {name} {{ pub x: {x} }}")


BASE = "macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { return Err(vp_err()); } } }\nmacro_rules! bail { ($($t:tt)*) => { return Err(vp_err()) } }\nmacro_rules! anyhow { ($($t:tt)*) => { vp_err() } }\n" + maps.USE + "verus! {\n" + "".join(idx(n) for n in ("BasicBlock", "SegmentId", "BranchId", "CollectionId", "ScopeId", "TableId")) + maps.key("Location", decl="#[derive(Copy, Clone)]\npub struct Location { pub block: BasicBlock, pub statement_index: usize }") + r"""
#[derive(Copy, Clone)] pub struct Span { pub x: u64 }
pub struct Error { pub x: u64 }
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body] pub fn vp_err() -> Error { unimplemented!() }
pub open spec fn start(b: BasicBlock) -> Location { Location { block: b, statement_index: 0 } }
impl BasicBlock { #[verifier::external_body] pub fn start_location(&self) -> (r: Location) ensures r == start(*self) { unimplemented!() } }

pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
// the cleaned graph of the body (C08)
pub uninterp spec fn succ(b: BasicBlock) -> Seq<BasicBlock>;
pub uninterp spec fn entry() -> BasicBlock;
pub uninterp spec fn exits() -> Set<BasicBlock>;
pub uninterp spec fn n_blocks() -> nat;
pub uninterp spec fn false_edge(b: BasicBlock) -> bool;
""" + dominance.GRAPH + r"""
/// the blocks of the body; an edge leads to one of them
pub uninterp spec fn blocks() -> Set<BasicBlock>;
pub axiom fn axiom_succ(b: BasicBlock) ensures forall|i: int| 0 <= i < succ(b).len() ==> blocks().contains(#[trigger] succ(b)[i]);
pub enum TerminatorKind { SwitchInt { x: u8 }, Goto { x: u8 }, FalseEdge { x: u8 }, Drop { x: u8 }, Call { x: u8 }, Assert { x: u8 }, FalseUnwind { x: u8 }, Return, Other }
pub use TerminatorKind as TK;
pub struct Terminator { pub kind: TerminatorKind }
pub struct BasicBlockData { pub statements: Vec<u8>, pub t: Terminator }
impl BasicBlockData { pub fn terminator(&self) -> (r: &Terminator) ensures *r == self.t { &self.t } }
pub uninterp spec fn data_of(b: BasicBlock) -> BasicBlockData;
pub open spec fn switches(b: BasicBlock) -> bool { data_of(b).t.kind is SwitchInt }
pub struct BasicBlocks { pub x: u8 }
impl BasicBlocks { #[verifier::external_body] pub fn vp_at(&self, b: BasicBlock) -> (r: &BasicBlockData) ensures *r == data_of(b) { unimplemented!() } }
pub struct Body { pub basic_blocks: BasicBlocks }
#[verifier::external_body] pub struct CleanedBody<'tcx> { x: &'tcx u8 }
impl<'tcx> CleanedBody<'tcx> {
  #[verifier::external_body] pub fn body(&self) -> (r: &Body) { unimplemented!() }
  #[verifier::external_body] pub fn start_node(&self) -> (r: BasicBlock) ensures r == entry() { unimplemented!() }
  #[verifier::external_body] pub fn successors(&self, b: BasicBlock) -> (r: Vec<BasicBlock>) ensures r@ == succ(b) { unimplemented!() }
  #[verifier::external_body] pub fn is_false_edge(&self, b: BasicBlock) -> (r: bool) ensures r == false_edge(b) { unimplemented!() }
}
#[verifier::external_body] pub fn depth_first_search(g: &CleanedBody<'_>, root: BasicBlock) -> (r: It<BasicBlock>) ensures forall|b: BasicBlock| #![trigger r.s().contains(b)] #![trigger reaches(root, b)] r.s().contains(b) <==> reaches(root, b) { unimplemented!() }
pub struct IRMapper<'tcx> { pub cleaned_graph: CleanedBody<'tcx> }
impl<'tcx> IRMapper<'tcx> {
  #[verifier::external_body] pub fn dominates(&self, a: BasicBlock, b: BasicBlock) -> (r: bool) ensures r == dom(a, b) { unimplemented!() }
  #[verifier::external_body] pub fn post_dominates(&self, a: BasicBlock, b: BasicBlock) -> (r: bool) ensures r == pdom(a, b) { unimplemented!() }
  #[verifier::external_body] pub fn ldominates(&self, a: Location, b: Location) -> (r: bool) ensures r == ldom(a, b) { unimplemented!() }
  #[verifier::external_body] pub fn lpost_dominates(&self, a: Location, b: Location) -> (r: bool) ensures r == lpdom(a, b) { unimplemented!() }
}
""" + iters.STUBS + r"""
/// a set read as such; it lists its elements in some order
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VSet<T> { x: core::marker::PhantomData<T> }
impl<T> View for VSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
pub uninterp spec fn listing<T>(s: Set<T>) -> Seq<T>;
pub axiom fn axiom_listing<T>(s: Set<T>) ensures forall|x: T| listing(s).contains(x) <==> s.contains(x);
impl<T> VSet<T> {
  #[verifier::external_body] pub fn contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
  #[verifier::external_body] pub fn vp_iter(&self) -> (r: It<&T>) ensures r.s() == vp_refs(listing(self@)) { unimplemented!() }
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
}
impl<T> FromIt<T> for VSet<T> { open spec fn holds(&self, s: Seq<T>) -> bool { forall|x: T| self@.contains(x) <==> s.contains(x) } }
/// a vector indexed by its own kind of number
pub trait Ix: Sized { spec fn n(&self) -> int; }
impl Ix for SegmentId { open spec fn n(&self) -> int { self.x as int } }
impl Ix for BranchId { open spec fn n(&self) -> int { self.x as int } }
impl Ix for CollectionId { open spec fn n(&self) -> int { self.x as int } }
#[verifier::reject_recursive_types(I)] pub struct IndexVec<I, T> { pub v: Vec<T>, pub i: core::marker::PhantomData<I> }
pub type Frozen<T> = T;
impl<I: Ix, T> IndexVec<I, T> {
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.v@ == Seq::<T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn push(&mut self, x: T) -> (r: I) ensures r.n() == old(self).v@.len(), final(self).v@ == old(self).v@.push(x), final(self).v@.len() <= usize::MAX { unimplemented!() }
  #[verifier::external_body] pub fn vp_at(&self, i: I) -> (r: &T) requires 0 <= i.n() < self.v@.len(), ensures *r == self.v@[i.n()] { unimplemented!() }
  #[verifier::external_body] pub fn vp_mut(&mut self, i: I) -> (r: &mut T) requires 0 <= i.n() < old(self).v@.len(), ensures *r == old(self).v@[i.n()], final(self).v@ == old(self).v@.update(i.n(), *final(r)) { unimplemented!() }
  #[verifier::external_body] pub fn iter_enumerated(&self) -> (r: It<(I, &T)>) ensures r.s().len() == self.v@.len(), forall|k: int| 0 <= k < r.s().len() ==> (#[trigger] r.s()[k]).0.n() == k && *r.s()[k].1 == self.v@[k] { unimplemented!() }
}
pub trait VecAt<T> { fn vp_at_mut(&mut self, i: usize) -> (r: &mut T) where Self: View<V = Seq<T>> requires i < old(self)@.len(), ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r));
  fn vp_iter_mut(&mut self) -> (r: VMut<'_, T>) where Self: View<V = Seq<T>> ensures r.now() == old(self)@, r.then() == final(self)@, r.order() == Seq::new(old(self)@.len(), |i: int| i); }
impl<T> VecAt<T> for Vec<T> { #[verifier::external_body] fn vp_at_mut(&mut self, i: usize) -> (r: &mut T) { unimplemented!() } #[verifier::external_body] fn vp_iter_mut(&mut self) -> VMut<'_, T> { unimplemented!() } }
pub trait VpExtract<T>: View<V = Seq<T>> { fn vp_extract_if<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: (It<T>, Ghost<Seq<bool>>))
    requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (&#[trigger] old(self)@[i],)),
    ensures r.1@.len() == old(self)@.len(), final(self)@ == vp_pick(old(self)@, r.1@), forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (&old(self)@[i],), !#[trigger] r.1@[i]); }
impl<T> VpExtract<T> for Vec<T> { #[verifier::external_body] fn vp_extract_if<F: Fn(&T) -> bool>(&mut self, f: F) -> (It<T>, Ghost<Seq<bool>>) { unimplemented!() } }
pub trait Keys<K, V>: View<V = Map<K, V>> { fn vp_keys(&self) -> (r: It<&K>) ensures forall|i: int| 0 <= i < r.s().len() ==> self@.contains_key(*#[trigger] r.s()[i]), forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r.s().len() && *#[trigger] r.s()[i] == k; }
impl<K, V> Keys<K, V> for HashMap<K, V> { #[verifier::external_body] fn vp_keys(&self) -> It<&K> { unimplemented!() } }
/// a walk over a vector that may change the element it finds
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VMut<'a, T> { v: &'a mut Vec<T> }
impl<'a, T> VMut<'a, T> {
  pub uninterp spec fn now(&self) -> Seq<T>;
  pub uninterp spec fn then(&self) -> Seq<T>;
  pub uninterp spec fn order(&self) -> Seq<int>;
  #[verifier::external_body] pub fn rev(self) -> (r: VMut<'a, T>) ensures r.now() == self.now(), r.then() == self.then(), r.order() == self.order().reverse() { unimplemented!() }
  #[verifier::external_body] pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<&'a mut T>)
    requires forall|i: int| 0 <= i < self.now().len() ==> call_requires(f, (&#[trigger] self.now()[i],)),
    ensures match r {
      Some(b) => exists|k: int| 0 <= k < self.order().len() && *b == self.now()[#[trigger] self.order()[k]] && call_ensures(f, (&self.now()[self.order()[k]],), true)
        && (forall|j: int| 0 <= j < k ==> call_ensures(f, (&self.now()[#[trigger] self.order()[j]],), false)) && self.then() == self.now().update(self.order()[k], *final(b)) && (*final(b) == *b ==> self.then() == self.now()),
      None => self.then() == self.now() && forall|j: int| 0 <= j < self.order().len() ==> call_ensures(f, (&self.now()[#[trigger] self.order()[j]],), false) } { unimplemented!() }
}
/// which branches the user sees as one: a partition of the table numbers, each class with a representative
#[verifier::external_body] pub struct Classes { x: u8 }
impl Classes {
  pub uninterp spec fn len(&self) -> nat;
  pub uninterp spec fn rep(&self, t: TableId) -> TableId;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.len() == 0 { unimplemented!() }
  #[verifier::external_body] pub fn new_key(&mut self, u: ()) -> (r: TableId) ensures r.x == old(self).len(), final(self).len() == old(self).len() + 1, final(self).rep(r) == r, forall|t: TableId| t.x < old(self).len() ==> #[trigger] final(self).rep(t) == old(self).rep(t) && old(self).rep(t).x < old(self).len() { unimplemented!() }
  #[verifier::external_body] pub fn unioned(&self, a: TableId, b: TableId) -> (r: bool) requires a.x < self.len(), b.x < self.len(), ensures r == (self.rep(a) == self.rep(b)) { unimplemented!() }
  #[verifier::external_body] pub fn find(&self, a: TableId) -> (r: TableId) requires a.x < self.len(), ensures r == self.rep(a) { unimplemented!() }
  #[verifier::external_body] pub fn union(&mut self, a: TableId, b: TableId) requires a.x < old(self).len(), b.x < old(self).len(),
    ensures final(self).len() == old(self).len(), forall|s: TableId, t: TableId| s.x < old(self).len() && t.x < old(self).len() ==> (#[trigger] final(self).rep(s) == #[trigger] final(self).rep(t) <==> same(old(self), s, t, a, b)) { unimplemented!() }
}
pub open spec fn same(u: &Classes, s: TableId, t: TableId, a: TableId, b: TableId) -> bool { u.rep(s) == u.rep(t) || (u.rep(s) == u.rep(a) && u.rep(t) == u.rep(b)) || (u.rep(s) == u.rep(b) && u.rep(t) == u.rep(a)) }
/// where a step into a target of a branch ends, and the source it stands for
#[verifier::external_body] pub struct Spanner<'a> { x: &'a u8 }
impl<'a> Spanner<'a> {
  pub uninterp spec fn moved(&self, l: Location) -> Location;
  pub uninterp spec fn spans(&self, l: Location) -> Span;
  #[verifier::external_body] pub fn call(&self, l: &mut Location) -> (r: Span) ensures *final(l) == self.moved(*old(l)), r == self.spans(*old(l)) { unimplemented!() }
}
/// which scope was opened inside which
#[verifier::external_body] #[verifier::reject_recursive_types(I)] pub struct TransitiveRelationBuilder<I> { x: core::marker::PhantomData<I> }
impl<I> TransitiveRelationBuilder<I> {
  pub uninterp spec fn edges(&self) -> Set<(I, I)>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.edges() == Set::<(I, I)>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn add(&mut self, a: I, b: I) ensures final(self).edges() == old(self).edges().insert((a, b)) { unimplemented!() }
  #[verifier::external_body] pub fn freeze(self) -> (r: TransitiveRelation<I>) ensures r.edges() == self.edges() { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(I)] pub struct TransitiveRelation<I> { x: core::marker::PhantomData<I> }
impl<I> TransitiveRelation<I> { pub uninterp spec fn edges(&self) -> Set<(I, I)>; }
impl ScopeId {
  #[verifier::external_body] pub fn plus(self, n: usize) -> (r: ScopeId) ensures r.x == self.x + n { unimplemented!() }
  #[verifier::external_body] pub fn increment_by(&mut self, n: usize) ensures final(self).x == old(self).x + n { unimplemented!() }
}
pub fn vp_base_scope() -> (r: ScopeId) ensures r.x == 0 { ScopeId { x: 0 } }
/// the blocks on the only way on from a block
pub open spec fn way(b: BasicBlock, n: nat) -> Option<BasicBlock> decreases n { if n == 0 { Some(b) } else { match way(b, (n - 1) as nat) { Some(c) => if succ(c).len() == 1 { Some(succ(c)[0]) } else { None }, None => None } } }
pub open spec fn switch_on(b: BasicBlock, n: nat) -> bool { way(b, n) is Some && switches(way(b, n)->Some_0) }
/// the first switch on the only way on
pub open spec fn first_switch(b: BasicBlock, n: nat) -> bool { switch_on(b, n) && forall|m: nat| m < n ==> !#[trigger] switch_on(b, m) }
pub open spec fn switch_end(b: BasicBlock) -> Location { Location { block: b, statement_index: data_of(b).statements@.len() as usize } }
/// where the branch that starts after a location splits: at the end of the first block with a switchInt on the only way on
pub open spec fn next_switch(l: Location) -> Option<Location> { if exists|n: nat| #[trigger] first_switch(l.block, n) { let n = choose|n: nat| #[trigger] first_switch(l.block, n); Some(switch_end(way(l.block, n)->Some_0)) } else { None } }
pub proof fn lemma_switch(l: Location, n: nat) requires first_switch(l.block, n) ensures next_switch(l) == Some(switch_end(way(l.block, n)->Some_0))
{ let m = choose|m: nat| #[trigger] first_switch(l.block, m); if m < n { assert(!switch_on(l.block, m)); } if n < m { assert(!switch_on(l.block, n)); } }
pub proof fn lemma_around(b: BasicBlock, m: nat, n: nat, k: nat) requires way(b, m) == way(b, n), m < n <= k, ensures way(b, k) == way(b, (k - (n - m)) as nat) decreases k
{ if k > n { lemma_around(b, m, n, (k - 1) as nat); } }
/// no switch before the way ends or comes back to itself: no switch at all
pub proof fn lemma_no_switch(l: Location, n: nat)
  requires forall|m: nat| m < n ==> !#[trigger] switch_on(l.block, m), way(l.block, n) is None || exists|m: nat| m < n && #[trigger] way(l.block, m) == way(l.block, n),
  ensures next_switch(l) is None
{
  let b = l.block;
  assert forall|k: nat| !#[trigger] first_switch(b, k) by { if first_switch(b, k) {
    if k >= n { if way(b, n) is None { lemma_ended(b, n, k); } else { let m = choose|m: nat| m < n && #[trigger] way(b, m) == way(b, n); lemma_around(b, m, n, k); let j = (k - (n - m)) as nat; assert(switch_on(b, j)); assert(j < k); } } } }
}
pub proof fn lemma_ended(b: BasicBlock, n: nat, k: nat) requires way(b, n) is None, n <= k ensures way(b, k) is None decreases k { if k > n { lemma_ended(b, n, (k - 1) as nat); } }
/// the indices of a sequence from the last to the first
pub open spec fn down(n: nat) -> Seq<int> { Seq::new(n, |i: int| n - 1 - i) }
"""

TREE = r"""
/// where each part of the structure stands
pub enum Use { In(int, int), Split(int, int) }
pub struct Tree { pub starts: Seq<Location>, pub up: Seq<(int, int)>, pub home: Seq<(int, int)>, pub at: Seq<Use> }
"""

SPEC = r"""
/// the structure built so far
pub struct G { pub cols: Seq<Collection>, pub brs: Seq<BranchData>, pub segs: Seq<SegmentData>, pub tree: Tree }
pub open spec fn after(g: G, cur: Location, p: CFKind) -> Location {
  match p { CFKind::Linear(s) => g.segs[s.x as int].segment.to, CFKind::Branch(b) => { let r = g.brs[b.x as int].reach; if r.to != r.from { r.to } else { cur } } }
}
/// where the first k parts of a collection end
pub open spec fn ends(g: G, c: int, k: int) -> Location decreases k { if k <= 0 { g.tree.starts[c] } else { after(g, ends(g, c, k - 1), g.cols[c].data@[k - 1]) } }
/// The whole way from one place to the other: either the place asked for, or the join point the collection is bounded by if that lies before it.
pub open spec fn linear(kind: LengthKind, from: Location, to: Location) -> bool { exists|asked: Location| #[trigger] reaching(kind, from, to, asked) }
pub open spec fn reaching(kind: LengthKind, from: Location, to: Location, asked: Location) -> bool {
  &&& ldom(from, asked) && lpdom(asked, from)
  &&& match kind { LengthKind::Bounded { root, phi } => to == (if ldom(phi, asked) { phi } else { asked }), LengthKind::Unbounded { root } => to == asked }
}
pub open spec fn switch_at(l: Location) -> Location { match next_switch(l) { Some(s) => s, None => l } }
/// blocks behind the root
pub open spec fn behind(root: BasicBlock, b: BasicBlock) -> bool { reaches(root, b) && dom(root, b) }
pub open spec fn most(root: BasicBlock, m: BasicBlock) -> bool { behind(root, m) && forall|n: BasicBlock| #[trigger] behind(root, n) ==> pdom(m, n) }
pub open spec fn join(root: BasicBlock, m: BasicBlock, b: BasicBlock) -> bool { behind(root, b) && b != root && !false_edge(b) && dom(b, m) }
pub open spec fn least(root: BasicBlock, m: BasicBlock, b: BasicBlock) -> bool { join(root, m, b) && forall|n: BasicBlock| #[trigger] join(root, m, n) ==> dom(b, n) }
/// where the ways from a switch meet again
pub open spec fn meets(root: BasicBlock, r: Option<BasicBlock>) -> bool {
  match r { Some(b) => exists|m: BasicBlock| #[trigger] most(root, m) && least(root, m, b),
    None => (forall|m: BasicBlock| !#[trigger] most(root, m)) || (exists|m: BasicBlock| #[trigger] most(root, m) && forall|b: BasicBlock| !#[trigger] least(root, m, b)) }
}
pub open spec fn part_ok(g: G, c: int, k: int) -> bool {
  match g.cols[c].data@[k] {
    CFKind::Linear(s) => s.x < g.segs.len() && g.tree.at[s.x as int] == Use::In(c, k) && g.segs[s.x as int].segment.from == ends(g, c, k) && linear(g.cols[c].kind, ends(g, c, k), g.segs[s.x as int].segment.to),
    CFKind::Branch(b) => b.x < g.brs.len() && g.tree.home[b.x as int] == (c, k) && branch_ok(g, b.x as int, c, ends(g, c, k)),
  }
}
pub open spec fn joined(d: BranchData) -> Option<Location> { if d.reach.to != d.reach.from { Some(d.reach.to) } else { None } }
pub open spec fn branch_ok(g: G, b: int, c: int, cur: Location) -> bool {
  let d = g.brs[b];
  &&& d.reach.from == switch_at(cur)
  &&& exists|phi: Option<BasicBlock>| #[trigger] meets(d.reach.from.block, phi) && d.reach.to == (match phi { Some(p) => start(p), None => d.reach.from })
  &&& d.splits@.len() == d.nested@.len() && d.joins@.len() == 0
  &&& forall|i: int| 0 <= i < d.nested@.len() ==> #[trigger] split_ok(g, b, c, cur, i)
}
pub open spec fn split_ok(g: G, b: int, c: int, cur: Location, i: int) -> bool {
  let d = g.brs[b]; let s = d.splits@[i].x as int; let n = d.nested@[i].x as int;
  &&& s < g.segs.len() && g.tree.at[s] == Use::Split(b, i) && g.segs[s].segment.from == cur
  &&& c < n < g.cols.len() && g.tree.up[n] == (b, i) && g.tree.starts[n] == g.segs[s].segment.to
  &&& g.cols[n].kind == (match joined(d) { Some(phi) => LengthKind::Bounded { root: cur, phi }, None => LengthKind::Unbounded { root: cur } })
}
/// Everything stands in one place, and every collection is one unbroken way.
pub open spec fn ok(g: G) -> bool {
  &&& g.tree.starts.len() == g.cols.len() && g.tree.up.len() == g.cols.len() && g.tree.home.len() == g.brs.len() && g.tree.at.len() == g.segs.len()
  &&& g.cols.len() > 0 && g.tree.starts[0] == start(entry())
  &&& forall|c: int, k: int| #![trigger g.cols[c].data@[k]] 0 <= c < g.cols.len() && 0 <= k < g.cols[c].data@.len() ==> part_ok(g, c, k)
  &&& forall|b: int| 0 <= b < g.brs.len() ==> home_ok(g, b, #[trigger] g.tree.home[b])
  &&& forall|c: int| 0 < c < g.cols.len() ==> up_ok(g, c, #[trigger] g.tree.up[c])
  &&& forall|s: int| 0 <= s < g.segs.len() ==> use_ok(g, s, #[trigger] g.tree.at[s])
}
pub open spec fn home_ok(g: G, b: int, h: (int, int)) -> bool { 0 <= h.0 < g.cols.len() && 0 <= h.1 < g.cols[h.0].data@.len() && (g.cols[h.0].data@[h.1] matches CFKind::Branch(x) && x.x == b) }
pub open spec fn up_ok(g: G, c: int, u: (int, int)) -> bool { 0 <= u.0 < g.brs.len() && 0 <= u.1 < g.brs[u.0].nested@.len() && g.brs[u.0].nested@[u.1].x == c }
pub open spec fn use_ok(g: G, s: int, u: Use) -> bool {
  match u { Use::In(c, k) => 0 <= c < g.cols.len() && 0 <= k < g.cols[c].data@.len() && (g.cols[c].data@[k] matches CFKind::Linear(x) && x.x == s),
    Use::Split(b, i) => 0 <= b < g.brs.len() && 0 <= i < g.brs[b].splits@.len() && g.brs[b].splits@[i].x == s }
}
pub open spec fn open_ok(g: G, p: Seq<CollectionBuilder>) -> bool {
  &&& forall|i: int| 0 <= i < p.len() ==> at_end(g, #[trigger] p[i])
  &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).collection != (#[trigger] p[j]).collection
}
pub open spec fn at_end(g: G, b: CollectionBuilder) -> bool { b.collection.x < g.cols.len() && b.current_location == ends(g, b.collection.x as int, g.cols[b.collection.x as int].data@.len() as int) }
/// every branch has one way for each successor of its switch
pub open spec fn complete(g: G) -> bool { forall|b: int| 0 <= b < g.brs.len() ==> (#[trigger] g.brs[b]).nested@.len() == succ(g.brs[b].reach.from.block).len() }
/// nothing that was there changes
pub open spec fn same_branch(a: BranchData, b: BranchData) -> bool { a.table_id == b.table_id && a.scope == b.scope && a.reach == b.reach && a.splits@ == b.splits@ && a.nested@ == b.nested@ && a.joins@ == b.joins@ }
pub open spec fn prefix<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == a[k] }
pub open spec fn grown(g: G, h: G) -> bool {
  &&& g.cols.len() <= h.cols.len() && g.brs.len() <= h.brs.len() && g.segs.len() <= h.segs.len()
  &&& forall|c: int| 0 <= c < g.cols.len() ==> (#[trigger] h.cols[c]).kind == g.cols[c].kind && prefix(g.cols[c].data@, h.cols[c].data@)
  &&& forall|b: int| 0 <= b < g.brs.len() ==> same_branch(g.brs[b], #[trigger] h.brs[b])
  &&& forall|s: int| 0 <= s < g.segs.len() ==> #[trigger] h.segs[s] == g.segs[s]
  &&& forall|c: int| 0 <= c < g.cols.len() ==> #[trigger] h.tree.starts[c] == g.tree.starts[c] && h.tree.up[c] == g.tree.up[c]
  &&& forall|b: int| 0 <= b < g.brs.len() ==> #[trigger] h.tree.home[b] == g.tree.home[b]
  &&& forall|s: int| 0 <= s < g.segs.len() ==> #[trigger] h.tree.at[s] == g.tree.at[s]
}
"""

LEMMAS = r"""
pub proof fn lemma_ends(g: G, h: G, c: int, k: int)
  requires ok(g), grown(g, h), 0 <= c < g.cols.len(), 0 <= k <= g.cols[c].data@.len(),
  ensures ends(h, c, k) == ends(g, c, k)
  decreases k
{ if k > 0 { lemma_ends(g, h, c, k - 1); assert(h.cols[c].data@[k - 1] == g.cols[c].data@[k - 1]); assert(part_ok(g, c, k - 1)); assert(h.tree.starts[c] == g.tree.starts[c]);
    match g.cols[c].data@[k - 1] { CFKind::Linear(s) => { assert(h.segs[s.x as int] == g.segs[s.x as int]); } CFKind::Branch(b) => { assert(same_branch(g.brs[b.x as int], h.brs[b.x as int])); } } }
  else { assert(h.tree.starts[c] == g.tree.starts[c]); } }
pub proof fn lemma_part(g: G, h: G, c: int, k: int)
  requires ok(g), grown(g, h), 0 <= c < g.cols.len(), 0 <= k < g.cols[c].data@.len(),
  ensures part_ok(h, c, k)
{
  assert(h.cols[c].data@[k] == g.cols[c].data@[k]); assert(part_ok(g, c, k)); lemma_ends(g, h, c, k); assert(h.cols[c].kind == g.cols[c].kind);
  match g.cols[c].data@[k] {
    CFKind::Linear(s) => { assert(h.segs[s.x as int] == g.segs[s.x as int]); assert(h.tree.at[s.x as int] == g.tree.at[s.x as int]); }
    CFKind::Branch(b) => {
      let x = b.x as int; let cur = ends(g, c, k); assert(same_branch(g.brs[x], h.brs[x])); assert(h.tree.home[x] == g.tree.home[x]);
      assert(branch_ok(g, x, c, cur));
      assert forall|i: int| 0 <= i < h.brs[x].nested@.len() implies #[trigger] split_ok(h, x, c, cur, i) by {
        assert(split_ok(g, x, c, cur, i)); let s = g.brs[x].splits@[i].x as int; let n = g.brs[x].nested@[i].x as int;
        assert(h.segs[s] == g.segs[s]); assert(h.tree.at[s] == g.tree.at[s]); assert(h.tree.starts[n] == g.tree.starts[n]); assert(h.cols[n].kind == g.cols[n].kind); }
    }
  }
}
/// what stood keeps standing; only what is new has to be looked at
pub proof fn lemma_ok(g: G, h: G)
  requires ok(g), grown(g, h), h.tree.starts.len() == h.cols.len(), h.tree.up.len() == h.cols.len(), h.tree.home.len() == h.brs.len(), h.tree.at.len() == h.segs.len(),
    forall|c: int, k: int| #![trigger h.cols[c].data@[k]] 0 <= c < h.cols.len() && 0 <= k < h.cols[c].data@.len() && (c >= g.cols.len() || k >= g.cols[c].data@.len()) ==> part_ok(h, c, k),
    forall|b: int| g.brs.len() <= b < h.brs.len() ==> home_ok(h, b, #[trigger] h.tree.home[b]),
    forall|c: int| g.cols.len() <= c < h.cols.len() ==> up_ok(h, c, #[trigger] h.tree.up[c]),
    forall|s: int| g.segs.len() <= s < h.segs.len() ==> use_ok(h, s, #[trigger] h.tree.at[s]),
  ensures ok(h)
{
  assert(h.tree.starts[0] == g.tree.starts[0]);
  assert forall|c: int, k: int| #![trigger h.cols[c].data@[k]] 0 <= c < h.cols.len() && 0 <= k < h.cols[c].data@.len() implies part_ok(h, c, k) by {
    if c < g.cols.len() && k < g.cols[c].data@.len() { lemma_part(g, h, c, k); } }
  assert forall|b: int| 0 <= b < h.brs.len() implies home_ok(h, b, #[trigger] h.tree.home[b]) by {
    if b < g.brs.len() { let t = g.tree.home[b]; assert(home_ok(g, b, t)); assert(h.cols[t.0].data@[t.1] == g.cols[t.0].data@[t.1]); } }
  assert forall|c: int| 0 < c < h.cols.len() implies up_ok(h, c, #[trigger] h.tree.up[c]) by {
    if c < g.cols.len() { let t = g.tree.up[c]; assert(up_ok(g, c, t)); assert(h.tree.starts[c] == g.tree.starts[c]); assert(same_branch(g.brs[t.0], h.brs[t.0])); } }
  assert forall|s: int| 0 <= s < h.segs.len() implies use_ok(h, s, #[trigger] h.tree.at[s]) by {
    if s < g.segs.len() { let t = g.tree.at[s]; assert(use_ok(g, s, t)); match t { Use::In(c, k) => { assert(h.cols[c].data@[k] == g.cols[c].data@[k]); } Use::Split(b, i) => { assert(same_branch(g.brs[b], h.brs[b])); } } } }
}
pub proof fn lemma_grown(g: G) ensures grown(g, g) { }
pub proof fn lemma_grown_to(g: G, h: G) requires grown(g, h) ensures forall|k: G| #[trigger] grown(h, k) ==> grown(g, k)
{ assert forall|k: G| #[trigger] grown(h, k) implies grown(g, k) by {
    assert forall|c: int| 0 <= c < g.cols.len() implies (#[trigger] k.cols[c]).kind == g.cols[c].kind && prefix(g.cols[c].data@, k.cols[c].data@) by { assert(h.cols[c].kind == g.cols[c].kind && prefix(g.cols[c].data@, h.cols[c].data@)); assert(prefix(h.cols[c].data@, k.cols[c].data@)); assert forall|i: int| 0 <= i < g.cols[c].data@.len() implies #[trigger] k.cols[c].data@[i] == g.cols[c].data@[i] by { assert(h.cols[c].data@[i] == g.cols[c].data@[i]); } }
    assert forall|b: int| 0 <= b < g.brs.len() implies same_branch(g.brs[b], #[trigger] k.brs[b]) by { assert(same_branch(g.brs[b], h.brs[b])); assert(same_branch(h.brs[b], k.brs[b])); }
    assert forall|s: int| 0 <= s < g.segs.len() implies #[trigger] k.segs[s] == g.segs[s] by { assert(h.segs[s] == g.segs[s]); }
    assert forall|c: int| 0 <= c < g.cols.len() implies #[trigger] k.tree.starts[c] == g.tree.starts[c] && k.tree.up[c] == g.tree.up[c] by { assert(h.tree.starts[c] == g.tree.starts[c]); }
    assert forall|b: int| 0 <= b < g.brs.len() implies #[trigger] k.tree.home[b] == g.tree.home[b] by { assert(h.tree.home[b] == g.tree.home[b]); }
    assert forall|s: int| 0 <= s < g.segs.len() implies #[trigger] k.tree.at[s] == g.tree.at[s] by { assert(h.tree.at[s] == g.tree.at[s]); } } }
pub proof fn lemma_at_end(g: G, h: G, b: CollectionBuilder)
  requires ok(g), grown(g, h), at_end(g, b), h.cols[b.collection.x as int].data@ == g.cols[b.collection.x as int].data@,
  ensures at_end(h, b)
{ let c = b.collection.x as int; lemma_ends(g, h, c, g.cols[c].data@.len() as int); }
/// the builder found: the last one opened whose end lies before the location
pub open spec fn picked(p: Seq<CollectionBuilder>, l: Location, i: int) -> bool { 0 <= i < p.len() && ldom(p[i].current_location, l) && forall|j: int| i < j < p.len() ==> !ldom((#[trigger] p[j]).current_location, l) }
pub open spec fn pick(p: Seq<CollectionBuilder>, l: Location) -> int decreases p.len() { if p.len() == 0 { -1 } else if ldom(p.last().current_location, l) { p.len() - 1 } else { pick(p.drop_last(), l) } }
pub proof fn lemma_picked(p: Seq<CollectionBuilder>, l: Location)
  ensures pick(p, l) == -1 || picked(p, l, pick(p, l)), forall|i: int| #[trigger] picked(p, l, i) ==> pick(p, l) == i,
    pick(p, l) == -1 <==> (forall|j: int| 0 <= j < p.len() ==> !ldom((#[trigger] p[j]).current_location, l)),
  decreases p.len()
{
  if p.len() > 0 { let q = p.drop_last(); lemma_picked(q, l);
    if !ldom(p.last().current_location, l) {
      let i = pick(q, l); if i >= 0 { assert(picked(q, l, i)); assert forall|j: int| i < j < p.len() implies !ldom((#[trigger] p[j]).current_location, l) by { if j < q.len() { assert(q[j] == p[j]); } } assert(picked(p, l, i)); }
      else { assert forall|j: int| 0 <= j < p.len() implies !ldom((#[trigger] p[j]).current_location, l) by { if j < q.len() { assert(q[j] == p[j]); } } } } }
}
/// how far the builder found is from the location, where a branch must be opened on the way
pub open spec fn far(p: Seq<CollectionBuilder>, l: Location) -> nat { let i = pick(p, l); if i >= 0 && !lpdom(l, p[i].current_location) && p[i].collection.x != 0 { (1 + depth(l) - depth(p[i].current_location)) as nat } else { 0 } }
pub open spec fn in_set(s: Set<CollectionId>) -> spec_fn(CollectionId) -> bool { |c: CollectionId| s.contains(c) }
/// the builders of collections that are not gone
pub open spec fn without(p: Seq<CollectionBuilder>, gone: spec_fn(CollectionId) -> bool) -> Seq<CollectionBuilder> decreases p.len() { if p.len() == 0 { p } else { let r = without(p.drop_last(), gone); if gone(p.last().collection) { r } else { r.push(p.last()) } } }
pub proof fn lemma_without(p: Seq<CollectionBuilder>, a: spec_fn(CollectionId) -> bool, b: spec_fn(CollectionId) -> bool, c: spec_fn(CollectionId) -> bool)
  requires forall|x: CollectionId| #[trigger] c(x) <==> a(x) || b(x),
  ensures without(without(p, a), b) == without(p, c),
  decreases p.len()
{ if p.len() > 0 { lemma_without(p.drop_last(), a, b, c); let r = without(p.drop_last(), a); assert(c(p.last().collection) <==> a(p.last().collection) || b(p.last().collection)); if !a(p.last().collection) { assert(r.push(p.last()).drop_last() =~= r); } } }
pub proof fn lemma_same(p: Seq<CollectionBuilder>, a: spec_fn(CollectionId) -> bool, b: spec_fn(CollectionId) -> bool)
  requires forall|x: CollectionId| #[trigger] a(x) <==> b(x), ensures without(p, a) == without(p, b), decreases p.len()
{ if p.len() > 0 { lemma_same(p.drop_last(), a, b); assert(a(p.last().collection) <==> b(p.last().collection)); } }
pub proof fn lemma_none(p: Seq<CollectionBuilder>, a: spec_fn(CollectionId) -> bool)
  requires forall|i: int| 0 <= i < p.len() ==> !a((#[trigger] p[i]).collection), ensures without(p, a) == p, decreases p.len()
{ if p.len() > 0 { let q = p.drop_last(); assert forall|i: int| 0 <= i < q.len() implies !a((#[trigger] q[i]).collection) by { assert(q[i] == p[i]); } lemma_none(q, a); assert(!a(p[p.len() - 1].collection)); assert(q.push(p.last()) =~= p); } }
pub proof fn lemma_kept(p: Seq<CollectionBuilder>, keep: Seq<bool>, gone: spec_fn(CollectionId) -> bool)
  requires p.len() == keep.len(), forall|i: int| 0 <= i < p.len() ==> #[trigger] keep[i] == !gone(p[i].collection), ensures vp_pick(p, keep) == without(p, gone), decreases p.len()
{ if p.len() > 0 { let q = p.drop_last(); let k = keep.drop_last(); assert forall|i: int| 0 <= i < q.len() implies #[trigger] k[i] == !gone(q[i].collection) by { assert(keep[i] == !gone(p[i].collection)); } lemma_kept(q, k, gone); assert(keep[p.len() - 1] == !gone(p[p.len() - 1].collection)); } }
pub proof fn lemma_without_in(p: Seq<CollectionBuilder>, a: spec_fn(CollectionId) -> bool)
  ensures without(p, a).len() <= p.len(), forall|i: int| 0 <= i < without(p, a).len() ==> origin(p, a, i, #[trigger] without(p, a)[i]),
    forall|i: int, j: int| 0 <= i < j < without(p, a).len() ==> apart(p, #[trigger] without(p, a)[i], #[trigger] without(p, a)[j]),
    p.len() > 0 && !a(p[0].collection) ==> without(p, a).len() > 0 && without(p, a)[0] == p[0],
  decreases p.len()
{ if p.len() > 0 { let q = p.drop_last(); lemma_without_in(q, a); let r = without(q, a); let s = without(p, a);
    assert forall|i: int| 0 <= i < s.len() implies origin(p, a, i, #[trigger] s[i]) by {
      if i < r.len() { assert(origin(q, a, i, r[i])); let j = choose|j: int| i <= j < q.len() && #[trigger] q[j] == r[i] && !a(q[j].collection); assert(p[j] == q[j]); assert(s[i] == p[j]); }
      else { assert(p[p.len() - 1] == s[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies apart(p, #[trigger] s[i], #[trigger] s[j]) by {
      if j < r.len() { assert(apart(q, r[i], r[j])); let (k, l) = choose|k: int, l: int| 0 <= k < l < q.len() && #[trigger] q[k] == r[i] && #[trigger] q[l] == r[j]; assert(p[k] == q[k] && p[l] == q[l]); }
      else { assert(origin(q, a, i, r[i])); let k = choose|k: int| i <= k < q.len() && #[trigger] q[k] == r[i] && !a(q[k].collection); assert(p[k] == q[k]); assert(p[p.len() - 1] == s[j]); } } } }
pub open spec fn apart(p: Seq<CollectionBuilder>, x: CollectionBuilder, y: CollectionBuilder) -> bool { exists|k: int, l: int| 0 <= k < l < p.len() && #[trigger] p[k] == x && #[trigger] p[l] == y }
pub open spec fn origin(p: Seq<CollectionBuilder>, a: spec_fn(CollectionId) -> bool, i: int, b: CollectionBuilder) -> bool { exists|j: int| i <= j < p.len() && #[trigger] p[j] == b && !a(p[j].collection) }
"""

STATE = r"""
/// what of the builder's state counts
pub struct V<'a> { pub g: G, pub p: Seq<CollectionBuilder>, pub roots: Map<BranchId, Spanner<'a>>, pub classes: Classes, pub scopes: Seq<ScopeId>, pub first: CollectionId }
pub open spec fn v_of<'a>(s: &SegmentedMirBuilder<'a, '_>) -> V<'a> { V { g: G { cols: s.collections.v@, brs: s.branches.v@, segs: s.segments.v@, tree: s.tree@ }, p: s.processing.0@, roots: s.root_mappings@, classes: s.branch_roots, scopes: s.open_scopes@, first: s.first_collection } }
/// collections inside the branches of the same class
pub open spec fn closing(v: V<'_>, bid: BranchId) -> spec_fn(CollectionId) -> bool { |c: CollectionId| exists|b: int| 0 <= b < v.g.brs.len() && v.classes.rep((#[trigger] v.g.brs[b]).table_id) == v.classes.rep(v.g.brs[bid.x as int].table_id) && v.g.brs[b].nested@.contains(c) }
/// some branch the user opened is of the same class
pub open spec fn rooted(v: V<'_>, t: TableId) -> bool { exists|k: BranchId| #[trigger] v.roots.contains_key(k) && v.classes.rep(v.g.brs[k.x as int].table_id) == v.classes.rep(t) }
pub open spec fn tables(v: V<'_>) -> bool {
  &&& forall|b: int| 0 <= b < v.g.brs.len() ==> (#[trigger] v.g.brs[b]).table_id.x < v.classes.len()
  &&& forall|k: BranchId| #[trigger] v.roots.contains_key(k) ==> k.x < v.g.brs.len()
}
pub open spec fn all_rooted(v: V<'_>) -> bool { forall|b: int| 0 <= b < v.g.brs.len() ==> rooted(v, (#[trigger] v.g.brs[b]).table_id) }
/// everything but that each class of branches has a root
pub open spec fn inv0(v: V<'_>) -> bool {
  &&& ok(v.g) && open_ok(v.g, v.p) && complete(v.g) && tables(v)
  &&& scoped(v.scopes) && v.first.x == 0
  &&& v.p.len() > 0 && v.p[0].collection.x == 0
}
pub open spec fn scoped(s: Seq<ScopeId>) -> bool { s.len() > 0 && s[0].x == 0 && (forall|i: int| 0 < i < s.len() ==> #[trigger] s[i].x != 0) }
pub proof fn lemma_scopes<'a>(v: V<'a>, w: V<'a>)
  requires inv0(v), all_rooted(v), w == (V { scopes: w.scopes, ..v }), scoped(w.scopes), ensures inv0(w), all_rooted(w)
{ assert forall|b: int| 0 <= b < w.g.brs.len() implies rooted(w, (#[trigger] w.g.brs[b]).table_id) by { assert(rooted(v, v.g.brs[b].table_id)); let k = choose|k: BranchId| #[trigger] v.roots.contains_key(k) && v.classes.rep(v.g.brs[k.x as int].table_id) == v.classes.rep(v.g.brs[b].table_id); assert(w.roots.contains_key(k)); } }
pub open spec fn inv(s: &SegmentedMirBuilder<'_, '_>) -> bool { inv0(v_of(s)) && all_rooted(v_of(s)) && s.next_scope.x > 0 }
"""

PUB = [(r"(?m)^  (?:pub(?:\(super\))? )?(?=[a-z_]+: )", "  pub ", "visibility"), (r"(?m)^(?:pub(?:\(super\))? )?(struct|enum) ", r"pub \1 ", "visibility")]
COMMON = iters.SUBST + [(r"HashSet<", "VSet<", "a set read as such"), (r"\*BASE_SCOPE", "vp_base_scope()", "a lazy static read as its value"), (r"BASE_SCOPE\.", "vp_base_scope().", "a lazy static read as its value"),
          (r"(\w+)::default\(\)", r"\1::new()", "the empty one"), (r"Frozen::freeze\(([\w.]+)\)", r"\1", "a frozen value is that value"),
          (r"(?s)log::(debug|warn)!\(.*?\);", "", "log statement")]

SAME = "final(self).mapper == old(self).mapper, (V { scopes: old(self).open_scopes@, ..v_of(final(self)) }) == v_of(old(self))"
KEPT = "final(self).first_collection == old(self).first_collection, final(self).collections == old(self).collections, final(self).branches == old(self).branches, final(self).segments == old(self).segments, final(self).scope_graph == old(self).scope_graph"

OPEN = r"""
/// where the branch opened at a location splits and where its ways meet again
pub open spec fn reach_ok(l: Location, r: MirSegment) -> bool {
  r.from == switch_at(l) && exists|phi: Option<BasicBlock>| #[trigger] meets(r.from.block, phi) && r.to == (match phi { Some(p) => start(p), None => r.from })
}
pub open spec fn side(l: Location, r: MirSegment) -> LengthKind { if r.to != r.from { LengthKind::Bounded { root: l, phi: r.to } } else { LengthKind::Unbounded { root: l } } }
pub open spec fn leave(l: Location, r: MirSegment) -> Location { if r.to != r.from { r.to } else { l } }
pub open spec fn split_to<'a>(r: MirSegment, get: Spanner<'a>, j: int) -> Location { get.moved(start(succ(r.from.block)[j])) }
/// A branch opened at a location, with its first k ways: it follows the parts of the collection that ends there, which goes on where the ways meet.
pub open spec fn opening<'a>(a: V<'a>, b: V<'a>, l: Location, scope: ScopeId, r: MirSegment, get: Spanner<'a>, k: int) -> bool {
  let i = pick(a.p, l);
  &&& i >= 0 && a.p[i].current_location == l && 0 <= k
  &&& op_brs(a, b, scope, r, k) && op_cols(a.g, b.g, l, a.p[i].collection.x as int, r, k) && op_segs(a.g, b.g, l, scope, r, get, k) && op_open(a, b, l, i, r, get, k)
  &&& b.scopes == a.scopes && b.first == a.first && classed(a.classes, b.classes)
}
pub open spec fn op_brs(a: V<'_>, b: V<'_>, scope: ScopeId, r: MirSegment, k: int) -> bool {
  let nb = a.g.brs.len() as int;
  &&& b.g.brs.len() == nb + 1 && forall|x: int| 0 <= x < nb ==> #[trigger] b.g.brs[x] == a.g.brs[x]
  &&& new_branch(b.g.brs[nb], a.classes.len(), scope, r, a.g.segs.len() as int, a.g.cols.len() as int, k)
}
pub open spec fn op_cols(g: G, h: G, l: Location, c: int, r: MirSegment, k: int) -> bool {
  let nc = g.cols.len() as int;
  &&& h.cols.len() == nc + k && forall|x: int| 0 <= x < nc ==> (#[trigger] h.cols[x]).kind == g.cols[x].kind && h.cols[x].data@ == (if x == c { g.cols[x].data@.push(CFKind::Branch(BranchId { x: g.brs.len() as usize })) } else { g.cols[x].data@ })
  &&& forall|x: int| nc <= x < nc + k ==> (#[trigger] h.cols[x]).data@.len() == 0 && h.cols[x].kind == side(l, r)
}
pub open spec fn op_segs<'a>(g: G, h: G, l: Location, scope: ScopeId, r: MirSegment, get: Spanner<'a>, k: int) -> bool {
  let ns = g.segs.len() as int;
  &&& h.segs.len() == ns + k && forall|x: int| 0 <= x < ns ==> #[trigger] h.segs[x] == g.segs[x]
  &&& forall|x: int| ns <= x < ns + k ==> #[trigger] h.segs[x] == (SegmentData { segment: MirSegment { from: l, to: split_to(r, get, x - ns) }, span: get.spans(start(succ(r.from.block)[x - ns])), scope })
}
pub open spec fn op_open<'a>(a: V<'a>, b: V<'a>, l: Location, i: int, r: MirSegment, get: Spanner<'a>, k: int) -> bool {
  let nc = a.g.cols.len() as int;
  &&& b.p.len() == a.p.len() + k && forall|x: int| 0 <= x < a.p.len() ==> #[trigger] b.p[x] == (if x == i { CollectionBuilder { collection: a.p[i].collection, current_location: leave(l, r) } } else { a.p[x] })
  &&& forall|x: int| a.p.len() <= x < a.p.len() + k ==> #[trigger] b.p[x] == (CollectionBuilder { collection: CollectionId { x: (nc + x - a.p.len()) as usize }, current_location: split_to(r, get, x - a.p.len()) })
}
pub open spec fn new_branch(d: BranchData, t: nat, scope: ScopeId, r: MirSegment, ns: int, nc: int, k: int) -> bool {
  &&& d.table_id.x == t && d.scope == scope && d.reach == r && d.joins@.len() == 0 && d.splits@.len() == k && d.nested@.len() == k
  &&& forall|j: int| 0 <= j < k ==> (#[trigger] d.splits@[j]).x == ns + j
  &&& forall|j: int| 0 <= j < k ==> (#[trigger] d.nested@[j]).x == nc + j
}
pub open spec fn classed(a: Classes, b: Classes) -> bool { b.len() == a.len() + 1 && forall|t: TableId| t.x < a.len() ==> #[trigger] b.rep(t) == a.rep(t) }
pub open spec fn branched<'a>(a: V<'a>, r: MirSegment, get: Spanner<'a>, l: Location) -> Tree {
  let n = succ(r.from.block).len(); let nb = a.g.brs.len() as int; let c = a.p[pick(a.p, l)].collection.x as int; let t = a.g.tree;
  Tree { starts: t.starts + Seq::new(n, |j: int| split_to(r, get, j)), up: t.up + Seq::new(n, |j: int| (nb, j)), home: t.home.push((c, a.g.cols[c].data@.len() as int)), at: t.at + Seq::new(n, |j: int| Use::Split(nb, j)) }
}
pub open spec fn tree_at<'a>(g: G, h: G, c: int, r: MirSegment, get: Spanner<'a>) -> bool {
  let n = succ(r.from.block).len(); let nb = g.brs.len() as int; let t = g.tree;
  h.tree == (Tree { starts: t.starts + Seq::new(n, |j: int| split_to(r, get, j)), up: t.up + Seq::new(n, |j: int| (nb, j)), home: t.home.push((c, g.cols[c].data@.len() as int)), at: t.at + Seq::new(n, |j: int| Use::Split(nb, j)) })
}
pub proof fn lemma_pick_in(p: Seq<CollectionBuilder>, l: Location) ensures -1 <= pick(p, l) < p.len() decreases p.len() { if p.len() > 0 { lemma_pick_in(p.drop_last(), l); } }
pub proof fn lemma_opened_grown<'a>(a: V<'a>, b: V<'a>, l: Location, scope: ScopeId, r: MirSegment, get: Spanner<'a>, c: int)
  requires ok(a.g), 0 <= c < a.g.cols.len(), op_brs(a, b, scope, r, succ(r.from.block).len() as int), op_cols(a.g, b.g, l, c, r, succ(r.from.block).len() as int), op_segs(a.g, b.g, l, scope, r, get, succ(r.from.block).len() as int), tree_at(a.g, b.g, c, r, get),
  ensures grown(a.g, b.g), b.g.tree.starts.len() == b.g.cols.len(), b.g.tree.up.len() == b.g.cols.len(), b.g.tree.home.len() == b.g.brs.len(), b.g.tree.at.len() == b.g.segs.len(),
{ }
/// the new branch stands as it must
pub proof fn lemma_opened_branch<'a>(a: V<'a>, b: V<'a>, l: Location, scope: ScopeId, r: MirSegment, get: Spanner<'a>, c: int)
  requires 0 <= c < a.g.cols.len(), reach_ok(l, r), a.g.tree.starts.len() == a.g.cols.len(), a.g.tree.up.len() == a.g.cols.len(), a.g.tree.home.len() == a.g.brs.len(), a.g.tree.at.len() == a.g.segs.len(), 0 <= c < a.g.cols.len(),
    op_brs(a, b, scope, r, succ(r.from.block).len() as int), op_cols(a.g, b.g, l, c, r, succ(r.from.block).len() as int), op_segs(a.g, b.g, l, scope, r, get, succ(r.from.block).len() as int), tree_at(a.g, b.g, c, r, get),
  ensures branch_ok(b.g, a.g.brs.len() as int, c, l)
{
  let g = a.g; let h = b.g; let n = succ(r.from.block).len() as int; let nb = g.brs.len() as int; let nc = g.cols.len() as int; let ns = g.segs.len() as int;
  let d = h.brs[nb]; assert(d.reach == r);
  assert forall|j: int| 0 <= j < n implies #[trigger] split_ok(h, nb, c, l, j) by { let s = d.splits@[j]; let m = d.nested@[j]; assert(s.x == ns + j && m.x == nc + j); assert(h.segs[ns + j].segment.from == l); assert(h.cols[nc + j].kind == side(l, r)); assert(h.tree.at[ns + j] == Use::Split(nb, j)); assert(h.tree.up[nc + j] == (nb, j)); assert(h.tree.starts[nc + j] == split_to(r, get, j)); }
}
pub proof fn lemma_opened_ok<'a>(a: V<'a>, b: V<'a>, l: Location, scope: ScopeId, r: MirSegment, get: Spanner<'a>, c: int)
  requires ok(a.g), 0 <= c < a.g.cols.len(), ends(a.g, c, a.g.cols[c].data@.len() as int) == l, reach_ok(l, r), a.g.brs.len() <= usize::MAX,
    op_brs(a, b, scope, r, succ(r.from.block).len() as int), op_cols(a.g, b.g, l, c, r, succ(r.from.block).len() as int), op_segs(a.g, b.g, l, scope, r, get, succ(r.from.block).len() as int), tree_at(a.g, b.g, c, r, get),
  ensures ok(b.g), grown(a.g, b.g), ends(b.g, c, a.g.cols[c].data@.len() as int + 1) == leave(l, r)
{
  let g = a.g; let h = b.g; let n = succ(r.from.block).len() as int; let nb = g.brs.len() as int; let nc = g.cols.len() as int; let ns = g.segs.len() as int; let kk = g.cols[c].data@.len() as int;
  lemma_opened_grown(a, b, l, scope, r, get, c); lemma_opened_branch(a, b, l, scope, r, get, c);
  lemma_ends(g, h, c, kk);
  let d = h.brs[nb];
  assert(h.cols[c].data@[kk] == CFKind::Branch(BranchId { x: nb as usize }));
  assert(h.tree.home[nb] == (c, kk));
  assert(part_ok(h, c, kk));
  assert forall|x: int, k: int| #![trigger h.cols[x].data@[k]] 0 <= x < h.cols.len() && 0 <= k < h.cols[x].data@.len() && (x >= g.cols.len() || k >= g.cols[x].data@.len()) implies part_ok(h, x, k) by { assert(h.cols[x].data@.len() > 0); if x >= nc { assert(h.cols[x].data@.len() == 0); } assert(x == c && k == kk); }
  assert forall|x: int| nb <= x < h.brs.len() implies home_ok(h, x, #[trigger] h.tree.home[x]) by { assert(x == nb); }
  assert forall|x: int| nc <= x < h.cols.len() implies up_ok(h, x, #[trigger] h.tree.up[x]) by { let j = x - nc; assert(d.nested@[j].x == nc + j); }
  assert forall|x: int| ns <= x < h.segs.len() implies use_ok(h, x, #[trigger] h.tree.at[x]) by { let j = x - ns; assert(d.splits@[j].x == ns + j); }
  lemma_ok(g, h);
  assert(ends(h, c, kk + 1) == after(h, l, h.cols[c].data@[kk]));
}
pub proof fn lemma_opened_open<'a>(a: V<'a>, b: V<'a>, l: Location, scope: ScopeId, r: MirSegment, get: Spanner<'a>, i: int)
  requires ok(a.g), open_ok(a.g, a.p), 0 <= i < a.p.len(), ok(b.g), grown(a.g, b.g), ends(b.g, a.p[i].collection.x as int, a.g.cols[a.p[i].collection.x as int].data@.len() as int + 1) == leave(l, r), b.g.cols.len() <= usize::MAX,
    op_cols(a.g, b.g, l, a.p[i].collection.x as int, r, succ(r.from.block).len() as int), op_open(a, b, l, i, r, get, succ(r.from.block).len() as int), tree_at(a.g, b.g, a.p[i].collection.x as int, r, get),
  ensures open_ok(b.g, b.p)
{
  let g = a.g; let h = b.g; let c = a.p[i].collection.x as int; let nc = g.cols.len() as int; assert(at_end(g, a.p[i]));
  assert forall|x: int| 0 <= x < b.p.len() implies at_end(h, #[trigger] b.p[x]) by {
    if x < a.p.len() { assert(at_end(g, a.p[x]));
      if x == i { assert(h.cols[c].data@.len() == g.cols[c].data@.len() + 1); }
      else { if x < i { assert(a.p[x].collection != a.p[i].collection); } else { assert(a.p[i].collection != a.p[x].collection); } assert(h.cols[a.p[x].collection.x as int].data@ == g.cols[a.p[x].collection.x as int].data@); lemma_at_end(g, h, a.p[x]); } }
    else { let m = nc + x - a.p.len(); assert(h.cols[m].data@.len() == 0); assert(h.tree.starts[m] == split_to(r, get, x - a.p.len())); } }
  assert forall|x: int, y: int| 0 <= x < y < b.p.len() implies (#[trigger] b.p[x]).collection != (#[trigger] b.p[y]).collection by { if x < a.p.len() { assert(at_end(g, a.p[x])); if y < a.p.len() { assert(a.p[x].collection != a.p[y].collection); } } }
}
pub proof fn lemma_opened<'a>(a: V<'a>, b: V<'a>, l: Location, scope: ScopeId, r: MirSegment, get: Spanner<'a>)
  requires inv0(a), reach_ok(l, r), opening(a, b, l, scope, r, get, succ(r.from.block).len() as int), b.g.tree == branched(a, r, get, l), a.g.brs.len() <= usize::MAX, b.g.cols.len() <= usize::MAX,
    forall|k: BranchId| #[trigger] b.roots.contains_key(k) ==> a.roots.contains_key(k) || k.x == a.g.brs.len(),
  ensures inv0(b), grown(a.g, b.g)
{
  hide(ok); hide(open_ok); hide(op_open); hide(op_segs); hide(op_cols);
  let i = pick(a.p, l); let c = a.p[i].collection.x as int;
  lemma_pick_in(a.p, l); assert(at_end(a.g, a.p[i])) by { reveal(open_ok); }
  lemma_opened_ok(a, b, l, scope, r, get, c); lemma_opened_open(a, b, l, scope, r, get, i);
  assert(complete(b.g)) by { assert forall|x: int| 0 <= x < b.g.brs.len() implies (#[trigger] b.g.brs[x]).nested@.len() == succ(b.g.brs[x].reach.from.block).len() by { if x < a.g.brs.len() { assert(b.g.brs[x] == a.g.brs[x]); } } }
  assert(b.p.len() > 0 && b.p[0].collection.x == 0) by { reveal(op_open); assert(b.p[0] == b.p[0]); }
}
pub open spec fn spanner<'a>(a: V<'a>, s: GetSpanner<'a>) -> Spanner<'a> { match s { GetSpanner::GetFrom(b) => a.roots[b], GetSpanner::InsertNew(f) => f } }
pub open spec fn rooting<'a>(a: V<'a>, s: GetSpanner<'a>, n: int) -> Map<BranchId, Spanner<'a>> { match s { GetSpanner::GetFrom(b) => a.roots, GetSpanner::InsertNew(f) => a.roots.insert(BranchId { x: n as usize }, f) } }
/// a branch was opened there
pub open spec fn opened<'a>(a: V<'a>, b: V<'a>, l: Location, get: GetSpanner<'a>, bid: BranchId) -> bool {
  &&& bid.x == a.g.brs.len() && bid.x < b.g.brs.len() && reach_ok(l, b.g.brs[bid.x as int].reach)
  &&& opening(a, b, l, a.scopes.last(), b.g.brs[bid.x as int].reach, spanner(a, get), succ(b.g.brs[bid.x as int].reach.from.block).len() as int)
  &&& b.g.tree == branched(a, b.g.brs[bid.x as int].reach, spanner(a, get), l) && b.roots == rooting(a, get, a.g.brs.len() as int)
}
pub proof fn root_of<'a>(v: V<'a>, t: TableId) -> (k: BranchId) requires rooted(v, t) ensures v.roots.contains_key(k), v.classes.rep(v.g.brs[k.x as int].table_id) == v.classes.rep(t)
{ choose|k: BranchId| #[trigger] v.roots.contains_key(k) && v.classes.rep(v.g.brs[k.x as int].table_id) == v.classes.rep(t) }
pub proof fn lemma_opened_rooted<'a>(a: V<'a>, b: V<'a>, l: Location, get: GetSpanner<'a>, bid: BranchId)
  requires tables(a), tables(b), opened(a, b, l, get, bid), all_rooted(a),
  ensures forall|x: int| 0 <= x < a.g.brs.len() ==> rooted(b, (#[trigger] b.g.brs[x]).table_id), get is InsertNew ==> all_rooted(b), forall|t: TableId| t.x < a.classes.len() ==> #[trigger] b.classes.rep(t) == a.classes.rep(t), b.classes.len() == a.classes.len() + 1, b.g.brs.len() == a.g.brs.len() + 1, forall|x: int| 0 <= x < a.g.brs.len() ==> #[trigger] b.g.brs[x] == a.g.brs[x],
{
  assert forall|x: int| 0 <= x < a.g.brs.len() implies rooted(b, (#[trigger] b.g.brs[x]).table_id) by {
    assert(b.g.brs[x] == a.g.brs[x]); assert(rooted(a, a.g.brs[x].table_id));
    let k = choose|k: BranchId| #[trigger] a.roots.contains_key(k) && a.classes.rep(a.g.brs[k.x as int].table_id) == a.classes.rep(a.g.brs[x].table_id);
    assert(b.roots.contains_key(k)); assert(b.g.brs[k.x as int] == a.g.brs[k.x as int]); }
  if get is InsertNew { assert(b.roots.contains_key(bid)); assert(rooted(b, b.g.brs[bid.x as int].table_id)); assert forall|x: int| 0 <= x < b.g.brs.len() implies rooted(b, (#[trigger] b.g.brs[x]).table_id) by { if x >= a.g.brs.len() { assert(x == bid.x); } } }
}
/// the new branch joins the class of a rooted one
pub proof fn lemma_joined<'a>(v: V<'a>, w: V<'a>, p: int, n: int)
  requires tables(v), 0 <= p < v.g.brs.len(), 0 <= n < v.g.brs.len(), forall|x: int| 0 <= x < v.g.brs.len() && x != n ==> rooted(v, (#[trigger] v.g.brs[x]).table_id), p != n, w == (V { classes: w.classes, ..v }), w.classes.len() == v.classes.len(),
    forall|s: TableId, t: TableId| s.x < v.classes.len() && t.x < v.classes.len() ==> (#[trigger] w.classes.rep(s) == #[trigger] w.classes.rep(t) <==> same(&v.classes, s, t, v.g.brs[p].table_id, v.g.brs[n].table_id)),
  ensures tables(w), all_rooted(w)
{
  assert forall|x: int| 0 <= x < w.g.brs.len() implies rooted(w, (#[trigger] w.g.brs[x]).table_id) by {
    let y = if x == n { p } else { x }; assert(rooted(v, v.g.brs[y].table_id));
    let k = choose|k: BranchId| #[trigger] v.roots.contains_key(k) && v.classes.rep(v.g.brs[k.x as int].table_id) == v.classes.rep(v.g.brs[y].table_id);
    assert(w.roots.contains_key(k)); let kt = v.g.brs[k.x as int].table_id; let xt = v.g.brs[x].table_id; assert(same(&v.classes, kt, xt, v.g.brs[p].table_id, v.g.brs[n].table_id)); assert(w.classes.rep(kt) == w.classes.rep(xt)); }
}
/// only the first collection lies in no branch
pub proof fn lemma_containing(g: G, c: int)
  requires ok(g), 0 <= c < g.cols.len(),
  ensures c > 0 ==> exists|b: int, i: int| 0 <= b < g.brs.len() && 0 <= i < g.brs[b].nested@.len() && (#[trigger] g.brs[b].nested@[i]).x == c,
    forall|b: int, i: int| 0 <= b < g.brs.len() && 0 <= i < g.brs[b].nested@.len() ==> (#[trigger] g.brs[b].nested@[i]).x != 0,
{
  if c > 0 { let u = g.tree.up[c]; assert(up_ok(g, c, u)); assert(g.brs[u.0].nested@[u.1].x == c); }
  assert forall|b: int, i: int| 0 <= b < g.brs.len() && 0 <= i < g.brs[b].nested@.len() implies (#[trigger] g.brs[b].nested@[i]).x != 0 by {
    let h = g.tree.home[b]; assert(home_ok(g, b, h)); assert(part_ok(g, h.0, h.1)); assert(branch_ok(g, b, h.0, ends(g, h.0, h.1))); assert(split_ok(g, b, h.0, ends(g, h.0, h.1), i)); }
}
pub proof fn containing(g: G, c: CollectionId) -> (b: int) requires ok(g), 0 < c.x < g.cols.len() ensures 0 <= b < g.brs.len(), g.brs[b].nested@.contains(c)
{ let u = g.tree.up[c.x as int]; assert(up_ok(g, c.x as int, u)); assert(g.brs[u.0].nested@[u.1] == c); u.0 }
/// which builder a step ending at a location belongs to
pub open spec fn suitable(v: V<'_>, l: Location, r: FindResult) -> bool {
  let i = pick(v.p, l);
  if i < 0 { r is None } else if lpdom(l, v.p[i].current_location) { r matches FindResult::Linear(b) && b.0 == i }
  else if v.p[i].collection.x == 0 { r is None } else { r matches FindResult::NonLinear(b, at) && at == v.p[i].current_location && b.x < v.g.brs.len() && v.g.brs[b.x as int].nested@.contains(v.p[i].collection) }
}
/// the collections of the first k branches of a list
pub open spec fn gone_of(brs: Seq<BranchData>, l: Seq<BranchId>, k: int) -> spec_fn(CollectionId) -> bool { |c: CollectionId| exists|j: int| 0 <= j < k && brs[(#[trigger] l[j]).x as int].nested@.contains(c) }
pub proof fn lemma_gone(v: V<'_>, l: Seq<BranchId>, k: int, s: Set<CollectionId>)
  requires 0 <= k < l.len(), forall|c: CollectionId| #[trigger] s.contains(c) <==> v.g.brs[l[k].x as int].nested@.contains(c),
  ensures without(without(v.p, gone_of(v.g.brs, l, k)), in_set(s)) == without(v.p, gone_of(v.g.brs, l, k + 1))
{
  let a = gone_of(v.g.brs, l, k); let b = in_set(s); let d = gone_of(v.g.brs, l, k + 1);
  assert forall|c: CollectionId| #[trigger] d(c) <==> a(c) || b(c) by {
    if a(c) { let j = choose|j: int| 0 <= j < k && v.g.brs[(#[trigger] l[j]).x as int].nested@.contains(c); assert(0 <= j < k + 1 && v.g.brs[l[j].x as int].nested@.contains(c)); }
    if b(c) { assert(0 <= k < k + 1 && v.g.brs[l[k].x as int].nested@.contains(c)); }
    if d(c) { let j = choose|j: int| 0 <= j < k + 1 && v.g.brs[(#[trigger] l[j]).x as int].nested@.contains(c); if j < k { assert(a(c)); } } }
  lemma_without(v.p, a, b, d);
}
pub proof fn lemma_all_gone<'a>(v: V<'a>, l: Seq<BranchId>, bid: BranchId)
  requires bid.x < v.g.brs.len(), v.g.brs.len() <= usize::MAX,
    forall|b: BranchId| #[trigger] l.contains(b) <==> b.x < v.g.brs.len() && v.classes.rep(v.g.brs[b.x as int].table_id) == v.classes.rep(v.g.brs[bid.x as int].table_id),
  ensures without(v.p, gone_of(v.g.brs, l, l.len() as int)) == without(v.p, closing(v, bid))
{
  let a = gone_of(v.g.brs, l, l.len() as int); let z = closing(v, bid);
  assert forall|c: CollectionId| #[trigger] a(c) <==> z(c) by {
    if a(c) { let j = choose|j: int| 0 <= j < l.len() && v.g.brs[(#[trigger] l[j]).x as int].nested@.contains(c); assert(l.contains(l[j])); assert(v.g.brs[l[j].x as int].nested@.contains(c)); }
    if z(c) { let b = choose|b: int| 0 <= b < v.g.brs.len() && v.classes.rep((#[trigger] v.g.brs[b]).table_id) == v.classes.rep(v.g.brs[bid.x as int].table_id) && v.g.brs[b].nested@.contains(c);
      let x = BranchId { x: b as usize }; assert(l.contains(x)); let j = choose|j: int| 0 <= j < l.len() && l[j] == x; assert(v.g.brs[l[j].x as int].nested@.contains(c)); } }
  lemma_same(v.p, a, z);
}
pub proof fn lemma_stays(v: V<'_>, bid: BranchId)
  requires ok(v.g), v.p.len() > 0, v.p[0].collection.x == 0, ensures !closing(v, bid)(v.p[0].collection)
{ lemma_containing(v.g, 0); let z = closing(v, bid); let c = v.p[0].collection;
  if z(c) { let b = choose|b: int| 0 <= b < v.g.brs.len() && v.classes.rep((#[trigger] v.g.brs[b]).table_id) == v.classes.rep(v.g.brs[bid.x as int].table_id) && v.g.brs[b].nested@.contains(c); let n = v.g.brs[b].nested@; let i = choose|i: int| 0 <= i < n.len() && n[i] == c; assert(v.g.brs[b].nested@[i].x != 0); } }
pub proof fn lemma_still_open(g: G, p: Seq<CollectionBuilder>, z: spec_fn(CollectionId) -> bool)
  requires open_ok(g, p) ensures open_ok(g, without(p, z))
{
  hide(at_end); lemma_without_in(p, z); let q = without(p, z);
  assert forall|i: int| 0 <= i < q.len() implies at_end(g, #[trigger] q[i]) by { assert(origin(p, z, i, q[i])); let j = choose|j: int| i <= j < p.len() && #[trigger] p[j] == q[i] && !z(p[j].collection); assert(at_end(g, p[j])); }
  assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).collection != (#[trigger] q[j]).collection by { assert(apart(p, q[i], q[j])); let (k, m) = choose|k: int, m: int| 0 <= k < m < p.len() && #[trigger] p[k] == q[i] && #[trigger] p[m] == q[j]; assert(p[k].collection != p[m].collection); }
}
pub proof fn lemma_rooted<'a>(v: V<'a>, w: V<'a>)
  requires all_rooted(v), w.roots == v.roots, w.classes == v.classes, w.g.brs == v.g.brs ensures all_rooted(w)
{ hide(rooted); assert forall|b: int| 0 <= b < w.g.brs.len() implies rooted(w, (#[trigger] w.g.brs[b]).table_id) by { assert(rooted(v, v.g.brs[b].table_id)); let k = root_of(v, v.g.brs[b].table_id); assert(w.roots.contains_key(k)); reveal(rooted); } }
pub proof fn lemma_closed<'a>(v: V<'a>, w: V<'a>, bid: BranchId)
  requires inv0(v), all_rooted(v), w == (V { p: without(v.p, closing(v, bid)), ..v }) ensures inv0(w), all_rooted(w)
{ hide(ok); hide(rooted); hide(open_ok); hide(complete); lemma_stays(v, bid); lemma_still_open(v.g, v.p, closing(v, bid)); lemma_rooted(v, w); lemma_without_in(v.p, closing(v, bid)); }
/// where a step into a collection that was to end at a location ends
pub open spec fn stop(kind: LengthKind, l: Location) -> Location { match kind { LengthKind::Bounded { root, phi } => if ldom(phi, l) { phi } else { l }, LengthKind::Unbounded { root } => l } }
/// the last segment is the step to the location, at the end of a collection
pub open spec fn put(w: V<'_>, l: Location, span: Span) -> bool {
  &&& w.g.segs.len() > 0 && w.g.segs.last().span == span && w.g.segs.last().scope == w.scopes.last()
  &&& w.g.tree.at.last() matches Use::In(c, k) && k == w.g.cols[c].data@.len() - 1 && reaching(w.g.cols[c].kind, w.g.segs.last().segment.from, w.g.segs.last().segment.to, l)
}
/// no open collection leads to the location
pub open spec fn nowhere(v: V<'_>, l: Location) -> bool { let i = pick(v.p, l); i < 0 || (!lpdom(l, v.p[i].current_location) && v.p[i].collection.x == 0) }
pub open spec fn stepped<'a>(v: V<'a>, w: V<'a>, l: Location, span: Span, i: int) -> bool {
  let c = v.p[i].collection; let to = stop(v.g.cols[c.x as int].kind, l);
  &&& w.g.segs == v.g.segs.push(SegmentData { segment: MirSegment { from: v.p[i].current_location, to }, span, scope: v.scopes.last() })
  &&& w.g.cols.len() == v.g.cols.len() && forall|x: int| 0 <= x < v.g.cols.len() ==> (#[trigger] w.g.cols[x]).kind == v.g.cols[x].kind && w.g.cols[x].data@ == (if x == c.x { v.g.cols[x].data@.push(CFKind::Linear(SegmentId { x: v.g.segs.len() as usize })) } else { v.g.cols[x].data@ })
  &&& w.p == v.p.update(i, CollectionBuilder { collection: c, current_location: to })
  &&& w.g.brs == v.g.brs && w.roots == v.roots && w.classes == v.classes && w.scopes == v.scopes && w.first == v.first
}
pub open spec fn stepped_tree(v: V<'_>, i: int) -> Tree { let c = v.p[i].collection.x as int; Tree { at: v.g.tree.at.push(Use::In(c, v.g.cols[c].data@.len() as int)), ..v.g.tree } }
pub proof fn lemma_put_grown<'a>(v: V<'a>, w: V<'a>, l: Location, span: Span, i: int)
  requires ok(v.g), 0 <= i < v.p.len(), stepped(v, w, l, span, i), w.g.tree == stepped_tree(v, i), ensures grown(v.g, w.g)
{ hide(part_ok); hide(home_ok); hide(up_ok); hide(use_ok); hide(stop); }
pub proof fn lemma_put_part<'a>(v: V<'a>, w: V<'a>, l: Location, span: Span, i: int)
  requires ok(v.g), grown(v.g, w.g), 0 <= i < v.p.len(), at_end(v.g, v.p[i]), ldom(v.p[i].current_location, l), lpdom(l, v.p[i].current_location), stepped(v, w, l, span, i), w.g.tree == stepped_tree(v, i), v.g.segs.len() <= usize::MAX,
  ensures ({ let c = v.p[i].collection.x as int; let k = v.g.cols[c].data@.len() as int; part_ok(w.g, c, k) && w.g.cols[c].data@.len() == k + 1 && ends(w.g, c, k + 1) == stop(v.g.cols[c].kind, l) }), put(w, l, span)
{
  hide(grown); hide(ok); let g = v.g; let h = w.g; assert(g.tree.at.len() == g.segs.len()) by { reveal(ok); } let c = v.p[i].collection.x as int; let k = g.cols[c].data@.len() as int; let to = stop(g.cols[c].kind, l); let s = g.segs.len() as int;
  lemma_ends(g, h, c, k); assert(h.cols[c].data@[k] == CFKind::Linear(SegmentId { x: s as usize })); assert(h.segs[s].segment.to == to); assert(h.tree.at[s] == Use::In(c, k));
  assert(reaching(h.cols[c].kind, v.p[i].current_location, to, l));
  assert(ends(h, c, k + 1) == after(h, ends(h, c, k), h.cols[c].data@[k]));
}
pub proof fn lemma_put<'a>(v: V<'a>, w: V<'a>, l: Location, span: Span, i: int)
  requires inv0(v), all_rooted(v), 0 <= i < v.p.len(), ldom(v.p[i].current_location, l), lpdom(l, v.p[i].current_location), stepped(v, w, l, span, i), w.g.tree == stepped_tree(v, i), v.g.segs.len() <= usize::MAX,
  ensures inv0(w), all_rooted(w), grown(v.g, w.g), put(w, l, span)
{
  hide(part_ok); hide(home_ok); hide(up_ok); hide(use_ok); hide(stop); hide(grown); hide(rooted);
  let g = v.g; let h = w.g; assert(at_end(g, v.p[i])); let c = v.p[i].collection.x as int; let k = g.cols[c].data@.len() as int; let s = g.segs.len() as int;
  lemma_put_grown(v, w, l, span, i); lemma_put_part(v, w, l, span, i);
  assert forall|x: int, y: int| #![trigger h.cols[x].data@[y]] 0 <= x < h.cols.len() && 0 <= y < h.cols[x].data@.len() && (x >= g.cols.len() || y >= g.cols[x].data@.len()) implies part_ok(h, x, y) by { assert(h.cols[x].kind == g.cols[x].kind); assert(x == c && y == k); }
  assert forall|x: int| g.segs.len() <= x < h.segs.len() implies use_ok(h, x, #[trigger] h.tree.at[x]) by { assert(x == s); assert(h.cols[c].kind == g.cols[c].kind); reveal(use_ok); }
  assert(forall|b: int| g.brs.len() <= b < h.brs.len() ==> home_ok(h, b, #[trigger] h.tree.home[b]));
  lemma_ok(g, h); lemma_put_open(v, w, l, span, i); lemma_rooted(v, w);
}
pub proof fn lemma_put_open<'a>(v: V<'a>, w: V<'a>, l: Location, span: Span, i: int)
  requires ok(v.g), grown(v.g, w.g), 0 <= i < v.p.len(), open_ok(v.g, v.p), stepped(v, w, l, span, i), ({ let c = v.p[i].collection.x as int; let k = v.g.cols[c].data@.len() as int; w.g.cols[c].data@.len() == k + 1 && ends(w.g, c, k + 1) == stop(v.g.cols[c].kind, l) }),
  ensures open_ok(w.g, w.p)
{
  hide(ok); hide(grown); hide(ends); hide(stop); let g = v.g; let h = w.g; assert(at_end(g, v.p[i]));
  assert forall|x: int| 0 <= x < w.p.len() implies at_end(h, #[trigger] w.p[x]) by { assert(at_end(g, v.p[x])); if x != i { if x < i { assert(v.p[x].collection != v.p[i].collection); } else { assert(v.p[i].collection != v.p[x].collection); } let d = v.p[x].collection.x as int; assert(h.cols[d].kind == g.cols[d].kind); lemma_at_end(g, h, v.p[x]); } }
  assert forall|x: int, y: int| 0 <= x < y < w.p.len() implies (#[trigger] w.p[x]).collection != (#[trigger] w.p[y]).collection by { assert(v.p[x].collection != v.p[y].collection); }
}
/// an implicit branch was opened there, as one with its parent
pub open spec fn child<'a>(a: V<'a>, b: V<'a>, l: Location, parent: BranchId) -> bool { exists|m: V<'a>, bid: BranchId, k: BranchId| #[trigger] child_of(a, b, m, l, parent, bid, k) }
pub open spec fn child_of<'a>(a: V<'a>, b: V<'a>, m: V<'a>, l: Location, parent: BranchId, bid: BranchId, k: BranchId) -> bool {
  &&& a.roots.contains_key(k) && a.classes.rep(a.g.brs[k.x as int].table_id) == a.classes.rep(a.g.brs[parent.x as int].table_id)
  &&& opened(a, m, l, GetSpanner::GetFrom(k), bid) && b == (V { classes: b.classes, ..m })
  &&& b.classes.len() == m.classes.len() && forall|s: TableId, t: TableId| s.x < m.classes.len() && t.x < m.classes.len() ==> (#[trigger] b.classes.rep(s) == #[trigger] b.classes.rep(t) <==> same(&m.classes, s, t, m.g.brs[parent.x as int].table_id, m.g.brs[bid.x as int].table_id))
}
/// the builder the search from the top finds
pub proof fn lemma_search(p: Seq<CollectionBuilder>, l: Location)
  ensures (forall|j: int| 0 <= j < p.len() ==> !ldom(p[#[trigger] down(p.len())[j]].current_location, l)) ==> pick(p, l) == -1,
    forall|k: int| 0 <= k < p.len() && ldom(p[#[trigger] down(p.len())[k]].current_location, l) && (forall|j: int| 0 <= j < k ==> !ldom(p[#[trigger] down(p.len())[j]].current_location, l)) ==> pick(p, l) == down(p.len())[k],
    -1 <= pick(p, l) < p.len(), pick(p, l) >= 0 ==> ldom(p[pick(p, l)].current_location, l),
{
  lemma_picked(p, l); lemma_pick_in(p, l); let n = p.len();
  assert forall|k: int| 0 <= k < n && ldom(p[#[trigger] down(n)[k]].current_location, l) && (forall|j: int| 0 <= j < k ==> !ldom(p[#[trigger] down(n)[j]].current_location, l)) implies pick(p, l) == down(n)[k] by {
    assert forall|j: int| n - 1 - k < j < n implies !ldom((#[trigger] p[j]).current_location, l) by { assert(down(n)[n - 1 - j] == j); }
    assert(picked(p, l, n - 1 - k)); }
  if forall|j: int| 0 <= j < n ==> !ldom(p[#[trigger] down(n)[j]].current_location, l) { assert forall|j: int| 0 <= j < n implies !ldom((#[trigger] p[j]).current_location, l) by { assert(down(n)[n - 1 - j] == j); } }
}
pub proof fn lemma_way<'a>(a: V<'a>, v: V<'a>, w: V<'a>, l: Location, scope: ScopeId, r: MirSegment, get: Spanner<'a>, k: int)
  requires opening(a, v, l, scope, r, get, k), 0 <= k < succ(r.from.block).len(), a.g.cols.len() + k <= usize::MAX, a.g.segs.len() + k <= usize::MAX, pick(a.p, l) < a.p.len(), a.p[pick(a.p, l)].collection.x < a.g.cols.len(),
    w.g.segs == v.g.segs.push(SegmentData { segment: MirSegment { from: l, to: split_to(r, get, k) }, span: get.spans(start(succ(r.from.block)[k])), scope }),
    w.g.cols.len() == v.g.cols.len() + 1, w.g.cols.last().data@.len() == 0, w.g.cols.last().kind == side(l, r), (forall|x: int| 0 <= x < v.g.cols.len() ==> #[trigger] w.g.cols[x] == v.g.cols[x]),
    w.p == v.p.push(CollectionBuilder { collection: CollectionId { x: (a.g.cols.len() + k) as usize }, current_location: split_to(r, get, k) }),
    w.g.brs.len() == v.g.brs.len(), (forall|x: int| 0 <= x < v.g.brs.len() - 1 ==> #[trigger] w.g.brs[x] == v.g.brs[x]), ({ let d = v.g.brs.last(); let e = w.g.brs.last(); e.table_id == d.table_id && e.scope == d.scope && e.reach == d.reach && e.joins@ == d.joins@ && e.splits@ == d.splits@.push(SegmentId { x: (a.g.segs.len() + k) as usize }) && e.nested@ == d.nested@.push(CollectionId { x: (a.g.cols.len() + k) as usize }) }),
    w.scopes == v.scopes, w.first == v.first, w.classes == v.classes,
  ensures opening(a, w, l, scope, r, get, k + 1)
{
  let g = a.g; let nb = g.brs.len() as int;
  assert(op_brs(a, w, scope, r, k + 1)) by { assert forall|x: int| 0 <= x < nb implies #[trigger] w.g.brs[x] == g.brs[x] by { assert(v.g.brs[x] == g.brs[x]); } }
  assert(op_cols(g, w.g, l, a.p[pick(a.p, l)].collection.x as int, r, k + 1));
  assert(op_segs(g, w.g, l, scope, r, get, k + 1));
  assert(op_open(a, w, l, pick(a.p, l), r, get, k + 1));
}
"""

BUILD = r"""
// what derive(Default) writes
impl OpenCollections { pub fn new() -> (r: Self) ensures r.0@ == Seq::<CollectionBuilder>::empty() { OpenCollections(Vec::new()) } }
pub open spec fn all_pdom(m: BasicBlock, s: Set<BasicBlock>) -> bool { forall|n: BasicBlock| #[trigger] s.contains(n) ==> pdom(m, n) }
pub open spec fn all_dom(m: BasicBlock, s: Seq<&BasicBlock>) -> bool { forall|i: int| 0 <= i < s.len() ==> dom(m, *#[trigger] s[i]) }
pub broadcast proof fn pick_in<T>(s: Seq<T>, keep: Seq<bool>, x: T) requires s.len() == keep.len() ensures #[trigger] vp_pick(s, keep).contains(x) <==> exists|i: int| 0 <= i < s.len() && keep[i] && #[trigger] s[i] == x { lemma_pick(s, keep); }
/// the block at a place of a listing is one of the set
pub proof fn lemma_reach(root: BasicBlock, s: Set<BasicBlock>)
  requires forall|b: BasicBlock| s.contains(b) <==> behind(root, b),
  ensures forall|m: BasicBlock| #[trigger] most(root, m) <==> s.contains(m) && all_pdom(m, s),
    forall|i: int| 0 <= i < listing(s).len() ==> s.contains(#[trigger] listing(s)[i]) && vp_refs(listing(s))[i] == &listing(s)[i],
    forall|m: BasicBlock| #[trigger] all_pdom(m, s) <==> forall|i: int| 0 <= i < listing(s).len() ==> pdom(m, *#[trigger] vp_refs(listing(s))[i]),
    forall|m: BasicBlock| #[trigger] s.contains(m) ==> exists|i: int| 0 <= i < listing(s).len() && *#[trigger] vp_refs(listing(s))[i] == m,
{
  axiom_listing(s); let l = listing(s);
  assert forall|i: int| 0 <= i < l.len() implies s.contains(#[trigger] l[i]) by { assert(l.contains(l[i])); }
  assert forall|m: BasicBlock| #[trigger] s.contains(m) implies exists|i: int| 0 <= i < l.len() && *#[trigger] vp_refs(l)[i] == m by { assert(l.contains(m)); let i = choose|i: int| 0 <= i < l.len() && l[i] == m; assert(*vp_refs(l)[i] == m); }
  assert forall|m: BasicBlock| (forall|i: int| 0 <= i < l.len() ==> pdom(m, *#[trigger] vp_refs(l)[i])) implies #[trigger] all_pdom(m, s) by { assert forall|n: BasicBlock| #[trigger] s.contains(n) implies pdom(m, n) by { let i = choose|i: int| 0 <= i < l.len() && *#[trigger] vp_refs(l)[i] == n; } }
  assert forall|m: BasicBlock| #[trigger] all_pdom(m, s) implies (forall|i: int| 0 <= i < l.len() ==> pdom(m, *#[trigger] vp_refs(l)[i])) by { assert forall|i: int| 0 <= i < l.len() implies pdom(m, *#[trigger] vp_refs(l)[i]) by { assert(s.contains(l[i])); } }
  assert forall|m: BasicBlock| s.contains(m) && all_pdom(m, s) implies #[trigger] most(root, m) by { assert forall|n: BasicBlock| #[trigger] behind(root, n) implies pdom(m, n) by { assert(s.contains(n)); } }
  assert forall|m: BasicBlock| #[trigger] most(root, m) implies s.contains(m) && all_pdom(m, s) by { assert forall|n: BasicBlock| #[trigger] s.contains(n) implies pdom(m, n) by { assert(behind(root, n)); } }
}
pub proof fn lemma_cand(root: BasicBlock, m: BasicBlock, s: Set<BasicBlock>, c: Seq<&BasicBlock>)
  requires forall|b: BasicBlock| s.contains(b) <==> behind(root, b),
    forall|x: &BasicBlock| #[trigger] c.contains(x) <==> exists|i: int| 0 <= i < listing(s).len() && #[trigger] vp_refs(listing(s))[i] == x && *x != root && !false_edge(*x) && dom(*x, m),
  ensures forall|b: BasicBlock| #[trigger] least(root, m, b) <==> join(root, m, b) && all_dom(b, c),
    forall|b: BasicBlock| #[trigger] join(root, m, b) <==> exists|i: int| 0 <= i < c.len() && *#[trigger] c[i] == b,
    forall|i: int| 0 <= i < c.len() ==> #[trigger] vp_refs(c)[i] == &c[i] && join(root, m, *c[i]),
    forall|b: BasicBlock| #[trigger] all_dom(b, c) <==> forall|i: int| 0 <= i < c.len() ==> dom(b, **#[trigger] vp_refs(c)[i]),
{
  lemma_reach(root, s); let l = listing(s);
  assert forall|b: BasicBlock| (forall|i: int| 0 <= i < c.len() ==> dom(b, **#[trigger] vp_refs(c)[i])) implies #[trigger] all_dom(b, c) by { assert forall|i: int| 0 <= i < c.len() implies dom(b, *#[trigger] c[i]) by { assert(vp_refs(c)[i] == &c[i]); } }
  assert forall|b: BasicBlock| #[trigger] join(root, m, b) implies exists|i: int| 0 <= i < c.len() && *#[trigger] c[i] == b by { assert(s.contains(b)); assert(c.contains(&b)); }
  assert forall|i: int| 0 <= i < c.len() implies join(root, m, *#[trigger] c[i]) by { assert(c.contains(c[i])); let k = choose|k: int| 0 <= k < l.len() && #[trigger] vp_refs(l)[k] == c[i]; assert(s.contains(l[k])); }
  assert forall|b: BasicBlock| join(root, m, b) && all_dom(b, c) implies #[trigger] least(root, m, b) by { }
  assert forall|b: BasicBlock| #[trigger] least(root, m, b) implies all_dom(b, c) by { }
}
"""


REST = "final(self).mapper == old(self).mapper, final(self).next_scope == old(self).next_scope, final(self).scope_graph == old(self).scope_graph"
HIDE = "  hide(ok); hide(open_ok); hide(complete); hide(grown); hide(reach_ok); hide(meets); hide(way); hide(opening); hide(branched); hide(rooted);"
WALK = r"""let ghost vp_b = current->Some_0; let ghost mut vp_n: nat = 0; let ghost all = blocks().insert(vp_b);
    let mut vp_found: Option<BasicBlock> = None;
    loop
      invariant_except_break vp_found is None, current == way(vp_b, vp_n), visited@.subset_of(all), current is Some ==> all.contains(current->Some_0),
        forall|b: BasicBlock| #[trigger] visited@.contains(b) <==> exists|m: nat| m < vp_n && #[trigger] way(vp_b, m) == Some(b),
        forall|m: nat| m < vp_n ==> !#[trigger] switch_on(vp_b, m), vp_b == l0.block, all == blocks().insert(vp_b),
        forall|b: &BasicBlock| #[trigger] call_requires(has_switchint, (b,)), forall|b: &BasicBlock, r: bool| #[trigger] call_ensures(has_switchint, (b,), r) ==> r == switches(*b),
      ensures match vp_found { Some(b) => next_switch(l0) == Some(switch_end(b)), None => next_switch(l0) is None },
      decreases all.len() - visited@.len(),
    {
      let ghost seen = visited@; proof { if current is Some && seen.contains(current->Some_0) || current is None { lemma_no_switch(l0, vp_n); } }
      let previous = match current { Some(vp_c) if visited.insert(vp_c) => vp_c, _ => { break; } };
      proof { axiom_succ(previous); vstd::set_lib::lemma_len_subset(visited@, all); }
      \1
      proof { assert(way(vp_b, vp_n + 1) == current); if switches(previous) { assert(first_switch(vp_b, vp_n)); lemma_switch(l0, vp_n); } vp_n = vp_n + 1;
        assert forall|b: BasicBlock| #[trigger] visited@.contains(b) implies exists|m: nat| m < vp_n && #[trigger] way(vp_b, m) == Some(b) by { if b == previous { assert(way(vp_b, (vp_n - 1) as nat) == Some(b)); } else { assert(seen.contains(b)); } } }
      if has_switchint(&previous) { vp_found = Some(previous); break; }
    };
    vp_found"""
WALKSUB = [(r"use rustc_middle::mir::\{[^;]*\};", "", "names of rustc's types restated"), (r"basic_blocks\[(\*?\w+)\]", r"basic_blocks.vp_at(\1)", "indexing by contract"), (r"HashSet::new", "VSet::new", "a set read as such"), (r"\.successors\((\w+)\)\s*\.collect::<Vec<_>>\(\)", r".successors(\1)", "successors by contract: a vector"),
           (r"(?s)let mut linear_blocks = std::iter::from_fn\(move \|\|[^{]*\{(?:\s|//[^\n]*\n)*let previous = current\.filter\(\|b[^|]*\|[^{]*?\{?\s*visited\.insert\(\*b\)\s*\}?\)\?;(.*?)Some\(previous\)\s*\}\);\s*linear_blocks\.find\(has_switchint\)", WALK, "iter::from_fn and find unfolded to the loop they are")]
MKSUB = [(r"let branch = &mut self\.branches\[bid\];", "", "a borrow taken where it is used"), (r"\bbranch\.", "self.branches.vp_mut(bid).", "a borrow taken where it is used"),
         (r"&self\.root_mappings\[&bid\]", "self.root_mappings.get(&bid).unwrap()", "indexing as get"), (r"get_span\(&mut to\)", "get_span.call(&mut to)", "callback by contract"),
         (r"self\.collections\[([\w.]+)\]", r"self.collections.vp_mut(\1)", "indexing by contract")]


def segments(ctx):
    u = ctx.unit("segments")
    u.raw(BASE, stubs=("depth_first_search", "vp_err"))
    u.item(M, "struct", "MirSegment", attrs="#[derive(Copy, Clone)]", subst=PUB)
    for n in ("LengthKind",):
        u.item(S, "enum", n, attrs="#[derive(Copy, Clone)]", subst=PUB)
    u.item(S, "struct", "SegmentData", attrs="", subst=PUB)
    u.item(S, "struct", "BranchData", attrs="", subst=PUB)
    u.item(S, "enum", "CFKind", attrs="#[derive(Copy, Clone)]", subst=PUB)
    u.item(S, "struct", "Collection", attrs="", subst=PUB)
    u.item(S, "struct", "CollectionBuilder", attrs="#[derive(Copy, Clone)]", subst=PUB)
    u.item(S, "struct", "BuilderIdx", attrs="#[derive(Copy, Clone)]", subst=PUB + [(r"\(usize\)", "(pub usize)", "visibility")])
    u.item(S, "enum", "FindResult", attrs="#[derive(Copy, Clone)]", subst=PUB)
    u.item(S, "struct", "OpenCollections", attrs="", subst=PUB + [(r"\(Vec<", "(pub Vec<", "visibility")])
    u.raw(TREE)
    u.raw("pub type BranchSpannerMap<'a> = HashMap<BranchId, Spanner<'a>>;")
    u.item(S, "struct", "SegmentedMirBuilder", attrs="", inject="pub tree: Ghost<Tree>,", subst=PUB + [(r"InPlaceUnificationTable<TableId>", "Classes", "union-find by contract")])
    u.item(S, "struct", "SegmentedMir", attrs="", subst=PUB)
    u.item(S, "enum", "GetSpanner", attrs="", subst=PUB + [(r"Box<dyn Fn\(&mut Location\) -> Span \+ 'a>", "Spanner<'a>", "callback by contract")])
    u.raw(SPEC + LEMMAS + STATE)
    u.impl(M, "MirSegment", None, {"new": dict(ret="r", spec="ensures r.from == l1 && r.to == l2")})
    u.impl(S, "BranchData", None, {"new": dict(ret="r", spec="ensures r.table_id == tid, r.scope == scope, r.reach == (MirSegment { from: root, to: match phi { Some(p) => p, None => root } }), r.splits@.len() == 0, r.joins@.len() == 0, r.nested@.len() == 0", subst=COMMON)})
    u.impl(S, "OpenCollections", None, {
        "push": dict(spec="ensures final(self).0@ == old(self).0@.push(c)"),
        "enumerate": dict(ret="r", spec="ensures r.s().len() == self.0@.len(), forall|k: int| 0 <= k < r.s().len() ==> (#[trigger] r.s()[k]).0.0 == self.0@.len() - 1 - k && *r.s()[k].1 == self.0@[self.0@.len() - 1 - k]",
                          subst=COMMON + [(r"impl Iterator<Item = \(BuilderIdx, &CollectionBuilder\)> \+ '_", "It<(BuilderIdx, &CollectionBuilder)>", "iterator by contract"),
                                          (r"(?s)self\s*\.0(\s*\.vp_iter\(\)\s*\.enumerate\(\))(.*?)\s*\.rev\(\)", r"let vp_n = self.0.len(); let vp_e = self.0\1; let ghost e = vp_e.s(); let vp_m = vp_e\2; let ghost m = vp_m.s(); let vp_r = vp_m.rev(); proof { assert forall|k: int| 0 <= k < vp_r.s().len() implies (#[trigger] vp_r.s()[k]).0.0 == self.0@.len() - 1 - k && *vp_r.s()[k].1 == self.0@[self.0@.len() - 1 - k] by { let j = self.0@.len() - 1 - k; assert(vp_r.s()[k] == m[j]); assert(e[j].0 == j as usize); assert(m[j].0.0 == j as usize); assert(m[j].1 == vp_refs(self.0@)[j]); } } vp_r", "iterator named for the proof")],
                          closures=[dict(types=["(usize, &CollectionBuilder)"], ret="r: (BuilderIdx, &CollectionBuilder)", spec="ensures r.0.0 == vp_c0.0, r.1 == vp_c0.1")]),
        "iter_mut": dict(ret="r", spec="ensures r.now() == old(self).0@, r.then() == final(self).0@, r.order() == down(old(self).0@.len())",
                         subst=[(r"impl Iterator<Item = &mut CollectionBuilder> \+ '_", "VMut<'_, CollectionBuilder>", "iterator by contract"), (r"self\.0\.iter_mut\(\)\.rev\(\)", "let ghost vp_n = self.0@.len(); let vp_r = self.0.vp_iter_mut().rev(); proof { assert(vp_r.order() =~= down(vp_n)); } vp_r", "iterator by contract")]),
        "len": dict(ret="r", spec="ensures r == self.0@.len()"),
        "drain_collections": dict(ret="r", spec="ensures final(self).0@ == without(old(self).0@, in_set(cids@))",
                                  subst=COMMON + [(r"impl Iterator<Item = CollectionBuilder> \+ 'a", "It<CollectionBuilder>", "iterator by contract"), (r"<'a, 'this: 'a>", "<'a>", "lifetime"), (r"&'this mut", "&'a mut", "lifetime"),
                                                  (r"(?s)self\.0\.extract_if\((.*)\)\n", r"let ghost vp_g = in_set(cids@); let ghost vp_p = self.0@; let (vp_r, vp_k) = self.0.vp_extract_if(\1); proof { lemma_kept(vp_p, vp_k@, vp_g); } vp_r\n", "iterator by contract")],
                                  closures=[dict(types=["&CollectionBuilder"], ret="r: bool", spec="ensures r == cids@.contains(cb.collection)")]),
        "get": dict(ret="r", spec="requires i.0 < self.0@.len(), ensures *r == self.0@[i.0 as int]"),
        "get_mut": dict(ret="r", spec="requires i.0 < old(self).0@.len(), ensures *r == old(self).0@[i.0 as int], final(self).0@ == old(self).0@.update(i.0 as int, *final(r))", subst=[(r"&mut self\.0\[i\.0\]", "self.0.vp_at_mut(i.0)", "indexing by contract")]),
        "clear": dict(spec="ensures final(self).0@.len() == 0"),
    })
    u.raw(BUILD + OPEN)
    u.impl(S, "SegmentedMirBuilder", None, {
        "make": dict(ret="r", spec="ensures inv(&r), r.processing.0@.len() == 1, r.collections.v@.len() == 1, r.collections.v@[0].data@.len() == 0, r.branches.v@.len() == 0, r.segments.v@.len() == 0, r.mapper == mapper, r.open_scopes@ == seq![ScopeId { x: 0 }]",
                     subst=COMMON + [(r"let mut this = Self \{", "let mut this = Self { tree: Ghost(Tree { starts: seq![start(entry())], up: seq![(0int, 0int)], home: Seq::empty(), at: Seq::empty() }),", "ghost state of the new builder"), (r"InPlaceUnificationTable", "Classes", "union-find by contract")]),
        "finish_first_collection": dict(ret="r", spec="requires inv(old(self)),\n  ensures r is Ok <==> old(self).processing.0@.len() == 1, r is Ok ==> final(self).processing.0@.len() == 0, " + KEPT, subst=COMMON),
        "freeze": dict(ret="r", spec="""requires inv(&SELF),
  ensures r is Ok <==> SELF.processing.0@.len() == 1,
    r matches Ok(m) ==> SELF.processing.0@[0].collection == SELF.first_collection && m.first_collection == SELF.first_collection && m.collections == SELF.collections && m.branches == SELF.branches && m.segments == SELF.segments && m.scopes.edges() == SELF.scope_graph.edges()""", start="  let mut vp_self = SELF;", subst=COMMON + [(r"\(mut self\)", "(SELF)", "a parameter changed in the body copied to a local first"), (r"\bself\.", "vp_self.", "the same"), (r"\bSELF\b", "self", "the same")]),
        "current_scope": dict(ret="r", spec="requires self.open_scopes@.len() > 0, ensures r == self.open_scopes@.last()", subst=COMMON),
        "next_scope": dict(ret="r", spec="""requires old(self).open_scopes@.len() > 0,
  ensures r == old(self).next_scope, final(self).next_scope.x == r.x + 1, final(self).scope_graph.edges() == old(self).scope_graph.edges().insert((r, old(self).open_scopes@.last())), final(self).open_scopes@ == old(self).open_scopes@, """ + SAME, subst=COMMON),
        "open_scope": dict(ret="r", spec="""requires inv(old(self)),
  ensures inv(final(self)), r == Ok::<ScopeId, Error>(old(self).next_scope), final(self).open_scopes@ == old(self).open_scopes@.push(old(self).next_scope), final(self).next_scope.x == old(self).next_scope.x + 1,
    final(self).scope_graph.edges() == old(self).scope_graph.edges().insert((old(self).next_scope, old(self).open_scopes@.last())), """ + SAME, subst=COMMON),
        "close_scope": dict(ret="r", spec="""requires inv(old(self)),
  ensures inv(final(self)), r is Ok <==> idx.x != 0 && old(self).open_scopes@.last() == idx, final(self).open_scopes@ == (if r is Ok { old(self).open_scopes@.drop_last() } else { old(self).open_scopes@ }),
    final(self).next_scope == old(self).next_scope, final(self).scope_graph == old(self).scope_graph, """ + SAME, start="  let ghost v0 = v_of(self);", subst=COMMON,
            at=[(r"self\.open_scopes\.pop\(\);", "after", "proof { let w = v_of(self); assert(v0.scopes.len() > 1); lemma_scopes(v0, w); }")]),
        "least_post_dominator": dict(ret="r", spec="ensures meets(root, r)", subst=COMMON + [(r"(?s)let (\w+) = (depth_first_search\([^()]*\))(\s*\.filter\(.*?\}\))\s*\.collect::<VSet<_>>\(\);",
              r"let vp_d = \2; let ghost d = vp_d.s(); let vp_f = vp_d\3; let ghost k = vp_f.kept(); let ghost fs = vp_f.s(); proof { assert forall|b: BasicBlock| behind(root, b) implies fs.contains(b) by { assert(d.contains(b)); let i = choose|i: int| 0 <= i < d.len() && d[i] == b; assert(k[i]); } assert forall|b: BasicBlock| fs.contains(b) implies behind(root, b) by { let i = choose|i: int| 0 <= i < d.len() && k[i] && d[i] == b; assert(d.contains(b)); } }\n    let \1 = vp_f.collect::<VSet<_>>();", "iterator named for the proof")], start="  broadcast use {group_vp_ext, pick_in};",
            at=[(r"collect::<HashSet<_>>\(\);", "after", "proof { lemma_reach(root, reachable@); }"), (r"collect::<Vec<_>>\(\);", "after", "proof { lemma_cand(root, *most_post_dominating, reachable@, candidate_leasts@); assert(most(root, *most_post_dominating)); }")],
            closures=[dict(types=["&BasicBlock"], ret="r: bool", spec="ensures r == dom(root, *vp_c0)"),
                      dict(types=["&&BasicBlock"], ret="r: bool", spec="ensures r == all_pdom(**vp_c0, reachable@)"),
                      dict(types=["&BasicBlock"], ret="r: bool", spec="ensures r == pdom(*can, *vp_c0)"),
                      dict(types=["&&BasicBlock"], ret="r: bool", spec="ensures r == (**vp_c0 != root && !false_edge(**vp_c0) && dom(**vp_c0, *most_post_dominating))"),
                      dict(types=["&&&BasicBlock"], ret="r: bool", spec="ensures r == all_dom(***vp_c0, candidate_leasts@)"),
                      dict(types=["&&BasicBlock"], ret="r: bool", spec="ensures r == dom(**can, **vp_c0)")]),
    })
    u.impl(S, "SegmentedMirBuilder", None, {
        "find_next_switchint": dict(ret="vp_r", spec="ensures vp_r == next_switch(current)", start="  let ghost l0 = current;", subst=COMMON + WALKSUB,
            closures=[dict(types=["&BasicBlock"], ret="r: bool", spec="ensures r == switches(*b)"), None, None, dict(types=["BasicBlock"], ret="r: Location", spec="ensures r == switch_end(block)")]),
        "mk_branch": dict(ret="vp_r", spec="""requires inv0(v_of(old(self))), get_span matches GetSpanner::GetFrom(k) ==> old(self).root_mappings@.contains_key(k),
  ensures final(self).mapper == old(self).mapper, final(self).next_scope == old(self).next_scope, final(self).scope_graph == old(self).scope_graph,
    vp_r is Ok <==> pick(old(self).processing.0@, location) >= 0 && old(self).processing.0@[pick(old(self).processing.0@, location)].current_location == location,
    vp_r is Err ==> v_of(final(self)) == v_of(old(self)),
    vp_r matches Ok(bid) ==> opened(v_of(old(self)), v_of(final(self)), location, get_span, bid) && inv0(v_of(final(self))) && grown(v_of(old(self)).g, v_of(final(self)).g),""",
            start="  hide(ok); hide(open_ok); hide(complete); hide(tables); hide(grown); hide(reach_ok); hide(meets); hide(way); let ghost v0 = v_of(self); let ghost sp = spanner(v0, get_span); let ghost gs = get_span; broadcast use {branchid_is_key};",
            tail="    proof { let w = v_of(self); self.tree = Ghost(branched(v0, r, sp, location)); let z = v_of(self); assert(self.collections.v.len() == self.collections.v@.len()); assert(opening(v0, z, location, scope, r, sp, succ(r.from.block).len() as int)); lemma_opened(v0, z, location, scope, r, sp); }",
            closures=[dict(types=["BasicBlock"], ret="r: Location", spec="ensures r == start(bb)"), dict(types=["&CollectionBuilder"], ret="r: bool", spec="ensures r == ldom(cb.current_location, location)")],
            at=[(r"let builder_opt =", "before", "let ghost p0 = self.processing.0@;"),
                (r"let Some\(builder\) = builder_opt else", "before", "proof { lemma_search(p0, location); assert(pick(p0, location) >= 0 ==> at_end(v0.g, p0[pick(p0, location)])) by { reveal(open_ok); } }"),
                (r"// For each of the target", "before", "let ghost i0 = pick(p0, location);"),],
            loops=[dict(kind="for", iter="y", before="""    proof { assert(phi_opt is Some ==> phi_opt->Some_0.block != switch_location.block) by { reveal(meets); } assert(reach_ok(location, self.branches.v@[bid.x as int].reach)) by { reveal(reach_ok); reveal(meets); } }
    let ghost r = self.branches.v@[bid.x as int].reach; let ghost tr = self.tree@; let ghost ng = self.next_scope; let ghost sg = self.scope_graph; let ghost rm = self.root_mappings; let ghost mp = self.mapper;
    proof { let w = v_of(self); assert(op_brs(v0, w, scope, r, 0)); assert(op_cols(v0.g, w.g, location, p0[i0].collection.x as int, r, 0)); assert(op_segs(v0.g, w.g, location, scope, r, sp, 0)); assert(op_open(v0, w, location, i0, r, sp, 0)); assert(opening(v0, w, location, scope, r, sp, 0)); }""",
              inv="""    invariant y.seq() == succ(switch_location.block), opening(v0, v_of(self), location, scope, r, sp, y.index@), r.from == switch_location, length_kind == side(location, r), *get_span == sp, bid.x == v0.g.brs.len(),
      self.tree@ == tr, self.next_scope == ng, self.scope_graph == sg, self.root_mappings == rm, self.mapper == mp, i0 == pick(v0.p, location), 0 <= i0 < v0.p.len(), v0.p[i0].collection.x < v0.g.cols.len(),""",
              start="    let ghost v1 = v_of(self);", end="    proof { let w = v_of(self); lemma_way(v0, v1, w, location, scope, r, sp, y.index@); }")],
            subst=COMMON + MKSUB),
        "open_branch": dict(ret="vp_r", spec="""requires inv(old(self)),
  ensures inv(final(self)), REST,
    vp_r is Ok <==> pick(old(self).processing.0@, location) >= 0 && old(self).processing.0@[pick(old(self).processing.0@, location)].current_location == location,
    vp_r is Err ==> v_of(final(self)) == v_of(old(self)),
    vp_r matches Ok(bid) ==> opened(v_of(old(self)), v_of(final(self)), location, GetSpanner::InsertNew(get_span), bid) && grown(v_of(old(self)).g, v_of(final(self)).g),""".replace("REST", REST),
            start=HIDE + " let ghost v0 = v_of(self); let ghost gs = GetSpanner::InsertNew(get_span);", at=[(r"let r = self\.mk_branch[^;]*;", "after", "proof { let w = v_of(self); if r is Ok { lemma_opened_rooted(v0, w, location, gs, r->Ok_0); } }")],
            subst=COMMON + [(r"impl Fn\(&mut Location\) -> Span \+ 'a", "Spanner<'a>", "callback by contract"), (r"Box::new\(get_span\)", "get_span", "callback by contract")]),
        "open_child_branch": dict(ret="vp_r", spec="""requires inv(old(self)), parent.x < old(self).branches.v@.len(),
  ensures inv(final(self)), REST,
    vp_r is Ok <==> pick(old(self).processing.0@, root) >= 0 && old(self).processing.0@[pick(old(self).processing.0@, root)].current_location == root,
    vp_r is Err ==> v_of(final(self)) == v_of(old(self)),
    vp_r is Ok ==> child(v_of(old(self)), v_of(final(self)), root, parent) && grown(v_of(old(self)).g, v_of(final(self)).g),""".replace("REST", REST),
            start=HIDE + " let ghost v0 = v_of(self); proof { assert(rooted(v0, v0.g.brs[parent.x as int].table_id)); }",
            closures=[dict(types=["&BranchId"], ret="r: bool", spec="requires v0.roots.contains_key(*vp_c0), ensures r == (v0.classes.rep(v0.g.brs[vp_c0.x as int].table_id) == v0.classes.rep(parent_tid))")],
            at=[(r"let child =", "before", "proof { let k = root_of(v0, v0.g.brs[parent.x as int].table_id); let i = choose|i: int| 0 <= i < qs.len() && *#[trigger] qs[i] == k; assert(ks[i] == k); assert(v0.roots.contains_key(mapped)); }"),
                (r"let child_tid =", "before", "let ghost v1 = v_of(self); proof { lemma_opened_rooted(v0, v1, root, GetSpanner::GetFrom(mapped), child); }"),
                (r"self\.branch_roots\.union\([^;]*;", "after", "proof { let w = v_of(self); lemma_joined(v1, w, parent.x as int, child.x as int); assert(child_of(v0, w, v1, root, parent, child, mapped)); }")],
            subst=COMMON + [(r"self\.branches\[(\w+)\]", r"self.branches.vp_at(\1)", "indexing by contract"), (r"\.keys\(\)", ".vp_keys()", "keys by contract"), (r"(?s)let mapped = (self\s*\.root_mappings\s*\.vp_keys\(\))(\s*\.copied\(\))", r"let vp_q = \1; let ghost qs = vp_q.s(); let vp_k = vp_q\2; let ghost ks = vp_k.s();\n    let mapped = vp_k", "iterator named for the proof")]),
        "find_containing_branch": dict(ret="vp_r", spec="""requires ok(v_of(self).g), cid.x < self.collections.v@.len(),
  ensures match vp_r { None => cid.x == 0, Some(b) => cid.x != 0 && b.x < self.branches.v@.len() && self.branches.v@[b.x as int].nested@.contains(cid) }""",
            start="  let ghost g = v_of(self).g; ",
            closures=[dict(types=["(BranchId, &BranchData)"], ret="r: Option<BranchId>", spec="ensures r == (if vp_c0.1.nested@.contains(cid) { Some(vp_c0.0) } else { None })")],
            subst=COMMON + [(r"self\s*\.branches\s*\.iter_enumerated\(\)", "let vp_e = self.branches.iter_enumerated(); let ghost e = vp_e.s(); proof { lemma_containing(g, cid.x as int); if cid.x > 0 { let b = containing(g, cid); assert(e[b].1.nested@.contains(cid)); } assert forall|j: int| 0 <= j < e.len() && (#[trigger] e[j]).1.nested@.contains(cid) implies cid.x != 0 by { let n = g.brs[j].nested@; let k = choose|k: int| 0 <= k < n.len() && #[trigger] n[k] == cid; assert(g.brs[j].nested@[k].x != 0); } }\n    vp_e", "iterator named for the proof")]),
        "find_suitable_collection": dict(ret="vp_r", spec="""requires inv0(v_of(old(self))),
  ensures *final(self) == *old(self), suitable(v_of(old(self)), location, vp_r)""",
            closures=[dict(types=["(BuilderIdx, &CollectionBuilder)"], ret="r: Option<(BuilderIdx, &CollectionBuilder)>", spec="ensures r == (if ldom(vp_c0.1.current_location, location) { Some((vp_c0.0, vp_c0.1)) } else { None })")],
            start=HIDE + " hide(tables); let ghost p0 = self.processing.0@; let ghost v0 = v_of(self);",
            subst=COMMON + [(r"let builder_opt = self\s*\.processing\s*\.enumerate\(\)", "let vp_e = self.processing.enumerate(); let ghost e = vp_e.s(); proof { let n = p0.len(); assert forall|j: int| #![trigger e[j]] #![trigger down(n)[j]] 0 <= j < n implies e[j].0.0 == down(n)[j] && *e[j].1 == p0[down(n)[j]] by { assert(down(n)[j] == n - 1 - j); } lemma_search(p0, location); assert(pick(p0, location) >= 0 ==> at_end(v0.g, p0[pick(p0, location)])) by { reveal(open_ok); } }\n    let builder_opt = vp_e", "iterator named for the proof")]),
        "close_branch": dict(ret="vp_r", spec="""requires inv(old(self)), bid.x < old(self).branches.v@.len(),
  ensures inv(final(self)), REST, vp_r is Ok, v_of(final(self)) == (V { p: without(old(self).processing.0@, closing(v_of(old(self)), bid)), ..v_of(old(self)) }),""".replace("REST", REST),
            start=HIDE + " let ghost v0 = v_of(self); let ghost b0 = bid; let ghost ng = self.next_scope; let ghost sg = self.scope_graph; let ghost mp = self.mapper;",
            closures=[dict(types=["(BranchId, &BranchData)"], ret="r: Option<BranchId>", spec="requires vp_c0.1.table_id.x < v0.classes.len(), ensures r == (if v0.classes.rep(v0.g.brs[b0.x as int].table_id) == v0.classes.rep(vp_c0.1.table_id) { Some(vp_c0.0) } else { None })")],
            loops=[dict(kind="for", iter="y", before="""    let ghost l = branches_to_close@;
    proof { assert(self.branches.v.len() == self.branches.v@.len()); lemma_somes(fo);
      assert forall|b: BranchId| #[trigger] l.contains(b) <==> b.x < v0.g.brs.len() && v0.classes.rep(v0.g.brs[b.x as int].table_id) == v0.classes.rep(v0.g.brs[bid.x as int].table_id) by {
        if l.contains(b) { let i = choose|i: int| 0 <= i < fo.len() && #[trigger] fo[i] == Some(b); assert(e[i].0.n() == i); }
        if b.x < v0.g.brs.len() { assert(e[b.x as int].0.n() == b.x); assert(fo.len() == e.len()); } }
      let n = gone_of(v0.g.brs, l, 0); lemma_none(v0.p, n); }""",
              inv="""    invariant y.seq() == l, v_of(self) == (V { p: without(v0.p, gone_of(v0.g.brs, l, y.index@)), ..v0 }), self.next_scope == ng, self.scope_graph == sg, self.mapper == mp,
      forall|b: BranchId| #[trigger] l.contains(b) <==> b.x < v0.g.brs.len() && v0.classes.rep(v0.g.brs[b.x as int].table_id) == v0.classes.rep(v0.g.brs[b0.x as int].table_id),""",
              start="    proof { assert(l.contains(l[y.index@])); }", end="    proof { let n = v0.g.brs[bid.x as int].nested@; assert forall|c: CollectionId| #[trigger] nested_collections@.contains(c) <==> n.contains(c) by { if n.contains(c) { let i = choose|i: int| 0 <= i < n.len() && n[i] == c; assert(vp_refs(n)[i] == &n[i]); assert(vp_ns[i] == c); } if vp_ns.contains(c) { let i = choose|i: int| 0 <= i < vp_ns.len() && vp_ns[i] == c; assert(n[i] == c); } } lemma_gone(v0, l, y.index@, nested_collections@); }",
              after="    proof { let w = v_of(self); lemma_all_gone(v0, l, b0); lemma_closed(v0, w, b0); }")],
            subst=COMMON + [(r"in (\w+:\s*)?(\w+)\.vp_into\(\)", r"in \1\2", "loop over the vector"), (r"let branch = &mut self\.branches\[(\w+)\];", r"let branch = self.branches.vp_at(\1);", "indexing by contract"), (r"self\.branches\[(\w+)\]", r"self.branches.vp_at(\1)", "indexing by contract"),
               (r"(?s)let nested_collections\s*=\s*(branch\.nested\.vp_iter\(\)\.copied\(\))", r"let vp_n = \1; let ghost vp_ns = vp_n.s();\n      let nested_collections = vp_n", "iterator named for the proof"),
               (r"(?s)let branches_to_close = (self\s*\.branches\s*\.iter_enumerated\(\))(.*?)\s*\.collect", r"let vp_e = \1; let ghost e = vp_e.s();\n    let vp_f = vp_e\2; let ghost fo = vp_f.opts();\n    let branches_to_close = vp_f.collect", "iterator named for the proof")]),
        "insert": dict(ret="vp_r", spec="""requires inv(old(self)),
  ensures inv(final(self)), REST, grown(v_of(old(self)).g, v_of(final(self)).g), vp_r is Ok ==> put(v_of(final(self)), location, span) || nowhere(v_of(final(self)), location),
  decreases far(old(self).processing.0@, location)""".replace("REST", REST),
            start=HIDE + " let ghost v0 = v_of(self); proof { lemma_search(v0.p, location); lemma_grown(v0.g); }",
            at=[(r"let scope = self\.current_scope\(\);", "before", "let ghost i = pick(v0.p, location); proof { assert(at_end(v0.g, v0.p[i])) by { reveal(open_ok); } assert(self.segments.v.len() == self.segments.v@.len()); }"),
                (r"_ => insert_to\(location\),\s*\}", "after", "proof { self.tree = Ghost(stepped_tree(v0, i)); let w = v_of(self); assert(w.p =~= v0.p.update(i, w.p[i])); assert(stepped(v0, w, location, span, i)); lemma_put(v0, w, location, span, i); }"),
                (r"self\.insert\(", "before", "let ghost v1 = v_of(self); proof { lemma_search(v1.p, location); axiom_depth(branch_loc, location); let j = pick(v1.p, location); if j >= 0 { axiom_depth(v1.p[j].current_location, location); if far(v1.p, location) > 0 { axiom_depth(branch_loc, v1.p[j].current_location); } } lemma_grown_to(v0.g, v1.g); }\n        ")],
            subst=COMMON + [(r"&mut self\.collections\[([\w.]+)\]", r"self.collections.vp_mut(\1)", "indexing by contract"),
               (r"(?s)let mut insert_to = \|to\| \{(.*?)\n        \};(.*?)insert_to\((\w+)\)(.*?)insert_to\((\w+)\)", r"\2{ let to = \3;\1}\4{ let to = \5;\1}", "closure put where it is called")]),
    })
    u.raw("} fn main() {}")
    return u


UNITS = [("segments", segments)]
TRUSTED = ["IRMapper::dominates, post_dominates, ldominates, lpost_dominates and the cleaned graph's successors, start node, false edges, reachability answer dominance as defined over the paths of the graph (vp/dominance.py; that strict dominance leads down a tree, so that the search ends, is proved from it); the code behind them is C08's",
           "rustc Terminator, BasicBlockData, Location, BasicBlock, Span restated; the kinds of terminator the code does not tell apart are one",
           "InPlaceUnificationTable (ena): a partition with a representative for each class; TransitiveRelationBuilder: a set of pairs; both by contract",
           "IndexVec: a vector indexed by its own kind of number (pushing gives the next number); newtype indices are usize numbers; Frozen<T> is T",
           "FxHashMap (vp/maps.py), HashSet read as a set listed in some order, Vec::extract_if, iter_mut().rev().find: by contract; iterator adapters (vp/iters.py): a chain is the sequence it yields; iter::from_fn + find unfolded to the loop it runs",
           "the callback a branch is opened with (Fn(&mut Location) -> Span): two uninterpreted functions of the location",
           "a ghost field `tree` (where each part stands) is added to the builder; it is erased", "log statements dropped; ensure!, bail!, anyhow! read as returning some error"]
ASSUMPTIONS = ["axiom_succ: an edge of the graph leads to one of finitely many blocks", "numbers of scopes, segments, branches and collections stay below usize::MAX (really u32: rustc_index panics there)",
               "closures passed to lazy adapters run once per element, in order"]
BOUNDED = "structure, inserts, branches, scopes of about 550 compiled functions, as the visitor drives the builder and as three random sequences of up to 20 operations per function do, against an independent oracle; thorough: 2000 functions, twelve sequences each"


def native_run(ctx):
    return ctx.native_crate("aquascope", {S: [("vp_c09", "native.rs")], "crates/aquascope/src/analysis/stepper/hir_steps.rs": [("vp_c09h", "hir.rs")]}, "vp_c09")
