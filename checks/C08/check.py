"""C08: source nodes map to their code; dominance is that of the cleaned graph."""
import dominance
import iters
import maps

G = "crates/aquascope/src/analysis/ir_mapper/body_graph.rs"
M = "crates/aquascope/src/analysis/ir_mapper/mod.rs"
L = "crates/aquascope/src/analysis/ir_mapper/mir_locations.rs"
P = "crates/aquascope/src/analysis/ir_mapper/post_dominators.rs"

KINDS = "Goto { target: BasicBlock }, SwitchInt { x: u8 }, UnwindResume, UnwindTerminate(u8), Return, Unreachable, Drop { x: u8 }, Call { x: u8 }, TailCall { x: u8 }, Assert { x: u8 }, Yield { x: u8 }, CoroutineDrop, FalseEdge { real_target: BasicBlock, imaginary_target: BasicBlock }, FalseUnwind { real_target: BasicBlock, unwind: u8 }, InlineAsm { x: u8 }"
BASE = maps.USE + "verus! {\nglobal size_of usize == 8;\n" + maps.key("HirId", decl="#[derive(Copy, Clone)]\npub struct HirId { pub x: u64 }") + maps.key("BasicBlock", decl="#[derive(Copy, Clone)]\npub struct BasicBlock { pub x: usize }") + maps.key("Location", decl="#[derive(Copy, Clone)]\npub struct Location { pub block: BasicBlock, pub statement_index: usize }") + iters.STUBS + r"""
pub open spec fn start(b: BasicBlock) -> Location { Location { block: b, statement_index: 0 } }
impl BasicBlock { #[verifier::external_body] pub fn start_location(&self) -> (r: Location) ensures r == start(*self) { unimplemented!() } }
impl Location { #[verifier::external_body] pub fn successor_within_block(&self) -> (r: Location) requires self.statement_index < usize::MAX, ensures r == (Location { block: self.block, statement_index: (self.statement_index + 1) as usize }) { unimplemented!() } }
pub enum TerminatorKind { KINDS }
pub struct Terminator { pub kind: TerminatorKind }
#[derive(Copy, Clone)] pub struct Place { pub local: usize, pub path: u64 }
pub enum FakeReadCause { ForMatchGuard, ForMatchedPlace(Option<u64>), ForGuardBinding, ForLet(Option<u64>), ForIndex }
pub enum StatementKind { Assign((Place, u64)), FakeRead((FakeReadCause, Place)), SetDiscriminant { place: Place, variant_index: u64 }, Deinit(Place), StorageLive(usize), StorageDead(usize), Retag(u64, Place), PlaceMention(Place), AscribeUserType(u64, u64), Coverage(u64), Intrinsic(u64), ConstEvalCounter, Nop, BackwardIncompatibleDropHint { place: Place, reason: u64 } }
pub struct Statement { pub source_info: u64, pub kind: StatementKind }
pub struct BasicBlockData { pub statements: Vec<Statement>, pub t: Terminator, pub is_cleanup: bool }
impl BasicBlockData { pub fn terminator(&self) -> (r: &Terminator) ensures *r == self.t { &self.t } }
pub struct BasicBlocks { pub v: Vec<BasicBlockData> }
pub struct Body { pub basic_blocks: BasicBlocks }
pub enum Either<'a> { Left(&'a Statement), Right(&'a Terminator) }
impl Body {
  #[verifier::external_body] pub fn all_returns(&self) -> (r: It<Location>) requires the(self), ensures forall|b: BasicBlock| #[trigger] exits().contains(b) <==> exists|i: int| 0 <= i < r.s().len() && (#[trigger] r.s()[i]).block == b, forall|i: int| 0 <= i < r.s().len() ==> exits().contains((#[trigger] r.s()[i]).block) { unimplemented!() }
  #[verifier::external_body] pub fn location_to_hir_id(&self, l: Location) -> (r: HirId) requires the(self), in_body(l.block), l.statement_index <= at(l.block).statements@.len(), ensures r == hir_of(l) { unimplemented!() }
  #[verifier::external_body] pub fn stmt_at(&self, l: Location) -> (r: Either<'_>) requires the(self), in_body(l.block), l.statement_index <= at(l.block).statements@.len(),
    ensures r == (if l.statement_index < at(l.block).statements@.len() { Either::Left(&at(l.block).statements@[l.statement_index as int]) } else { Either::Right(&at(l.block).t) }) { unimplemented!() }
}
#[derive(Copy, Clone)] pub struct TyCtxt { pub x: u8 }
#[derive(Copy, Clone)] pub struct HirMap { pub x: u8 }
impl TyCtxt { pub fn hir(&self) -> HirMap { HirMap { x: 0 } } }
impl HirMap { #[verifier::external_body] pub fn parent_id_iter(&self, h: HirId) -> (r: It<HirId>) ensures r.s() == parents(h) { unimplemented!() } #[verifier::external_body] pub fn node_to_string(&self, h: HirId) -> u64 { unimplemented!() } }
pub struct LetStmt { pub hir_id: HirId }
/// the body at hand: its blocks, and the targets of each block's terminator
pub uninterp spec fn data() -> Seq<BasicBlockData>;
pub uninterp spec fn edges(b: BasicBlock) -> Seq<BasicBlock>;
pub open spec fn n_blocks() -> nat { data().len() }
pub open spec fn at(b: BasicBlock) -> BasicBlockData { data()[b.x as int] }
pub open spec fn in_body(b: BasicBlock) -> bool { b.x < n_blocks() }
pub open spec fn the(b: &Body) -> bool { b.basic_blocks.v@ == data() }
pub axiom fn axiom_edges(b: BasicBlock) requires in_body(b) ensures forall|i: int| 0 <= i < edges(b).len() ==> in_body(#[trigger] edges(b)[i]);
/// the blocks some way from the entry leads to, in reverse postorder
pub uninterp spec fn rpo() -> Seq<BasicBlock>;
pub axiom fn axiom_rpo() ensures forall|i: int| 0 <= i < rpo().len() ==> in_body(#[trigger] rpo()[i]);
/// the blocks with an edge to a block
pub uninterp spec fn back(b: BasicBlock) -> Seq<BasicBlock>;
pub axiom fn axiom_back(b: BasicBlock) requires in_body(b) ensures forall|a: BasicBlock| #[trigger] back(b).contains(a) <==> in_body(a) && edges(a).contains(b), forall|i: int| 0 <= i < back(b).len() ==> in_body(#[trigger] back(b)[i]);
pub open spec fn entry() -> BasicBlock { BasicBlock { x: 0 } }
impl BasicBlocks {
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.v@.len() { unimplemented!() }
  #[verifier::external_body] pub fn vp_at(&self, b: BasicBlock) -> (r: &BasicBlockData) requires b.x < self.v@.len(), ensures *r == self.v@[b.x as int] { unimplemented!() }
  #[verifier::external_body] pub fn start_node(&self) -> (r: BasicBlock) ensures r == entry() { unimplemented!() }
  #[verifier::external_body] pub fn reverse_postorder(&self) -> (r: &Vec<BasicBlock>) requires self.v@ == data(), ensures r@ == rpo() { unimplemented!() }
  #[verifier::external_body] pub fn vp_succ(&self, b: BasicBlock) -> (r: It<BasicBlock>) requires self.v@ == data(), in_body(b), ensures r.s() == edges(b) { unimplemented!() }
  #[verifier::external_body] pub fn vp_pred(&self, b: BasicBlock) -> (r: It<BasicBlock>) requires self.v@ == data(), in_body(b), ensures r.s() == back(b) { unimplemented!() }
}
/// a block that ordinary control flow can run
pub open spec fn kept(d: BasicBlockData) -> bool { !d.is_cleanup && !(d.t.kind is Unreachable) }
/// a target that only the borrow checker follows
pub open spec fn imaginary(d: BasicBlockData, t: BasicBlock) -> bool { match d.t.kind { TerminatorKind::FalseEdge { real_target, imaginary_target } => imaginary_target == t, _ => false } }
/// The targets of a block that ordinary control flow can run.  (Its own imaginary target is among them: known finding.)
pub open spec fn succ(b: BasicBlock) -> Seq<BasicBlock> { vp_pick(edges(b), Seq::new(edges(b).len(), |i: int| kept(at(edges(b)[i])) && !imaginary(at(edges(b)[i]), edges(b)[i]))) }
pub open spec fn pred(b: BasicBlock) -> Seq<BasicBlock> { vp_pick(back(b), Seq::new(back(b).len(), |i: int| kept(at(back(b)[i])))) }
/// the blocks that return
pub open spec fn exits() -> Set<BasicBlock> { Seq::new(n_blocks(), |i: int| BasicBlock { x: i as usize }).to_set().filter(|b: BasicBlock| at(b).t.kind is Return) }
pub proof fn lemma_exits(b: BasicBlock) requires n_blocks() <= usize::MAX ensures exits().contains(b) <==> in_body(b) && at(b).t.kind is Return
{ let v = Seq::new(n_blocks(), |i: int| BasicBlock { x: i as usize }); if in_body(b) { assert(v[b.x as int] == b); assert(v.contains(b)); } if v.contains(b) { let i = choose|i: int| 0 <= i < v.len() && v[i] == b; } }
/// what rustc checks of the body: no way leads back from cleanup, none on from an end, and no edge is the imaginary one of its own target
pub axiom fn axiom_mir(a: BasicBlock, b: BasicBlock) requires in_body(a), edges(a).contains(b) ensures !(at(a).t.kind is Unreachable), at(a).is_cleanup ==> at(b).is_cleanup, !imaginary(at(b), b);
/// the source node a location was made for
pub uninterp spec fn hir_of(l: Location) -> HirId;
/// the nodes around a node
pub uninterp spec fn parents(h: HirId) -> Seq<HirId>;
""".replace("KINDS", KINDS)

LEMMAS = r"""
/// a pick keeps exactly the chosen
pub proof fn lemma_picked<T>(s: Seq<T>, keep: Seq<bool>, x: T) requires keep.len() == s.len() ensures vp_pick(s, keep).contains(x) <==> exists|i: int| 0 <= i < s.len() && keep[i] && #[trigger] s[i] == x
{ lemma_idx(s, keep); let p = vp_pick(s, keep); let ix = vp_idx(keep);
  if p.contains(x) { let k = choose|k: int| 0 <= k < p.len() && p[k] == x; assert(s[ix[k]] == x); }
  if exists|i: int| 0 <= i < s.len() && keep[i] && #[trigger] s[i] == x { let i = choose|i: int| 0 <= i < s.len() && keep[i] && #[trigger] s[i] == x; let k = choose|k: int| 0 <= k < ix.len() && #[trigger] ix[k] == i; assert(p[k] == x); } }
pub proof fn lemma_pick_refs(s: Seq<&BasicBlock>, keep: Seq<bool>, v: Seq<BasicBlock>) requires keep.len() == s.len() == v.len(), forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == v[i]
  ensures vp_pick(v, keep).len() == vp_pick(s, keep).len(), forall|i: int| 0 <= i < vp_pick(s, keep).len() ==> *#[trigger] vp_pick(s, keep)[i] == vp_pick(v, keep)[i] decreases s.len()
{ if s.len() > 0 { lemma_pick_refs(s.drop_last(), keep.drop_last(), v.drop_last()); } }
pub proof fn lemma_succ(b: BasicBlock, c: BasicBlock) ensures succ(b).contains(c) <==> edges(b).contains(c) && kept(at(c)) && !imaginary(at(c), c)
{ lemma_picked(edges(b), Seq::new(edges(b).len(), |i: int| kept(at(edges(b)[i])) && !imaginary(at(edges(b)[i]), edges(b)[i])), c); }
pub proof fn lemma_pred(b: BasicBlock, a: BasicBlock) requires in_body(b) ensures pred(b).contains(a) <==> in_body(a) && edges(a).contains(b) && kept(at(a))
{ axiom_back(b); lemma_picked(back(b), Seq::new(back(b).len(), |i: int| kept(at(back(b)[i]))), a); assert(back(b).contains(a) <==> in_body(a) && edges(a).contains(b)); }
/// both directions of the graph agree, but for an edge from a block to itself, which no way needs
pub open spec fn both_ways() -> bool { forall|a: BasicBlock, b: BasicBlock| in_body(a) && in_body(b) && kept(at(b)) ==> (#[trigger] pred(b).contains(a) <==> succ(a).contains(b)) }
pub proof fn lemma_both_ways() ensures both_ways()
{ assert forall|a: BasicBlock, b: BasicBlock| in_body(a) && in_body(b) && kept(at(b)) implies (#[trigger] pred(b).contains(a) <==> succ(a).contains(b)) by { lemma_succ(a, b); lemma_pred(b, a); if edges(a).contains(b) { axiom_mir(a, b); } } }
pub proof fn lemma_two_ways(a: BasicBlock, b: BasicBlock) requires in_body(a), in_body(b), kept(at(a)), kept(at(b)), !imaginary(at(b), b) ensures pred(b).contains(a) <==> succ(a).contains(b)
{ lemma_succ(a, b); lemma_pred(b, a); }
/// only blocks of the body are reached, and no edge leaves ordinary control flow
pub proof fn lemma_inside(p: Seq<BasicBlock>, a: BasicBlock, b: BasicBlock) requires path(p, a, b), in_body(a) ensures in_body(b), a == b || kept(at(b)) decreases p.len()
{ if p.len() > 1 { let q = p.take(p.len() - 1); lemma_cut(p, a, b, p.len() - 2); assert(p.take(p.len() - 2 + 1) =~= q); let c = p[p.len() - 2]; lemma_inside(q, a, c); assert(succ(c).contains(p[p.len() - 2 + 1])); lemma_succ(c, b); axiom_edges(c); } }
"""

MAPPER = r"""
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
/// maps and sets read as such; they list their elements in some order, each once
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VSet<T> { x: core::marker::PhantomData<T> }
impl<T> View for VSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(T)] pub struct VMap<K, T> { x: core::marker::PhantomData<(K, T)> }
impl<K, T> View for VMap<K, T> { type V = Map<K, T>; uninterp spec fn view(&self) -> Map<K, T>; }
pub uninterp spec fn listing<T>(s: Set<T>) -> Seq<T>;
pub broadcast axiom fn axiom_listing<T>(s: Set<T>) ensures #![trigger listing(s)] listing(s).no_duplicates(), forall|x: T| #[trigger] listing(s).contains(x) <==> s.contains(x);
pub open spec fn entries<'a, K, T>(m: Map<K, T>) -> Seq<(&'a K, &'a T)> { Seq::new(listing(m.dom()).len(), |i: int| (&listing(m.dom())[i], &m[listing(m.dom())[i]])) }
pub trait Fresh: Sized { spec fn fresh(&self) -> bool; }
impl<T> Fresh for Vec<T> { open spec fn fresh(&self) -> bool { self@ == Seq::<T>::empty() } }
impl<T> Fresh for VSet<T> { open spec fn fresh(&self) -> bool { self@ == Set::<T>::empty() } }
impl<T> VSet<T> {
  #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn vp_copy(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
  #[verifier::external_body] pub fn vp_iter(&self) -> (r: It<&T>) ensures r.s() == vp_refs(listing(self@)) { unimplemented!() }
  #[verifier::external_body] pub fn vp_into(self) -> (r: It<T>) ensures r.s() == listing(self@) { unimplemented!() }
  #[verifier::external_body] pub fn intersection(&self, o: &VSet<T>) -> (r: It<&T>) ensures r.s() == vp_refs(listing(self@.intersect(o@))) { unimplemented!() }
}
impl<T> FromIt<T> for VSet<T> { open spec fn holds(&self, s: Seq<T>) -> bool { forall|x: T| #[trigger] self@.contains(x) <==> s.contains(x) } }
impl<K, T> VMap<K, T> {
  #[verifier::external_body] pub fn default() -> (r: Self) ensures r@ == Map::<K, T>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&T>) ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None::<&T> }) { unimplemented!() }
  #[verifier::external_body] pub fn vp_iter(&self) -> (r: It<(&K, &T)>) ensures r.s() == entries(self@) { unimplemented!() }
  #[verifier::external_body] pub fn keys(&self) -> (r: It<&K>) ensures r.s() == vp_refs(listing(self@.dom())) { unimplemented!() }
}
/// what a map holds at a key, put there first if need be
#[verifier::external_body] pub fn vp_slot<K, T: Fresh>(m: &mut VMap<K, T>, k: K) -> (r: &mut T)
  ensures old(m)@.contains_key(k) ==> *r == old(m)@[k], !old(m)@.contains_key(k) ==> (*r).fresh(), final(m)@ == old(m)@.insert(k, *final(r)) { unimplemented!() }
/// one of the values a walk over them may change
#[verifier::external_body] pub fn vp_value_mut<'a, K, T>(m: &'a mut VMap<K, T>, k: &K) -> (r: &'a mut T) requires old(m)@.contains_key(*k) ensures *r == old(m)@[*k], final(m)@ == old(m)@.insert(*k, *final(r)) { unimplemented!() }
pub open spec fn up(v: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] <= #[trigger] v[j] }
#[verifier::external_body] pub fn vp_sort(v: &mut Vec<usize>) ensures up(final(v)@), final(v)@.len() == old(v)@.len(), forall|x: usize| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x), old(v)@.no_duplicates() ==> final(v)@.no_duplicates() { unimplemented!() }
"""

PDOM = r"""
pub trait Idx: Copy { spec fn ix(&self) -> nat; fn new(i: usize) -> (r: Self) ensures r.ix() == i; proof fn one(a: Self, b: Self) requires a.ix() == b.ix() ensures a == b; }
impl Idx for BasicBlock { open spec fn ix(&self) -> nat { self.x as nat } fn new(i: usize) -> BasicBlock { BasicBlock { x: i } } proof fn one(a: Self, b: Self) { } }
pub trait ControlFlowGraph { type Node;
  spec fn ready(&self) -> bool;
  spec fn size(&self) -> nat;
  spec fn leads(&self, a: Self::Node, e: Self::Node) -> bool;
  spec fn through(&self, d: Self::Node, a: Self::Node, e: Self::Node) -> bool;
  fn num_nodes(&self) -> (r: usize) requires self.ready(), ensures r == self.size(); }
/// rustc_utils: the post-dominators of a graph's nodes for one exit
#[verifier::external_body] #[verifier::reject_recursive_types(Node)] pub struct PostDominators<Node> { x: core::marker::PhantomData<Node> }
impl<Node: Idx> PostDominators<Node> {
  pub uninterp spec fn size(&self) -> nat;
  pub uninterp spec fn leads(&self, a: Node) -> bool;
  pub uninterp spec fn through(&self, d: Node, a: Node) -> bool;
  #[verifier::external_body] pub fn build<GG: ControlFlowGraph<Node = Node>>(graph: &GG, exit: Node) -> (r: Self) requires graph.ready(), exit.ix() < graph.size(),
    ensures r.size() == graph.size(), forall|a: Node| #[trigger] r.leads(a) == graph.leads(a, exit), forall|d: Node, a: Node| #[trigger] r.through(d, a) == graph.through(d, a, exit) { unimplemented!() }
  #[verifier::external_body] pub fn post_dominators(&self, node: Node) -> (r: Option<It<Node>>) requires node.ix() < self.size(),
    ensures r is Some <==> self.leads(node), r is Some ==> forall|d: Node| #[trigger] r->Some_0.s().contains(d) <==> d.ix() < self.size() && self.through(d, node) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(N)] pub struct ChunkedBitSet<N> { x: core::marker::PhantomData<N> }
impl<N: Idx> ChunkedBitSet<N> {
  pub uninterp spec fn domain(&self) -> nat;
  pub uninterp spec fn has(&self, c: N) -> bool;
  #[verifier::external_body] pub fn new_empty(n: usize) -> (r: Self) ensures r.domain() == n, forall|c: N| !#[trigger] r.has(c) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, x: N) -> (r: bool) requires x.ix() < old(self).domain(), ensures final(self).domain() == old(self).domain(), forall|c: N| #[trigger] final(self).has(c) == (c == x || old(self).has(c)) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(R)] #[verifier::reject_recursive_types(C)] pub struct SparseBitMatrix<R, C> { x: core::marker::PhantomData<(R, C)> }
#[verifier::external_body] #[verifier::reject_recursive_types(C)] pub struct Row<C> { x: core::marker::PhantomData<C> }
impl<C: Idx> Row<C> { pub uninterp spec fn has(&self, c: C) -> bool; pub uninterp spec fn domain(&self) -> nat; #[verifier::external_body] pub fn contains(&self, c: C) -> (r: bool) requires c.ix() < self.domain(), ensures r == self.has(c) { unimplemented!() } }
impl<R: Idx, C: Idx> SparseBitMatrix<R, C> {
  pub uninterp spec fn cols(&self) -> nat;
  pub uninterp spec fn has_row(&self, r: R) -> bool;
  pub uninterp spec fn has(&self, r: R, c: C) -> bool;
  #[verifier::external_body] pub fn new(n: usize) -> (r: Self) ensures r.cols() == n, forall|x: R| !#[trigger] r.has_row(x), forall|x: R, c: C| !#[trigger] r.has(x, c) { unimplemented!() }
  #[verifier::external_body] pub fn insert_all_into_row(&mut self, row: R) ensures final(self).cols() == old(self).cols(), forall|x: R| #[trigger] final(self).has_row(x) == (x == row || old(self).has_row(x)), forall|x: R, c: C| #[trigger] final(self).has(x, c) == (if x == row { c.ix() < old(self).cols() } else { old(self).has(x, c) }) { unimplemented!() }
  #[verifier::external_body] pub fn intersect_row(&mut self, row: R, set: &ChunkedBitSet<C>) -> (r: bool) requires old(self).has_row(row) ==> set.domain() == old(self).cols(),
    ensures final(self).cols() == old(self).cols(), forall|x: R| #[trigger] final(self).has_row(x) == old(self).has_row(x), forall|x: R, c: C| #[trigger] final(self).has(x, c) == (old(self).has(x, c) && (x == row ==> set.has(c))) { unimplemented!() }
  #[verifier::external_body] pub fn row(&self, r: R) -> (o: Option<&Row<C>>) ensures o is Some <==> self.has_row(r), o is Some ==> o->Some_0.domain() == self.cols() && forall|c: C| #[trigger] o->Some_0.has(c) == self.has(r, c) { unimplemented!() }
}
impl<T> It<T> { #[verifier::external_body] pub fn vp_vec(self) -> (r: Vec<T>) ensures r@ == self.s() { unimplemented!() } #[verifier::external_body] pub fn vp_again(&self) -> (r: It<T>) ensures r.s() == self.s() { unimplemented!() } }
#[verifier::external_body] pub fn vp_range(a: usize, b: usize) -> (r: It<usize>) ensures r.s() == Seq::new(if a <= b { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize) { unimplemented!() }
/// rustc's dominators of a graph
#[verifier::external_body] #[verifier::reject_recursive_types(N)] pub struct Dominators<N> { x: core::marker::PhantomData<N> }
impl Dominators<BasicBlock> {
  /// those of the cleaned graph
  pub uninterp spec fn right(&self) -> bool;
  #[verifier::external_body] pub fn is_reachable(&self, b: BasicBlock) -> (r: bool) requires self.right(), in_body(b), ensures r == reaches(entry(), b) { unimplemented!() }
  #[verifier::external_body] pub fn dominates(&self, a: BasicBlock, b: BasicBlock) -> (r: bool) requires self.right(), in_body(a), in_body(b), reaches(entry(), b), ensures r == dom(a, b) { unimplemented!() }
}
/// rustc's algorithm walks the graph both ways
#[verifier::external_body] pub fn vp_dominators(g: &CleanedBody<'_>) -> (r: Dominators<BasicBlock>) requires g.inv(), both_ways(), ensures r.right() { unimplemented!() }
/// all nodes of a graph, in order
pub open spec fn listed<N: Idx>(v: Seq<N>, n: nat) -> bool { v.len() == n && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).ix() == i }
pub proof fn lemma_row<N: Idx>(v: Seq<N>, n: nat, k: int) requires listed(v, n), 0 <= k < n ensures forall|a: N| #![trigger a.ix()] a == v[k] <==> a.ix() == k
{ assert forall|a: N| #![trigger a.ix()] a == v[k] <==> a.ix() == k by { if a.ix() == k { N::one(a, v[k]); } } }
pub proof fn lemma_grow<T>(v: Seq<T>, k: int) requires 0 <= k < v.len() ensures forall|c: T| #[trigger] v.take(k + 1).contains(c) <==> v.take(k).contains(c) || c == v[k]
{ assert forall|c: T| #[trigger] v.take(k + 1).contains(c) <==> v.take(k).contains(c) || c == v[k] by {
    if v.take(k + 1).contains(c) { let q = v.take(k + 1); let i = choose|i: int| 0 <= i < q.len() && q[i] == c; if i < k { assert(v.take(k)[i] == c); } }
    if v.take(k).contains(c) { let i = choose|i: int| 0 <= i < v.take(k).len() && v.take(k)[i] == c; assert(v.take(k + 1)[i] == c); } assert(v.take(k + 1)[k] == v[k]); } }
pub proof fn lemma_exit<N: Idx, GG: ControlFlowGraph<Node = N>>(g: &GG, es: Seq<N>, k: int, a: N, d: N) requires 0 <= k < es.len() ensures all_exits(g, es, k + 1, a, d) <==> all_exits(g, es, k, a, d) && g.leads(a, es[k]) && g.through(d, a, es[k])
{ if all_exits(g, es, k + 1, a, d) { assert(g.leads(a, es[k])); } }
/// b post-dominates a for every exit
pub open spec fn all_exits<N: Idx, GG: ControlFlowGraph<Node = N>>(g: &GG, es: Seq<N>, k: int, a: N, d: N) -> bool { forall|i: int| 0 <= i < k ==> g.leads(a, #[trigger] es[i]) && g.through(d, a, es[i]) }
"""
CLEAN = [(r"\bBody<'tcx>", "Body", "names of rustc's types restated"), (r"Terminator<'tcx>", "Terminator", "names of rustc's types restated"), (r"basic_blocks\[(\**\w+(?:\.\w+)*)\]", r"basic_blocks.vp_at(\1)", "indexing by contract"),
         (r"(?s)log::(debug|warn)!\(.*?\);", "", "log statement"), (r"<BasicBlocks as Successors>::successors\(&self\.0\.basic_blocks, (\w+)\)", r"self.0.basic_blocks.vp_succ(\1)", "trait method written as a method"),
         (r"<BasicBlocks as Predecessors>::predecessors\(&self\.0\.basic_blocks, (\w+)\)", r"self.0.basic_blocks.vp_pred(\1)", "trait method written as a method"),
         (r"impl Iterator<Item = ([\w:]+)>(?: \+ use<[^>]*>)?", r"It<\1>", "iterator chain by contract"), (r"\bSelf::Node\b", "BasicBlock", "associated type written out"), (r"SmallVec<\[BasicBlock; \d+\]>", "Vec<BasicBlock>", "a small vector is a vector")] + iters.SUBST
NODES = CLEAN + [(r"HashMap<", "VMap<", "a map read as such"), (r"HashSet<", "VSet<", "a set read as such"), (r"HashMap::", "VMap::", "a map read as such"), (r"HashSet::", "VSet::", "a set read as such"), (r"pub\((?:crate|super)\)", "pub", "visibility"),
         (r"TyCtxt<'tcx>", "TyCtxt", "names of rustc's types restated"), (r"\b(?:mir|hir)::(\w+)", r"\1", "names of rustc's types restated"), (r"Place<'tcx>", "Place", "names of rustc's types restated"), (r"(TerminatorKind|TK)::", "TerminatorKind::", "names of rustc's types restated"),
         (r"(\w+(?:\.\w+)*)\.entry\((\w+)\)\.or_default\(\)", r"vp_slot(&mut \1, \2)", "entry by contract"), (r"(\w+)\.sort_unstable\(\)", r"vp_sort(\1)", "sorting by contract"), (r" \+ Captures<'_>", "", "iterator chain by contract"), (r"\.first\(\)", ".vp_first()", "slice by contract"), (r"(?<!@)\.last\(\)", ".vp_last()", "slice by contract"), (r"(?m)^\s*use (?:mir::\w+ as TK|TerminatorKind as TK|either::Either);", "", "use")]


SPEC = r"""
pub trait VpEnds<T>: View<V = Seq<T>> { fn vp_first(&self) -> (r: Option<&T>) ensures r == (if self@.len() > 0 { Some(&self@[0]) } else { None::<&T> }); fn vp_last(&self) -> (r: Option<&T>) ensures r == (if self@.len() > 0 { Some(&self@.last()) } else { None::<&T> }); }
impl<T> VpEnds<T> for Vec<T> { #[verifier::external_body] fn vp_first(&self) -> Option<&T> { unimplemented!() } #[verifier::external_body] fn vp_last(&self) -> Option<&T> { unimplemented!() } }
pub open spec fn of_block(b: BasicBlock, v: Seq<usize>) -> Seq<Location> { Seq::new(v.len(), |i: int| Location { block: b, statement_index: v[i] }) }
pub open spec fn lists(m: Map<BasicBlock, Vec<usize>>, l: Location) -> bool { m.contains_key(l.block) && m[l.block]@.contains(l.statement_index) }
pub proof fn lemma_values(m: Map<BasicBlock, Vec<usize>>, e: Seq<(&BasicBlock, &Vec<usize>)>, parts: Seq<Seq<Location>>)
  requires e == entries(m), parts.len() == e.len(), forall|i: int| 0 <= i < e.len() ==> #[trigger] parts[i] == of_block(*e[i].0, e[i].1@)
  ensures forall|l: Location| #[trigger] vp_flat(parts).contains(l) <==> lists(m, l)
{
  axiom_listing(m.dom()); lemma_flat(parts); let v = listing(m.dom());
  assert forall|l: Location| #[trigger] vp_flat(parts).contains(l) <==> lists(m, l) by {
    if vp_flat(parts).contains(l) { let i = choose|i: int| 0 <= i < parts.len() && (#[trigger] parts[i]).contains(l); let j = choose|j: int| 0 <= j < parts[i].len() && parts[i][j] == l; assert(v.contains(v[i])); assert(m[v[i]]@[j] == l.statement_index); }
    if lists(m, l) { assert(v.contains(l.block)); let i = choose|i: int| 0 <= i < v.len() && v[i] == l.block; let w = m[l.block]@; let j = choose|j: int| 0 <= j < w.len() && w[j] == l.statement_index; assert(parts[i] == of_block(*e[i].0, e[i].1@)); assert(parts[i][j] == l); assert(parts[i].contains(l)); }
  }
}
/// a list of indices without repetition, in order, and not empty
pub open spec fn rising(v: Seq<usize>) -> bool { v.len() > 0 && forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] < #[trigger] v[j] }
impl MirOrderedLocations {
  pub open spec fn tidy(&self) -> bool { (forall|b: BasicBlock| #[trigger] self.locations@.contains_key(b) ==> rising(self.locations@[b]@)) && (self.entry_block is Some ==> self.locations@.contains_key(self.entry_block->Some_0)) && (self.exit_block is Some ==> self.locations@.contains_key(self.exit_block->Some_0)) }
  pub open spec fn has(&self, l: Location) -> bool { lists(self.locations@, l) }
  /// the least location of the block before all others
  pub open spec fn entry(&self) -> Option<Location> { match self.entry_block { Some(b) => Some(Location { block: b, statement_index: self.locations@[b]@[0] }), None => None } }
  /// the greatest location of the block after all others
  pub open spec fn exit(&self) -> Option<Location> { match self.exit_block { Some(b) => Some(Location { block: b, statement_index: self.locations@[b]@.last() }), None => None } }
}
/// a location of the body the mapper records
pub open spec fn recorded(mode: GatherMode, l: Location) -> bool { in_body(l.block) && l.statement_index <= at(l.block).statements@.len() && (mode is All || !at(l.block).is_cleanup) }
pub open spec fn holds_at(m: Map<HirId, VSet<Location>>, id: HirId, l: Location) -> bool { m.contains_key(id) && m[id]@.contains(l) }
/// a location made for a node, or for one inside it
pub open spec fn wanted(mode: GatherMode, id: HirId, depth: GatherDepth, l: Location) -> bool { recorded(mode, l) && (hir_of(l) == id || (depth is Nested && parents(hir_of(l)).contains(id))) }
/// a block that stands only for an edge the borrow checker follows
pub open spec fn false_block(b: BasicBlock) -> bool { at(b).statements@.len() == 0 && (at(b).t.kind is FalseUnwind || at(b).t.kind is FalseEdge) }
pub open spec fn shown(mode: GatherMode, id: HirId, depth: GatherDepth, l: Location) -> bool { wanted(mode, id, depth, l) && !false_block(l.block) && !(at(l.block).t.kind is Unreachable) }
pub open spec fn assigns(mode: GatherMode, id: HirId, l: Location, p: Place) -> bool {
  shown(mode, id, GatherDepth::Outer, l) && l.statement_index < at(l.block).statements@.len() && match at(l.block).statements@[l.statement_index as int].kind { StatementKind::FakeRead(f) => f.0 is ForLet && f.1 == p, _ => false }
}
pub open spec fn all_dom(a: BasicBlock, v: Seq<BasicBlock>) -> bool { forall|i: int| 0 <= i < v.len() ==> dom(a, #[trigger] v[i]) }
pub open spec fn all_pdom(a: BasicBlock, v: Seq<BasicBlock>) -> bool { forall|i: int| 0 <= i < v.len() ==> pdom(a, #[trigger] v[i]) }
pub open spec fn no_last(v: Seq<BasicBlock>) -> bool { forall|e: BasicBlock| v.contains(e) ==> !#[trigger] all_pdom(e, v) }
pub open spec fn in_all(v: Seq<BasicBlock>) -> bool { forall|i: int| 0 <= i < v.len() ==> in_body(#[trigger] v[i]) }
/// a block of the map before (after) all the others
pub open spec fn first_of(m: Map<BasicBlock, Vec<usize>>, e: BasicBlock) -> bool { m.contains_key(e) && forall|b: BasicBlock| #[trigger] m.contains_key(b) ==> dom(e, b) }
pub open spec fn last_of(m: Map<BasicBlock, Vec<usize>>, e: BasicBlock) -> bool { m.contains_key(e) && forall|b: BasicBlock| #[trigger] m.contains_key(b) ==> pdom(e, b) }
/// there is only one first block
pub proof fn lemma_first_one(m: Map<BasicBlock, Vec<usize>>, a: BasicBlock, b: BasicBlock) requires first_of(m, a), first_of(m, b) ensures a == b { lemma_dom_anti(a, b); }
pub open spec fn assigned(l: Location) -> Option<Place> { if l.statement_index < at(l.block).statements@.len() { match at(l.block).statements@[l.statement_index as int].kind { StatementKind::FakeRead(f) => if f.0 is ForLet { Some(f.1) } else { None }, _ => None } } else { None } }
impl MirOrderedLocations {
  /// what is known of the locations of a node
  pub open spec fn of(&self, mode: GatherMode, id: HirId, depth: GatherDepth) -> bool {
    &&& self.tidy()
    &&& forall|l: Location| #[trigger] self.has(l) <==> shown(mode, id, depth, l)
    &&& match self.entry_block { Some(e) => first_of(self.locations@, e), None => forall|e: BasicBlock| !#[trigger] first_of(self.locations@, e) }
    &&& match self.exit_block { Some(e) => last_of(self.locations@, e), None => forall|e: BasicBlock| !#[trigger] last_of(self.locations@, e) }
  }
}
impl<'tcx> IRMapper<'tcx> {
  pub open spec fn graph_ok(&self) -> bool {
    &&& self.cleaned_graph.inv() && the(self.body) && self.dominators.right()
    &&& self.post_dominators.0.cols() == n_blocks() && (forall|a: BasicBlock| #[trigger] self.post_dominators.0.has_row(a) <==> in_body(a))
    &&& forall|a: BasicBlock, d: BasicBlock| in_body(a) ==> (#[trigger] self.post_dominators.0.has(a, d) <==> pdom(d, a))
  }
  pub open spec fn ok(&self) -> bool { self.graph_ok() && forall|id: HirId, l: Location| #[trigger] holds_at(self.hir_to_mir@, id, l) <==> recorded(self.gather_mode, l) && hir_of(l) == id }
}
pub proof fn lemma_assigns(mode: GatherMode, id: HirId, m: MirOrderedLocations, v: Seq<Location>, fo: Seq<Option<Place>>)
  requires m.of(mode, id, GatherDepth::Outer), forall|l: Location| #[trigger] v.contains(l) <==> m.has(l), fo.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> fo[i] == assigned(#[trigger] v[i])
  ensures forall|p: Place| #[trigger] vp_somes(fo).contains(p) <==> exists|l: Location| #[trigger] assigns(mode, id, l, p)
{
  lemma_somes(fo);
  assert forall|p: Place| #[trigger] vp_somes(fo).contains(p) <==> exists|l: Location| #[trigger] assigns(mode, id, l, p) by {
    if vp_somes(fo).contains(p) { let i = choose|i: int| 0 <= i < fo.len() && #[trigger] fo[i] == Some(p); assert(v.contains(v[i])); assert(m.has(v[i])); assert(assigns(mode, id, v[i], p)); }
    if exists|l: Location| #[trigger] assigns(mode, id, l, p) { let l = choose|l: Location| #[trigger] assigns(mode, id, l, p); assert(m.has(l)); assert(v.contains(l)); let i = choose|i: int| 0 <= i < v.len() && v[i] == l; assert(fo[i] == Some(p)); }
  }
}
pub open spec fn same_but_map<'tcx>(a: &IRMapper<'tcx>, b: &IRMapper<'tcx>) -> bool { a.cleaned_graph == b.cleaned_graph && a.body == b.body && a.gather_mode == b.gather_mode && a.dominators == b.dominators && a.post_dominators == b.post_dominators }
/// a location recorded for its node
pub open spec fn adds(a: Map<HirId, VSet<Location>>, b: Map<HirId, VSet<Location>>, l: Location) -> bool { forall|id: HirId, k: Location| #[trigger] holds_at(b, id, k) <==> holds_at(a, id, k) || (k == l && id == hir_of(l)) }
pub open spec fn adds_upto(a: Map<HirId, VSet<Location>>, b: Map<HirId, VSet<Location>>, c: BasicBlock, n: int) -> bool { forall|id: HirId, k: Location| #[trigger] holds_at(b, id, k) <==> holds_at(a, id, k) || (k.block == c && k.statement_index < n && id == hir_of(k)) }
pub open spec fn adds_blocks(b: Map<HirId, VSet<Location>>, mode: GatherMode, n: int) -> bool { forall|id: HirId, k: Location| #[trigger] holds_at(b, id, k) <==> k.block.x < n && recorded(mode, k) && id == hir_of(k) }
pub proof fn lemma_put(a: Map<HirId, VSet<Location>>, b: Map<HirId, VSet<Location>>, l: Location) requires b == a.insert(hir_of(l), b[hir_of(l)]), b[hir_of(l)]@ == (if a.contains_key(hir_of(l)) { a[hir_of(l)]@ } else { Set::empty() }).insert(l) ensures adds(a, b, l)
{ assert forall|id: HirId, k: Location| #[trigger] holds_at(b, id, k) <==> holds_at(a, id, k) || (k == l && id == hir_of(l)) by { } }
pub proof fn lemma_post<'tcx>(g: &CleanedBody<'tcx>, es: Seq<BasicBlock>) requires forall|b: BasicBlock| #[trigger] es.contains(b) <==> exits().contains(b)
  ensures forall|a: BasicBlock, d: BasicBlock| in_body(a) ==> (in_body(d) && #[trigger] all_exits(g, es, es.len() as int, a, d) <==> pdom(d, a))
{ reveal(pdom); assert forall|a: BasicBlock, d: BasicBlock| in_body(a) implies (in_body(d) && #[trigger] all_exits(g, es, es.len() as int, a, d) <==> pdom(d, a)) by {
    if all_exits(g, es, es.len() as int, a, d) { assert forall|e: BasicBlock| #[trigger] exits().contains(e) implies reaches(a, e) && between(d, a, e) by { assert(es.contains(e)); let i = choose|i: int| 0 <= i < es.len() && es[i] == e; assert(g.leads(a, es[i]) && g.through(d, a, es[i])); } }
    if pdom(d, a) { assert forall|i: int| 0 <= i < es.len() implies g.leads(a, #[trigger] es[i]) && g.through(d, a, es[i]) by { assert(es.contains(es[i])); assert(exits().contains(es[i])); } } } }
pub fn vp_debug() -> (r: bool) { true }
pub fn vp_assert(b: bool) requires b { }
pub proof fn lemma_at<'tcx>(m: &IRMapper<'tcx>, id: HirId) requires m.ok(), m.hir_to_mir@.contains_key(id) ensures forall|l: Location| #[trigger] m.hir_to_mir@[id]@.contains(l) <==> recorded(m.gather_mode, l) && hir_of(l) == id
{ assert forall|l: Location| #[trigger] m.hir_to_mir@[id]@.contains(l) <==> recorded(m.gather_mode, l) && hir_of(l) == id by { assert(holds_at(m.hir_to_mir@, id, l) <==> recorded(m.gather_mode, l) && hir_of(l) == id); } }
pub open spec fn entry_of<'tcx>(m: &IRMapper<'tcx>, id: HirId, s: Set<Location>) -> bool { forall|l: Location| #[trigger] s.contains(l) <==> recorded(m.gather_mode, l) && hir_of(l) == id }
pub proof fn lemma_entries<'tcx>(m: &IRMapper<'tcx>) requires m.ok() ensures forall|i: int| 0 <= i < entries(m.hir_to_mir@).len() ==> entry_of(m, *(#[trigger] entries(m.hir_to_mir@)[i]).0, entries(m.hir_to_mir@)[i].1@)
{ let h = m.hir_to_mir@; axiom_listing(h.dom()); let e = entries(h); assert forall|i: int| 0 <= i < e.len() implies entry_of(m, *(#[trigger] e[i]).0, e[i].1@) by { let v = listing(h.dom()); assert(v.contains(v[i])); lemma_at(m, v[i]); } }
pub proof fn lemma_found<'tcx>(m: &IRMapper<'tcx>, v: Seq<HirId>) requires m.ok(), v == listing(m.hir_to_mir@.dom()) ensures forall|l: Location| #[trigger] recorded(m.gather_mode, l) ==> v.contains(hir_of(l))
{ axiom_listing(m.hir_to_mir@.dom()); assert forall|l: Location| #[trigger] recorded(m.gather_mode, l) implies v.contains(hir_of(l)) by { assert(holds_at(m.hir_to_mir@, hir_of(l), l)); assert(m.hir_to_mir@.dom().contains(hir_of(l))); } }
pub proof fn lemma_kept(v: Seq<Location>, keep: Seq<bool>) requires v.no_duplicates(), keep.len() == v.len()
  ensures vp_pick(v, keep).no_duplicates(), forall|x: Location| #[trigger] vp_pick(v, keep).contains(x) <==> exists|i: int| 0 <= i < v.len() && keep[i] && #[trigger] v[i] == x
{ lemma_pick(v, keep); lemma_idx(v, keep); let p = vp_pick(v, keep); let ix = vp_idx(keep); assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { assert(ix[i] != ix[j]) by { if i < j { assert(ix[i] < ix[j]); } else { assert(ix[j] < ix[i]); } } assert(p[i] == v[ix[i]] && p[j] == v[ix[j]]); } }
pub proof fn lemma_fresh(v: Seq<Location>, k: int) requires v.no_duplicates(), 0 <= k < v.len() ensures !v.take(k).contains(v[k])
{ let q = v.take(k); if q.contains(v[k]) { let i = choose|i: int| 0 <= i < q.len() && q[i] == v[k]; assert(v[i] == v[k]); } }
/// a location put where its block's are
pub open spec fn slotted(was: Map<BasicBlock, Vec<usize>>, now: Map<BasicBlock, Vec<usize>>, l: Location) -> bool {
  &&& now.dom() =~= was.dom().insert(l.block) && forall|b: BasicBlock| b != l.block && #[trigger] was.contains_key(b) ==> now[b] == was[b]
  &&& now[l.block]@ == (if was.contains_key(l.block) { was[l.block]@ } else { Seq::<usize>::empty() }).push(l.statement_index)
}
pub proof fn lemma_slot(was: Map<BasicBlock, Vec<usize>>, now: Map<BasicBlock, Vec<usize>>, l: Location)
  requires if at(l.block).t.kind is Unreachable { now == was } else { slotted(was, now, l) }, !lists(was, l), forall|b: BasicBlock| #[trigger] was.contains_key(b) ==> was[b]@.len() > 0 && was[b]@.no_duplicates()
  ensures forall|k: Location| #[trigger] lists(now, k) <==> lists(was, k) || (k == l && !(at(l.block).t.kind is Unreachable)), forall|b: BasicBlock| #[trigger] now.contains_key(b) ==> now[b]@.len() > 0 && now[b]@.no_duplicates()
{
  if !(at(l.block).t.kind is Unreachable) {
    let o = if was.contains_key(l.block) { was[l.block]@ } else { Seq::<usize>::empty() }; let n = now[l.block]@;
    assert forall|x: usize| #[trigger] n.contains(x) <==> o.contains(x) || x == l.statement_index by { if o.contains(x) { let i = choose|i: int| 0 <= i < o.len() && o[i] == x; assert(n[i] == x); } assert(n[o.len() as int] == l.statement_index); if n.contains(x) { let i = choose|i: int| 0 <= i < n.len() && n[i] == x; if i < o.len() { assert(o[i] == x); } } }
    assert(!o.contains(l.statement_index));
    assert(n.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j implies n[i] != n[j] by { if i < o.len() { assert(o.contains(o[i])); } if j < o.len() { assert(o.contains(o[j])); } } }
    assert forall|k: Location| #[trigger] lists(now, k) <==> lists(was, k) || k == l by { if k.block != l.block { assert(now.contains_key(k.block) <==> was.contains_key(k.block)); } }
    assert forall|b: BasicBlock| #[trigger] now.contains_key(b) implies now[b]@.len() > 0 && now[b]@.no_duplicates() by { if b != l.block { assert(was.contains_key(b)); } }
  }
}
pub proof fn lemma_sorted(was: Map<BasicBlock, Vec<usize>>, now: Map<BasicBlock, Vec<usize>>, k: BasicBlock)
  requires was.contains_key(k), now == was.insert(k, now[k]), forall|x: usize| #[trigger] now[k]@.contains(x) <==> was[k]@.contains(x) ensures now.dom() =~= was.dom(), forall|l: Location| #[trigger] lists(now, l) <==> lists(was, l)
{ assert forall|l: Location| #[trigger] lists(now, l) <==> lists(was, l) by { if l.block == k { assert(now[k]@.contains(l.statement_index) <==> was[k]@.contains(l.statement_index)); } } }
pub proof fn lemma_rising(m: Map<BasicBlock, Vec<usize>>, d: Set<BasicBlock>)
  requires m.dom() == d, forall|b: BasicBlock| #[trigger] d.contains(b) ==> m[b]@.no_duplicates() && m[b]@.len() > 0, forall|i: int| 0 <= i < listing(d).len() ==> up(m[#[trigger] listing(d)[i]]@)
  ensures forall|b: BasicBlock| #[trigger] m.contains_key(b) ==> rising(m[b]@)
{ axiom_listing(d); assert forall|b: BasicBlock| #[trigger] m.contains_key(b) implies rising(m[b]@) by { assert(listing(d).contains(b)); let i = choose|i: int| 0 <= i < listing(d).len() && listing(d)[i] == b; let v = m[b]@; assert(up(v)); assert(d.contains(b)); assert forall|i: int, j: int| 0 <= i < j < v.len() implies #[trigger] v[i] < #[trigger] v[j] by { assert(v[i] <= v[j]); assert(v[i] != v[j]); } } }
pub proof fn lemma_keys(m: Map<BasicBlock, Vec<usize>>, v: Seq<BasicBlock>)
  requires v =~= listing(m.dom()), forall|b: BasicBlock| #[trigger] m.contains_key(b) ==> rising(m[b]@), forall|l: Location| #[trigger] lists(m, l) ==> in_body(l.block)
  ensures in_all(v), forall|b: BasicBlock| v.contains(b) <==> #[trigger] m.contains_key(b), forall|e: BasicBlock| #![trigger first_of(m, e)] #![trigger all_dom(e, v)] first_of(m, e) <==> v.contains(e) && all_dom(e, v), forall|e: BasicBlock| #![trigger last_of(m, e)] #![trigger all_pdom(e, v)] last_of(m, e) <==> v.contains(e) && all_pdom(e, v)
{
  axiom_listing(m.dom());
  assert forall|b: BasicBlock| v.contains(b) <==> #[trigger] m.contains_key(b) by { assert(listing(m.dom()).contains(b) <==> m.dom().contains(b)); }
  assert forall|i: int| 0 <= i < v.len() implies in_body(#[trigger] v[i]) by { assert(v.contains(v[i])); assert(m.contains_key(v[i])); let w = m[v[i]]@; assert(w.contains(w[0])); assert(lists(m, Location { block: v[i], statement_index: w[0] })); }
  assert forall|e: BasicBlock| #![trigger first_of(m, e)] #![trigger all_dom(e, v)] first_of(m, e) <==> v.contains(e) && all_dom(e, v) by {
    if first_of(m, e) { assert(m.contains_key(e)); assert forall|i: int| 0 <= i < v.len() implies dom(e, #[trigger] v[i]) by { assert(v.contains(v[i])); assert(m.contains_key(v[i])); } }
    if v.contains(e) && all_dom(e, v) { assert(m.contains_key(e)); assert forall|b: BasicBlock| #[trigger] m.contains_key(b) implies dom(e, b) by { assert(v.contains(b)); } } }
  assert forall|e: BasicBlock| #![trigger last_of(m, e)] #![trigger all_pdom(e, v)] last_of(m, e) <==> v.contains(e) && all_pdom(e, v) by {
    if last_of(m, e) { assert(m.contains_key(e)); assert forall|i: int| 0 <= i < v.len() implies pdom(e, #[trigger] v[i]) by { assert(v.contains(v[i])); assert(m.contains_key(v[i])); } }
    if v.contains(e) && all_pdom(e, v) { assert(m.contains_key(e)); assert forall|b: BasicBlock| #[trigger] m.contains_key(b) implies pdom(e, b) by { assert(v.contains(b)); } } }
}
"""


WALK = r"""
/// rustc's default walk over a body, as far as it meets statements and terminators
impl<'tcx> IRMapper<'tcx> {
  pub fn super_basic_block_data(&mut self, block: BasicBlock, data: &BasicBlockData) requires old(self).graph_ok(), in_body(block), *data == at(block),
    ensures same_but_map(old(self), final(self)), adds_upto(old(self).hir_to_mir@, final(self).hir_to_mir@, block, (at(block).statements@.len() + 1) as int)
  {
    let ghost h0 = self.hir_to_mir@; let mut index: usize = 0;
    for statement in y: &data.statements
      invariant self.graph_ok(), same_but_map(old(self), self), in_body(block), *data == at(block), index == y.index@, y.seq() == vp_refs(data.statements@), adds_upto(h0, self.hir_to_mir@, block, y.index@ as int),
    {
      let location = Location { block, statement_index: index };
      self.visit_statement(statement, location);
      proof { let n = data.statements.len(); assert(n == data.statements@.len()); }
      index += 1;
    }
    let location = Location { block, statement_index: index };
    self.visit_terminator(data.terminator(), location);
  }
  pub fn visit_body(&mut self, body: &Body) requires the(body), old(self).graph_ok(), n_blocks() <= usize::MAX, forall|id: HirId, l: Location| !#[trigger] holds_at(old(self).hir_to_mir@, id, l),
    ensures same_but_map(old(self), final(self)), adds_blocks(final(self).hir_to_mir@, final(self).gather_mode, n_blocks() as int)
  {
    for bb in 0..body.basic_blocks.len()
      invariant self.graph_ok(), the(body), same_but_map(old(self), self), adds_blocks(self.hir_to_mir@, self.gather_mode, bb as int),
    { let b = BasicBlock { x: bb }; self.visit_basic_block_data(b, body.basic_blocks.vp_at(b)); }
  }
}
"""


def graph(ctx):
    u = ctx.unit("graph")
    u.raw(BASE + dominance.GRAPH + LEMMAS + MAPPER + PDOM)
    u.item(G, "struct", "CleanedBody", attrs="", subst=CLEAN + [(r"pub\(crate\) ", "pub ", "visibility")])
    u.raw("impl<'tcx> CleanedBody<'tcx> { pub open spec fn inv(&self) -> bool { the(self.0) } }\n")
    h = "impl<'tcx> CleanedBody<'tcx>"
    u.impl(G, "BasicBlockData", "BasicBlockDataExt", {"is_unreachable": dict(ret="r", spec="ensures r == (self.t.kind is Unreachable)")}, header="impl BasicBlockData")
    u.impl(G, "CleanedBody", "StartNode", {"start_node": dict(ret="r", spec="ensures r == entry()", subst=CLEAN)}, header=h, types=False)
    u.impl(G, "CleanedBody", None, {
        "body": dict(ret="r", spec="ensures r == self.0", subst=CLEAN),
        "keep_block": dict(ret="r", spec="ensures r == kept(*bb)", subst=CLEAN),
        "is_imaginary_target": dict(ret="r", spec="ensures r == imaginary(*from_data, target)", subst=CLEAN),
        "is_false_edge": dict(ret="r", spec="requires self.inv(), in_body(bb), ensures r == (at(bb).t.kind is FalseEdge)", subst=CLEAN),
        "terminator_in_block": dict(ret="r", spec="requires self.inv(), in_body(block), ensures *r == at(block).t", subst=CLEAN),
    })
    u.impl(G, "CleanedBody", "Successors", {"successors": dict(ret="r", spec="requires self.inv(), in_body(node), ensures r.s() == succ(node)", start="  proof { axiom_edges(node); broadcast use lemma_pick_ext; }", subst=CLEAN,
        closures=[dict(types=["&BasicBlock"], ret="r: bool", spec="requires self.inv(), in_body(*bb), ensures r == (kept(at(*bb)) && !imaginary(at(*bb), *bb))")])}, header=h, types=False)
    u.impl(G, "CleanedBody", "Predecessors", {"predecessors": dict(ret="r", spec="requires self.inv(), in_body(node), ensures r.s() == pred(node)", start="  proof { axiom_back(node); broadcast use lemma_pick_ext; }", subst=CLEAN,
        closures=[dict(types=["&BasicBlock"], ret="r: bool", spec="requires self.inv(), in_body(*bb), ensures r == kept(at(*bb))")])}, header=h, types=False)
    u.impl(G, "CleanedBody", None, {
        "location_successor": dict(ret="r", spec="""requires self.inv(), in_body(location.block),
  ensures r == (if location.statement_index < at(location.block).statements@.len() { Some(Location { block: location.block, statement_index: (location.statement_index + 1) as usize }) }
    else if succ(location.block).len() == 1 { Some(start(succ(location.block)[0])) } else { None::<Location> })""", subst=CLEAN),
        "blocks": dict(ret="r", spec="requires self.inv(), ensures r.s() == kept_of(rpo().reverse())", start="  proof { axiom_rpo(); }", subst=CLEAN + [
            (r"(?s)(self\s*\.0\s*\.basic_blocks\s*\.reverse_postorder\(\)\s*\.vp_iter\(\)\s*\.rev\(\))(\s*\.filter.*?)\s*\.copied\(\)", r"let vp_a = \1; let ghost a = vp_a.s(); let vp_b = vp_a\2; let ghost k = vp_b.kept(); let vp_c = vp_b.copied(); proof { let v = rpo().reverse(); lemma_pick_refs(a, k, v); assert(vp_c.s() =~= vp_pick(v, k)); assert(k =~= Seq::new(v.len(), |i: int| kept(at(v[i])))); } vp_c", "iterators named for the proof")],
            closures=[dict(types=["&&BasicBlock"], ret="r: bool", spec="requires self.inv(), in_body(**bb), ensures r == kept(at(**bb))")]),
    })
    u.raw("pub open spec fn kept_of(s: Seq<BasicBlock>) -> Seq<BasicBlock> { vp_pick(s, Seq::new(s.len(), |i: int| kept(at(s[i])))) }\n")
    u.impl(G, "CleanedBody", "DirectedGraph", {"num_nodes": dict(subst=CLEAN)}, header="impl ControlFlowGraph for CleanedBody<'_>", inject="  open spec fn ready(&self) -> bool { self.inv() && both_ways() }\n  open spec fn size(&self) -> nat { n_blocks() }\n  open spec fn leads(&self, a: BasicBlock, e: BasicBlock) -> bool { reaches(a, e) }\n  open spec fn through(&self, d: BasicBlock, a: BasicBlock, e: BasicBlock) -> bool { between(d, a, e) }\n")
    APD = [(r"\(SparseBitMatrix", "(pub SparseBitMatrix", "visibility"), (r"pub\(crate\)", "pub", "visibility"), (r"impl IntoIterator<", "impl IntoIt<", "iterator chain by contract"),
           (r"let (\w+) = \((\w+) \.\. ([^()]*\([^()]*\)[^()]*)\)\.map", r"let vp_r = vp_range(\2, \3); let ghost rs = vp_r.s();\n    let \1 = vp_r.map", "range by contract"), (r"in (\w+:\s*)?(\w+)\.clone\(\)", r"in \1\2.vp_again().vp_vec()", "loop over what the iterator yields"),
           (r"for (exit|other) in (\w+:\s*)?(\w+)(?=\s)", r"for \1 in \2\3.vp_into().vp_vec()", "loop over what the iterator yields")]
    u.item(P, "struct", "AllPostDominators", attrs="#[verifier::reject_recursive_types(Node)]", subst=APD)
    u.impl(P, "AllPostDominators", None, {
        "build": dict(ret="r", spec="""requires graph.ready(), forall|i: int| 0 <= i < exits.seq().len() ==> (#[trigger] exits.seq()[i]).ix() < graph.size(),
  ensures r.0.cols() == graph.size(), forall|a: Node| #[trigger] r.0.has_row(a) <==> a.ix() < graph.size(),
    forall|a: Node, d: Node| a.ix() < graph.size() ==> (#[trigger] r.0.has(a, d) <==> d.ix() < graph.size() && all_exits(graph, exits.seq(), exits.seq().len() as int, a, d))""",
            start="    let ghost es = exits.seq();", closures=[dict(types=["usize"], ret="r: Node", spec="ensures r.ix() == i")],
            at=[(r"let all_nodes =[^;]*;", "after", "    proof { assert forall|i: int| 0 <= i < all_nodes.s().len() implies (#[trigger] all_nodes.s()[i]).ix() == i by { assert(rs[i] == i); } }")],
            loops=[
              dict(kind="for", iter="y", inv="""    invariant graph.ready(), pdom.cols() == graph.size(), listed(y.seq(), graph.size()), forall|a: Node| #[trigger] pdom.has_row(a) <==> a.ix() < y.index@,
      forall|a: Node, d: Node| #[trigger] pdom.has(a, d) <==> a.ix() < y.index@ && d.ix() < graph.size(),""", start="      proof { lemma_row(y.seq(), graph.size(), y.index@); }"),
              dict(kind="for", iter="z", inv="""    invariant graph.ready(), pdom.cols() == graph.size(), z.seq() == es, listed(all_nodes.s(), graph.size()), forall|a: Node| #[trigger] pdom.has_row(a) <==> a.ix() < graph.size(),
      forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).ix() < graph.size(),
      forall|a: Node, d: Node| a.ix() < graph.size() ==> (#[trigger] pdom.has(a, d) <==> d.ix() < graph.size() && all_exits(graph, es, z.index@, a, d)),""", start="      let ghost k = z.index@; proof { assert(es[k].ix() < graph.size()); }",
                   end="      proof { assert forall|a: Node, d: Node| a.ix() < graph.size() implies (#[trigger] pdom.has(a, d) <==> d.ix() < graph.size() && all_exits(graph, es, k + 1, a, d)) by { lemma_exit(graph, es, k, a, d); } }"),
              dict(kind="for", iter="y", inv="""    invariant graph.ready(), pdom.cols() == graph.size(), listed(y.seq(), graph.size()), forall|a: Node| #[trigger] pdom.has_row(a) <==> a.ix() < graph.size(), 0 <= k < es.len(),
      exit_pdom.size() == graph.size(), forall|a: Node| #[trigger] exit_pdom.leads(a) == graph.leads(a, es[k]), forall|d: Node, a: Node| #[trigger] exit_pdom.through(d, a) == graph.through(d, a, es[k]),
      forall|a: Node, d: Node| a.ix() < graph.size() ==> (#[trigger] pdom.has(a, d) <==> d.ix() < graph.size() && all_exits(graph, es, k, a, d) && (a.ix() < y.index@ ==> graph.leads(a, es[k]) && graph.through(d, a, es[k]))),""",
                   start="      proof { lemma_row(y.seq(), graph.size(), y.index@); }"),
              dict(kind="for", iter="w", inv="    invariant is_pdom.domain() == graph.size(), forall|c: Node| #[trigger] is_pdom.has(c) <==> w.seq().take(w.index@).contains(c), forall|c: Node| #[trigger] w.seq().contains(c) ==> c.ix() < graph.size(),",
                   before="        let ghost ps = iter.s(); proof { assert forall|c: Node| !#[trigger] ps.take(0).contains(c) by { } }", start="          proof { assert(w.seq().contains(w.seq()[w.index@])); }",
                   end="          proof { lemma_grow(w.seq(), w.index@); }", after="        proof { assert(ps.take(ps.len() as int) =~= ps); }"),
            ],
            subst=APD),
        "is_postdominated_by": dict(ret="r", spec="requires dom.ix() < self.0.cols(), ensures r == (self.0.has_row(node) && self.0.has(node, dom))", subst=APD),
    })
    u.raw(SPEC)
    for e in ("GatherMode", "GatherDepth"):
        u.item(M, "enum", e, attrs="#[derive(Copy, Clone)]", subst=[(r"pub\(crate\)", "pub", "visibility")])
    u.item(L, "struct", "MirOrderedLocations", attrs="", subst=NODES)
    u.item(M, "struct", "IRMapper", attrs="", subst=NODES)
    u.impl(L, "MirOrderedLocations", None, {
        "entry_location": dict(ret="r", spec="requires self.tidy(), ensures r == self.entry()", subst=NODES, closures=[dict(types=["BasicBlock"], ret="r: Location", spec="requires self.tidy(), self.entry_block == Some(block), ensures Some(r) == self.entry()")]),
        "exit_location": dict(ret="r", spec="requires self.tidy(), ensures r == self.exit()", subst=NODES,
            closures=[dict(ret="r: Option<Location>", spec="requires false"), dict(types=["&Vec<usize>"], ret="r: Option<Location>", spec="requires vs@.len() > 0, ensures r == Some(Location { block, statement_index: vs@.last() })"),
                      dict(types=["&usize"], ret="r: Location", spec="ensures r == (Location { block, statement_index: *vp_c0 })")]),
        "get_entry_exit_locations": dict(ret="r", spec="requires self.tidy(), ensures r == (if self.entry() is Some && self.exit() is Some { Some((self.entry()->Some_0, self.exit()->Some_0)) } else { None::<(Location, Location)> })", subst=NODES),
        "values": dict(ret="r", spec="ensures forall|l: Location| #[trigger] r.s().contains(l) <==> self.has(l)", subst=NODES + [
            (r"(?s)self\.locations\.vp_iter\(\)(\.flat_map\(.*\}\))", r"let vp_e = self.locations.vp_iter(); let ghost e = vp_e.s();\n    let vp_f = vp_e\1; proof { lemma_values(self.locations@, e, vp_f.parts()); }\n    vp_f", "iterators named for the proof"),
            (r"(?s)(\w+)\.vp_iter\(\)(\.map\(\|idx.*?\}\s*\}\))", r"let vp_i = \1.vp_iter(); let ghost is = vp_i.s(); let vp_m = vp_i\2; proof { assert forall|i: int| 0 <= i < is.len() implies #[trigger] vp_m.s()[i] == of_block(*bb, \1@)[i] by { assert(is[i] == &\1@[i]); } assert(vp_m.s() =~= of_block(*bb, \1@)); }\n      vp_m", "iterators named for the proof")],
            closures=[dict(types=["(&BasicBlock, &Vec<usize>)"], ret="r: It<Location>", spec="ensures r.s() == of_block(*vp_c0.0, vp_c0.1@)"), dict(types=["&usize"], ret="r: Location", spec="ensures r == (Location { block: *bb, statement_index: *idx })")]),
    })
    h = "impl<'tcx> IRMapper<'tcx>"
    TWO = "requires self.graph_ok(), in_body(dom%s), in_body(node%s), "
    u.impl(M, "IRMapper", None, {
        "dominates": dict(ret="r", spec="requires self.graph_ok(), in_body(dom), in_body(node), ensures r == crate::dom(dom, node)", start="    proof { reveal(crate::dom); }", subst=NODES),
        "post_dominates": dict(ret="r", spec="requires self.graph_ok(), in_body(pdom), in_body(node), ensures r == crate::pdom(pdom, node)", subst=NODES),
        "ldominates": dict(ret="r", spec="requires self.graph_ok(), in_body(dom.block), in_body(node.block), ensures r == ldom(dom, node)", start="    proof { reveal(ldom); }", subst=NODES),
        "lpost_dominates": dict(ret="r", spec="requires self.graph_ok(), in_body(pdom.block), in_body(node.block), ensures r == lpdom(pdom, node)", start="    proof { reveal(lpdom); }", subst=NODES),
        "is_terminator_switchint": dict(ret="r", spec="requires self.graph_ok(), in_body(location.block), ensures r == (at(location.block).t.kind is SwitchInt)", subst=NODES),
        "is_false_location": dict(ret="r", spec="requires self.graph_ok(), in_body(loc.block), ensures r == false_block(loc.block)", subst=NODES),
        "is_block_unreachable": dict(ret="r", spec="requires self.graph_ok(), in_body(block), ensures r == (at(block).t.kind is Unreachable)", subst=NODES),
        "local_assigned_place": dict(ret="r", spec="requires self.ok(), ensures forall|p: Place| #[trigger] r@.contains(p) <==> exists|l: Location| #[trigger] assigns(self.gather_mode, local.hir_id, l, p)",
            subst=NODES + [(r"Vec::default,", "|| -> (r: Vec<Place>) ensures r@ == Seq::<Place>::empty() { Vec::new() },", "the empty one"), (r"box \(", "(", "box pattern"), (r"FRC::", "FakeReadCause::", "names"), (r"SK::", "StatementKind::", "names"), (r"(?s)use mir::\{.*?\};|use \{.*?\};|use either::Either;", "", "use"),
              (r"(?s)(mol\s*\.values\(\))(\s*\.filter_map\(.*?\}\s*\}\))\s*(\.collect::<Vec<_>>\(\))", r"let vp_v = \1; let ghost v = vp_v.s(); proof { assert forall|i: int| 0 <= i < v.len() implies recorded(self.gather_mode, #[trigger] v[i]) by { assert(v.contains(v[i])); assert(mol.has(v[i])); } }\n          let vp_f = vp_v\2; let ghost fo = vp_f.opts(); proof { lemma_assigns(self.gather_mode, local.hir_id, mol, v, fo); }\n          vp_f\3", "iterators named for the proof")],
            closures=[dict(types=["MirOrderedLocations"], ret="r: Vec<Place>", spec="requires self.ok(), mol.of(self.gather_mode, local.hir_id, GatherDepth::Outer), ensures forall|p: Place| #[trigger] r@.contains(p) <==> exists|l: Location| #[trigger] assigns(self.gather_mode, local.hir_id, l, p)"),
                      dict(types=["Location"], ret="r: Option<Place>", spec="requires self.ok(), recorded(self.gather_mode, loc), ensures r == assigned(loc)")]),
        "get_mir_locations": dict(ret="r", spec="""requires self.ok(), ensures r is None <==> (forall|l: Location| !#[trigger] wanted(self.gather_mode, hir_id, depth, l)),
  r is Some ==> r->Some_0.of(self.gather_mode, hir_id, depth)""", start="    broadcast use axiom_listing;\n    let ghost h = self.hir_to_mir@; let ghost mode = self.gather_mode;",
            loops=[dict(kind="for", iter="y", inv="""          invariant y.seq() == vp_refs(listing(locs@)), forall|l: Location| #[trigger] locations@.contains(l) <==> before.contains(l) || listing(locs@).take(y.index@).contains(l),""",
                        before="        let ghost before = locations@; proof { assert(forall|l: Location| !listing(locs@).take(0).contains(l)); }", start="            proof { let v = listing(locs@); assert(*l == v[y.index@]); lemma_grow(v, y.index@); }",
                        after="        proof { let v = listing(locs@); assert(v.take(v.len() as int) =~= v); axiom_listing(locs@); }"),
                   dict(kind="for", iter="z", inv="""      invariant z.seq() =~= listing(m1.dom()), total_location_map@.dom() == m1.dom(), forall|l: Location| #[trigger] lists(total_location_map@, l) <==> lists(m1, l),
        forall|b: BasicBlock| #[trigger] m1.contains_key(b) ==> total_location_map@[b]@.no_duplicates() && total_location_map@[b]@.len() > 0,
        forall|i: int| 0 <= i < z.index@ ==> up(total_location_map@[#[trigger] listing(m1.dom())[i]]@),""",
                        before="    let ghost m1 = total_location_map@;", 
                        end="      ; proof { axiom_listing(m1.dom()); lemma_sorted(vp_was, total_location_map@, vp_k); }",
                        after="    proof { axiom_listing(m1.dom()); lemma_rising(total_location_map@, m1.dom()); }")],
            closures=[None, dict(types=["HirId"], ret="r: bool", spec="ensures r == (id == hir_id)"),
                      dict(types=["&Location"], ret="r: bool", spec="requires self.ok(), in_body(loc.block), ensures r == !false_block(loc.block)"), None,
                      dict(types=["&&BasicBlock"], ret="r: bool", spec="requires self.graph_ok(), in_all(basic_blocks@), in_body(**vp_c0), ensures r == all_dom(**vp_c0, basic_blocks@)", start="broadcast use group_vp_ext; "),
                      dict(types=["&BasicBlock"], ret="r: bool", spec="requires self.graph_ok(), in_body(*vp_c0), in_body(candidate_dom), ensures r == dom(candidate_dom, *vp_c0)", start="proof { reveal(dom); } "),
                      dict(types=["&Vec<BasicBlock>"], ret="r: Option<BasicBlock>", spec="requires self.graph_ok(), in_all(basic_blocks@), ensures r is Some ==> basic_blocks@.contains(r->Some_0) && all_pdom(r->Some_0, basic_blocks@), r is None ==> no_last(basic_blocks@)", start="broadcast use group_vp_ext; "),
                      dict(types=["&&BasicBlock"], ret="r: bool", spec="requires self.graph_ok(), in_all(basic_blocks@), in_body(**vp_c0), ensures r == all_pdom(**vp_c0, basic_blocks@)", start="broadcast use group_vp_ext; "),
                      dict(types=["&BasicBlock"], ret="r: bool", spec="requires self.graph_ok(), in_body(*vp_c0), in_body(candidate_postdom), ensures r == pdom(candidate_postdom, *vp_c0)")],
            at=[(r"let mut locations = [^;]*;", "after", "    proof { assert forall|l: Location| #[trigger] locations@.contains(l) <==> recorded(mode, l) && hir_of(l) == hir_id by { assert(holds_at(h, hir_id, l) <==> recorded(mode, l) && hir_of(l) == hir_id); } }"),
                (r"if locations\.is_empty\(\)", "before", "    proof { assert forall|l: Location| #![trigger locations@.contains(l)] #![trigger wanted(mode, hir_id, depth, l)] locations@.contains(l) <==> wanted(mode, hir_id, depth, l) by { } if forall|l: Location| !#[trigger] wanted(mode, hir_id, depth, l) { assert(locations@ =~= Set::empty()); } }"),
                (r"let basic_blocks =[^;]*;", "after", "    proof { lemma_keys(total_location_map@, basic_blocks@); }"),
                (r"let exit_block =[^;]*;", "after", """    proof { let m = total_location_map@; let v = basic_blocks@; lemma_keys(m, v);
      assert forall|l: Location| #[trigger] lists(m, l) <==> shown(mode, hir_id, depth, l) by { }
      match entry_block { Some(e) => { assert(v.contains(e)); assert(all_dom(e, v)); assert(first_of(m, e)); }, None => { assert forall|e: BasicBlock| !#[trigger] first_of(m, e) by { if first_of(m, e) { assert(v.contains(e)); let i = choose|i: int| 0 <= i < v.len() && v[i] == e; assert(all_dom(v[i], v)); assert(vp_refs(v)[i] == &v[i]); } } } }
      match exit_block { Some(e) => { assert(v.contains(e)); assert(all_pdom(e, v)); assert(last_of(m, e)); }, None => { assert forall|e: BasicBlock| !#[trigger] last_of(m, e) by { if last_of(m, e) { assert(v.contains(e)); let i = choose|i: int| 0 <= i < v.len() && v[i] == e; assert(all_pdom(v[i], v)); } } } } }""")],
            subst=NODES + [(r"let (\w+) = find_exit_from\(&(\w+)\);", r"let vp_s: &[BasicBlock] = &\2; proof { assert(vp_s@ =~= \2@); }\n    let \1 = find_exit_from(vp_s);", "slice named for the proof"), (r"outer\.clone\(\)", "outer.vp_copy()", "clone by contract"), (r"in (\w+:\s*)?(\w+)\.vp_iter\(\)", r"in \1\2.vp_iter().vp_vec()", "loop over what the iterator yields"),
              (r"(?s)self\.hir_to_mir\.vp_iter\(\)\.for_each\(\|\((\w+), (\w+)\)\| \{(.*?)\n        \}\);", r"""let vp_es = self.hir_to_mir.vp_iter().vp_vec(); let ghost v = listing(h.dom()); proof { axiom_listing(h.dom()); assert(forall|i: HirId| !v.take(0).contains(i)); }
        for vp_e in x: vp_es
          invariant self.ok(), h == self.hir_to_mir@, mode == self.gather_mode, v == listing(h.dom()), x.seq() == entries(h),
            forall|l: Location| #[trigger] locations@.contains(l) <==> recorded(mode, l) && (hir_of(l) == hir_id || (parents(hir_of(l)).contains(hir_id) && v.take(x.index@).contains(hir_of(l)))),
        { let (\1, \2) = vp_e; proof { axiom_listing(h.dom()); lemma_grow(v, x.index@); assert(v.contains(v[x.index@])); lemma_at(self, v[x.index@]); }
\3
        }
        proof { assert(v.take(v.len() as int) =~= v); lemma_found(self, v); }""", "`for_each` over the entries written as a loop"),
              (r"(?s)let mut total_location_map: VMap<BasicBlock, Vec<usize>> = (locations\s*\.vp_into\(\))\s*(\.filter\(.*?\}\))\s*\.fold\(VMap::default\(\), \|mut acc, loc\| \{(.*?)\n\s*acc\n\s*\}\);", r"""let ghost ls = locations@; let vp_l = \1; let ghost lv = vp_l.s(); proof { axiom_listing(ls); assert forall|i: int| 0 <= i < lv.len() implies recorded(mode, #[trigger] lv[i]) by { assert(lv.contains(lv[i])); } }
    let vp_f = vp_l\2; let ghost keep = vp_f.kept(); let vp_ls = vp_f.vp_vec(); let ghost ks = vp_ls@; proof { lemma_kept(lv, keep); assert forall|i: int| 0 <= i < ks.len() implies recorded(mode, #[trigger] ks[i]) by { assert(ks.contains(ks[i])); let j = choose|j: int| 0 <= j < lv.len() && keep[j] && #[trigger] lv[j] == ks[i]; } assert(forall|l: Location| !ks.take(0).contains(l)); }
    let mut acc: VMap<BasicBlock, Vec<usize>> = VMap::default();
    for loc in w: vp_ls
      invariant self.ok(), w.seq() == ks, ks.no_duplicates(), forall|i: int| 0 <= i < ks.len() ==> recorded(self.gather_mode, #[trigger] ks[i]),
        forall|l: Location| #[trigger] lists(acc@, l) <==> ks.take(w.index@).contains(l) && !(at(l.block).t.kind is Unreachable), forall|b: BasicBlock| #[trigger] acc@.contains_key(b) ==> acc@[b]@.len() > 0 && acc@[b]@.no_duplicates(),
    { let ghost was = acc@; proof { lemma_grow(ks, w.index@); lemma_fresh(ks, w.index@); assert(loc == ks[w.index@]); }
      \3
      proof { lemma_slot(was, acc@, loc); }
    }
    proof { assert(ks.take(ks.len() as int) =~= ks); assert forall|l: Location| #[trigger] ks.contains(l) <==> wanted(mode, hir_id, depth, l) && !false_block(l.block) by { if wanted(mode, hir_id, depth, l) { assert(ls.contains(l)); assert(lv.contains(l)); let i = choose|i: int| 0 <= i < lv.len() && lv[i] == l; assert(keep[i] == !false_block(l.block)); } if ks.contains(l) { let i = choose|i: int| 0 <= i < lv.len() && keep[i] && #[trigger] lv[i] == l; assert(lv.contains(lv[i])); } } }
    let mut total_location_map = acc;""", "the `fold` written as a loop"),
              (r"for (\w+) in (\w+:\s*)?total_location_map\.values_mut\(\)([^{]*)\{", r"let vp_ks = total_location_map.keys().copied().vp_vec();\n    for vp_k in \2vp_ks\3{ let ghost vp_was = total_location_map@; proof { axiom_listing(m1.dom()); assert(listing(m1.dom()).contains(listing(m1.dom())[z.index@])); assert(vp_k == listing(m1.dom())[z.index@]); } let \1 = vp_value_mut(&mut total_location_map, &vp_k);", "walk over the values by key"),
            ]),
        "check_invariants": dict(start="    proof { lemma_entries(self); }", spec="requires self.ok()", at=[(r"let intersection =[^;]*;", "after", """proof { if *id1 != *id2 { let v = listing(locs1@.intersect(locs2@)); assert forall|x: &Location| !intersection@.contains(x) by { if intersection@.contains(x) { assert(vp_refs(v).contains(x)); let i = choose|i: int| 0 <= i < vp_refs(v).len() && vp_refs(v)[i] == x; assert(v.contains(v[i])); assert(locs1@.contains(v[i])); assert(locs2@.contains(v[i])); } } assert(intersection@ =~= Set::empty()); } }""")], subst=NODES + [(r"(?s)assert!\((.*?)\);", r"vp_assert(\1);", "assert! by contract"), (r"collect::<VSet<_>>", "collect::<VSet<&Location>>", "element type written out"), (r"\bid1 != id2", "*id1 != *id2", "comparison of references"),
              (r"\bid1 == id2", "*id1 == *id2", "comparison of references")],
            closures=[dict(types=["(&HirId, &VSet<Location>)"], ret="r: bool", spec="requires self.ok(), entry_of(self, *vp_c0.0, vp_c0.1@), ensures r", start="proof { lemma_entries(self); } "),
                      dict(types=["(&HirId, &VSet<Location>)"], ret="r: bool", spec="requires self.ok(), entry_of(self, *id1, locs1@), entry_of(self, *vp_c0.0, vp_c0.1@), ensures !r", start="broadcast use axiom_listing; ")]),
    }, header=h)
    V = dict(start="    let ghost h0 = self.hir_to_mir@;", end="    ; proof { lemma_put(h0, self.hir_to_mir@, location); }", subst=NODES, spec="""requires old(self).graph_ok(), in_body(location.block), location.statement_index <= at(location.block).statements@.len(),
  ensures same_but_map(old(self), final(self)), adds(old(self).hir_to_mir@, final(self).hir_to_mir@, location)""")
    u.impl(M, "IRMapper", "MirVisitor", {
        "visit_basic_block_data": dict(spec="""requires old(self).graph_ok(), in_body(block), *data == at(block),
  ensures same_but_map(old(self), final(self)), adds_upto(old(self).hir_to_mir@, final(self).hir_to_mir@, block, if old(self).gather_mode is All || !data.is_cleanup { (at(block).statements@.len() + 1) as int } else { 0 })""", subst=NODES + [(r"BasicBlockData<'tcx>", "BasicBlockData", "names of rustc's types restated")]),
        "visit_statement": dict(V, subst=NODES + [(r"Statement<'tcx>", "Statement", "names of rustc's types restated")]),
        "visit_terminator": V,
    }, header=h, types=False)
    u.raw(WALK)
    u.impl(M, "IRMapper", None, {
        "new": dict(ret="r", spec="requires the(body), n_blocks() <= usize::MAX, ensures r.ok(), r.gather_mode == gather_mode",
            subst=NODES + [(r"dominators::dominators\(", "vp_dominators(", "rustc's dominators by contract"), (r"cfg!\(debug_assertions\)", "vp_debug()", "a debug build"), (r"in (\w+:\s*)?(\w+\.hir_to_mir)\.vp_iter\(\)", r"in \1\2.vp_iter().vp_vec()", "loop over what the iterator yields"),
                (r"for \((\w+), (\w+)\) in", r"for (\1, \2) in", ""),
                (r"(?s)let post_dominators = AllPostDominators::build\(\s*&cleaned_graph,\s*(body\.all_returns\(\))(\.map\(\|.*?\}\)),?\s*\);", r"let vp_r = \1; let ghost rs = vp_r.s();\n    let vp_x = vp_r\2; let ghost es = vp_x.s(); proof { assert(vp_x.seq() == es); assert forall|b: BasicBlock| #[trigger] es.contains(b) <==> exits().contains(b) by { if es.contains(b) { let i = choose|i: int| 0 <= i < es.len() && es[i] == b; assert(rs[i].block == b); } if exits().contains(b) { let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).block == b; assert(es[i] == b); } } assert forall|i: int| 0 <= i < es.len() implies in_body(#[trigger] es[i]) by { assert(es.contains(es[i])); lemma_exits(es[i]); } }\n    let post_dominators = AllPostDominators::build(&cleaned_graph, vp_x);\n    proof { lemma_post(&cleaned_graph, es); assert forall|a: BasicBlock, d: BasicBlock| in_body(a) implies (#[trigger] post_dominators.0.has(a, d) <==> pdom(d, a)) by { assert(a.ix() < n_blocks()); assert(post_dominators.0.has(a, d) <==> d.ix() < n_blocks() && all_exits(&cleaned_graph, es, es.len() as int, a, d)); let t = all_exits(&cleaned_graph, es, es.len() as int, a, d); assert((in_body(d) && t) ==> pdom(d, a)); assert(pdom(d, a) ==> in_body(d)) by { reveal(pdom); } assert(pdom(d, a) ==> t); } }", "iterator named for the proof")],
            start="    proof { lemma_both_ways(); }", closures=[dict(types=["Location"], ret="r: BasicBlock", spec="ensures r == loc.block")],
            loops=[dict(kind="for", inv="      invariant ir_map.ok(), ir_map.gather_mode == gather_mode,")]),
    }, header=h)
    u.raw("} fn main() {}")
    return u


UNITS = [("graph", graph)]
TRUSTED = ["rustc Body, BasicBlock(s), BasicBlockData, Terminator(Kind), Statement(Kind), Location, HirId, Place restated (payloads the code does not look at are numbers); indexing, successors, predecessors, reverse_postorder of the body's blocks by contract",
           "rustc dominators: given a graph whose two directions agree (proved), reachable and dominates are those of its paths (vp/dominance.py)",
           "rustc_utils PostDominators::build for one exit: a node has them if some way leads to the exit, and they are what all such ways go through; all_returns: the blocks that return; location_to_hir_id: the node a location was made for; stmt_at: the statement or terminator there",
           "rustc SparseBitMatrix, ChunkedBitSet, HirMap::parent_id_iter by contract",
           "std hash maps and sets (listed in some order, each element once), iterator adapters, sort_unstable, Option::copied by contract; `for_each` and `fold` over them are written as loops",
           "rustc's MIR visitor: visit_body goes through the blocks in order, super_basic_block_data through the statements and the terminator; restated (WALK) and verified against the overrides' contracts"]
ASSUMPTIONS = ["axiom_edges, axiom_rpo, axiom_back: targets, reverse postorder and predecessors are blocks of the body, and predecessors are the reverse of targets",
               "axiom_mir: what rustc's validator demands of a body: cleanup leads only to cleanup, an unreachable block has no targets, and no block is its own imaginary target",
               "axiom_listing: a set is listed without repetition",
               "a block has fewer than usize::MAX statements, a body at most usize::MAX blocks"]
BOUNDED = "the mapper of about 550 compiled functions in both gather modes (graph, dominance of every pair of blocks, locations of every source node and all around it, let statements) and 4000 random graphs of up to 9 nodes for the post-dominators, against reachability; thorough: 2000 functions, 60000 graphs"


def native_run(ctx):
    return ctx.native_crate("aquascope", {M: [("vp_c08", "native.rs")]}, "vp_c08")
