"""C07: how data may flow from one region to another."""

import importlib.util
import os

_s = importlib.util.spec_from_file_location("c07_sources", os.path.join(os.path.dirname(os.path.abspath(__file__)), "sources.py"))
sources = importlib.util.module_from_spec(_s)
_s.loader.exec_module(sources)

F = "crates/aquascope/src/analysis/permissions/flow.rs"

STUBS = r"""
verus! {
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Origin { pub x: u32 }
#[derive(Copy, Clone, PartialEq, Eq)]
pub struct SccIdx { pub x: u32 }
impl PartialEqSpecImpl for SccIdx {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &SccIdx) -> bool { *self == *o }
}
/// rustc's strongly connected components: which component a node is in.
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
#[verifier::reject_recursive_types(S)]
pub struct Sccs<N, S> { p: core::marker::PhantomData<(N, S)> }
impl<N, S> Sccs<N, S> {
  pub uninterp spec fn of(&self, n: N) -> S;
  #[verifier::external_body]
  pub fn scc(&self, n: N) -> (r: S) ensures r == self.of(n) { unimplemented!() }
}
/// rustc's transitive relation: `rel(a, b)` iff b can be reached from a in one or more steps of what was added.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct TransitiveRelation<T> { p: core::marker::PhantomData<T> }
impl<T> TransitiveRelation<T> {
  pub uninterp spec fn rel(&self, a: T, b: T) -> bool;
  #[verifier::external_body]
  pub fn reachable_from(&self, a: T) -> (r: Vec<T>) ensures forall|i: int| 0 <= i < r@.len() ==> self.rel(a, #[trigger] r@[i]), r@.len() > 0 ==> self.rel(a, r@[0]),
      forall|b: T| #[trigger] self.rel(a, b) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == b { unimplemented!() }
  #[verifier::external_body]
  pub fn contains(&self, a: T, b: T) -> (r: bool) ensures r == self.rel(a, b) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct TransitiveRelationBuilder<T> { p: core::marker::PhantomData<T> }
impl<T> TransitiveRelationBuilder<T> {
  pub uninterp spec fn edge(&self, a: T, b: T) -> bool;
  #[verifier::external_body]
  pub fn default() -> (r: Self) ensures forall|a: T, b: T| !#[trigger] r.edge(a, b) { unimplemented!() }
  #[verifier::external_body]
  pub fn add(&mut self, a: T, b: T)
    ensures forall|x: T, y: T| #[trigger] final(self).edge(x, y) <==> old(self).edge(x, y) || (x == a && y == b) { unimplemented!() }
  /// closed under composition when the edges are
  #[verifier::external_body]
  pub fn freeze(self) -> (r: TransitiveRelation<T>)
    ensures closed(self) ==> forall|a: T, b: T| #[trigger] r.rel(a, b) <==> self.edge(a, b) { unimplemented!() }
}
pub open spec fn closed<T>(b: TransitiveRelationBuilder<T>) -> bool {
  forall|x: T, y: T, z: T| #[trigger] b.edge(x, y) && #[trigger] b.edge(y, z) ==> b.edge(x, z)
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ChunkedBitSet<T> { p: core::marker::PhantomData<T> }
impl<T> ChunkedBitSet<T> {
  pub uninterp spec fn has(&self, a: T) -> bool;
  #[verifier::external_body]
  pub fn contains(&self, a: T) -> (r: bool) ensures r == self.has(a) { unimplemented!() }
}
pub trait Idx: Copy {}
pub trait Successors { type Node; spec fn step(&self, a: Self::Node, b: Self::Node) -> bool; }
/// b can be reached from a in zero or more steps
pub open spec fn path<G: Successors>(g: &G, p: Seq<G::Node>, a: G::Node, b: G::Node) -> bool {
  p.len() > 0 && p[0] == a && p.last() == b && forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] g.step(p[i], p[i + 1])
}
pub open spec fn reach<G: Successors>(g: &G, a: G::Node, b: G::Node) -> bool { exists|p: Seq<G::Node>| path(g, p, a, b) }
pub proof fn lemma_reach_trans<G: Successors>(g: &G, a: G::Node, b: G::Node, c: G::Node)
  requires reach(g, a, b), reach(g, b, c) ensures reach(g, a, c)
{
  let p = choose|p: Seq<G::Node>| path(g, p, a, b);
  let q = choose|q: Seq<G::Node>| path(g, q, b, c);
  let r = p + q.drop_first();
  assert forall|i: int| 0 <= i < r.len() - 1 implies #[trigger] g.step(r[i], r[i + 1]) by {
    if i < p.len() - 1 { assert(g.step(p[i], p[i + 1])); }
    else { let j = i - (p.len() - 1); assert(g.step(q[j], q[j + 1])); assert(r[i] == q[j]); assert(r[i + 1] == q[j + 1]); }
  }
  assert(r.last() == c);
  assert(path(g, r, a, c));
}
/// rustc's depth-first search: every node reachable from the start, the start among them.
#[verifier::external_body]
pub fn depth_first_search<G: Successors>(g: &G, a: G::Node) -> (r: Vec<G::Node>)
  ensures forall|b: G::Node| r@.contains(b) <==> #[trigger] reach(g, a, b) { unimplemented!() }
"""

SPECS = r"""
impl RegionFlows {
  pub open spec fn at(&self, o: Origin) -> SccIdx { self.constraint_graph.of(o) }
  /// Some local borrow flows into a region that a caller names.
  pub open spec fn local_outlives(&self, from: Origin, to: Origin) -> bool {
    (exists|l: SccIdx| self.contains_local.rel(self.at(from), l)) && self.abstract_sources.has(self.at(to))
  }
  /// Some named region in `from` is not declared to outlive some named region in `to`.
  pub open spec fn missing(&self, from: Origin, to: Origin) -> bool {
    exists|f: SccIdx, t: SccIdx| #[trigger] self.contains_abstract.rel(self.at(from), f) && #[trigger] self.contains_abstract.rel(self.at(to), t) && !self.specified_flows.rel(t, f)
  }
  /// `from` carries a borrow that dies before its last use.
  pub open spec fn dangles(&self, from: Origin) -> bool { exists|l: SccIdx| #[trigger] self.contains_local.rel(self.at(from), l) && self.dangling_local_sources.has(l) }
  pub open spec fn kind(&self, from: Origin, to: Origin) -> FlowEdgeKind {
    if self.at(from) == self.at(to) { FlowEdgeKind::Ok }
    else if self.local_outlives(from, to) { FlowEdgeKind::LocalOutlivesUniversal }
    else if self.missing(from, to) { FlowEdgeKind::MissingUniversalConstraint }
    else if self.dangles(from) { FlowEdgeKind::LocalInvalidatedAtExit }
    else { FlowEdgeKind::Ok }
  }
}
"""


def build(ctx):
    u = ctx.unit("kinds")
    u.raw(STUBS)
    u.item(F, "enum", "FlowEdgeKind")
    u.item(F, "struct", "RegionFlows")
    u.raw(SPECS)
    u.impl(F, "FlowEdgeKind", None, {"is_valid_flow": dict(ret="r", spec="ensures r == (self is Ok)")})
    u.impl(F, "RegionFlows", None, {
        "scc": dict(ret="r", spec="ensures r == self.at(origin)"),
        "is_abstract_member": dict(ret="r", spec="ensures r == self.abstract_sources.has(self.at(origin))"),
        "has_abstract_member": dict(ret="r", spec="ensures r == exists|a: SccIdx| self.contains_abstract.rel(self.at(origin), a)"),
        "has_local_member": dict(ret="r", spec="ensures r == exists|l: SccIdx| self.contains_local.rel(self.at(origin), l)"),
        "flow_kind": dict(ret="r", spec="ensures r == self.kind(from, to)", closures=[
            dict(types=["SccIdx"], ret="b: bool", spec="ensures b == forall|t: SccIdx| #[trigger] self.contains_abstract.rel(self.at(to), t) ==> self.specified_flows.rel(t, from)"),
            dict(types=["SccIdx"], ret="b: bool", spec="ensures b == self.specified_flows.rel(to, from)"),
            dict(types=["SccIdx"], ret="b: bool", spec="ensures b == self.dangling_local_sources.has(local)")]),
    })
    u.helpers()
    u.raw("} fn main() {}")
    return u


FLOW = r"""
/// Which sources end up where: b is a source that reaches a.
pub open spec fn flows<G: Successors>(g: &G, s: Seq<G::Node>, n: int, a: G::Node, b: G::Node) -> bool {
  exists|i: int| 0 <= i < n && #[trigger] s[i] == b && reach(g, b, a)
}
"""


def build_flow(ctx):
    u = ctx.unit("flow")
    u.raw(STUBS + FLOW)
    u.fn(F, "flow_from_sources", ret="r",
         subst=[(r"impl Iterator<Item = T>", "Vec<T>", "iterator parameter read as the vector of its elements")],
         tail="""  proof {
    assert forall|x: T, y: T, z: T| #[trigger] tcb.edge(x, y) && #[trigger] tcb.edge(y, z) implies tcb.edge(x, z) by {
      let i = choose|i: int| 0 <= i < sources@.len() && #[trigger] sources@[i] == z && reach(&graph, z, y);
      lemma_reach_trans(&graph, z, y, x);
      assert(flows(&graph, sources@, sources@.len() as int, x, z));
    }
  }""",
         spec="""ensures forall|a: T, b: T| #[trigger] r.rel(a, b) <==> flows(&graph, sources@, sources@.len() as int, a, b)""",
         loops=[dict(kind="for", iter="it", inv="""    invariant
      it.seq() == sources@,
      forall|a: T, b: T| #[trigger] tcb.edge(a, b) <==> flows(&graph, sources@, it.index@, a, b),""", start="let ghost k = it.index@; assert(sources@[k] == s);"),
                dict(kind="for", iter="jt", inv="""      invariant
        forall|b: T| jt.seq().contains(b) <==> #[trigger] reach(&graph, s, b),
        it.seq() == sources@, 0 <= k < sources@.len(), sources@[k] == s,
        forall|a: T, b: T| #[trigger] tcb.edge(a, b) <==> flows(&graph, sources@, k, a, b) || (b == s && exists|j: int| 0 <= j < jt.index@ && jt.seq()[j] == a),""",
                after="")])
    u.raw("} fn main() {}")
    return u


UNITS = [("kinds", build), ("flow", build_flow), ("sources", lambda ctx: sources.build(ctx, SPECS))]
TRUSTED = ["rustc's Sccs, VecGraph, TransitiveRelation, ChunkedBitSet and depth_first_search: their documented meaning as contracts",
           "rustc's places_conflict, Place::is_indirect, LocalDecl::is_ref_to_thread_local, rustc_utils' regions_in_return, polonius's facts and errors: values the contracts speak of",
           "iterator adapters (filter, filter_map, map, chain, flat_map, unique, minmax_by_key, copied) and HashMap/HashSet: contracts of vp/iters.py and checks/C07/sources.py"]
ASSUMPTIONS = ["the region of every borrow and every region of the return type has a number no greater than some region's in a constraint (compute_flows indexes the graph by it); checked on the compiled bodies"]
BOUNDED = "the flow facts of compiled bodies against reachability recomputed from the borrow checker's subset facts"


def native_run(ctx):
    return ctx.native_crate("aquascope", {F: [("vp_c07", "native.rs")]}, "vp_c07")
