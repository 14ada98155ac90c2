"""Dominance in a control-flow graph, defined over its paths.  `succ` (the edges), `entry` and `ends` (the exits) are the graph's;
everything else is a definition, and that strict dominance leads down a tree is proved, not assumed."""

GRAPH = r"""
pub open spec fn walk(p: Seq<BasicBlock>) -> bool { p.len() > 0 && forall|i: int| 0 <= i < p.len() - 1 ==> succ(#[trigger] p[i]).contains(p[i + 1]) }
/// a way through the graph
pub open spec fn path(p: Seq<BasicBlock>, a: BasicBlock, b: BasicBlock) -> bool { walk(p) && p[0] == a && p.last() == b }
#[verifier::opaque] pub open spec fn reaches(a: BasicBlock, b: BasicBlock) -> bool { exists|p: Seq<BasicBlock>| #[trigger] path(p, a, b) }
pub open spec fn between(d: BasicBlock, a: BasicBlock, b: BasicBlock) -> bool { forall|p: Seq<BasicBlock>| #[trigger] path(p, a, b) ==> p.contains(d) }
/// some way leads to b, and every way to b leads through a
#[verifier::opaque] pub open spec fn dom(a: BasicBlock, b: BasicBlock) -> bool { reaches(entry(), b) && between(a, entry(), b) }
/// for every exit: b leads there, and every way from b there leads through a
#[verifier::opaque] pub open spec fn pdom(a: BasicBlock, b: BasicBlock) -> bool { a.x < n_blocks() && b.x < n_blocks() && forall|e: BasicBlock| #[trigger] exits().contains(e) ==> reaches(b, e) && between(a, b, e) }
#[verifier::opaque] pub open spec fn ldom(a: Location, b: Location) -> bool { if a.block == b.block { a.statement_index <= b.statement_index } else { dom(a.block, b.block) } }
#[verifier::opaque] pub open spec fn lpdom(a: Location, b: Location) -> bool { if a.block == b.block { a.statement_index >= b.statement_index } else { pdom(a.block, b.block) } }
pub proof fn lemma_cut(p: Seq<BasicBlock>, a: BasicBlock, b: BasicBlock, i: int)
  requires path(p, a, b), 0 <= i < p.len(), ensures path(p.take(i + 1), a, p[i]), path(p.skip(i), p[i], b)
{ let q = p.take(i + 1); assert forall|j: int| 0 <= j < q.len() - 1 implies succ(#[trigger] q[j]).contains(q[j + 1]) by { assert(q[j] == p[j] && q[j + 1] == p[j + 1]); }
  let r = p.skip(i); assert forall|j: int| 0 <= j < r.len() - 1 implies succ(#[trigger] r[j]).contains(r[j + 1]) by { assert(r[j] == p[i + j] && r[j + 1] == p[i + j + 1]); } }
pub proof fn lemma_dom_trans(a: BasicBlock, b: BasicBlock, c: BasicBlock) requires dom(a, b), dom(b, c) ensures dom(a, c)
{
  reveal(dom);
  assert forall|p: Seq<BasicBlock>| #[trigger] path(p, entry(), c) implies p.contains(a) by {
    let i = choose|i: int| 0 <= i < p.len() && p[i] == b; lemma_cut(p, entry(), c, i); let q = p.take(i + 1);
    let j = choose|j: int| 0 <= j < q.len() && q[j] == a; assert(p[j] == a); }
}
/// blocks that dominate each other are the same: of two different ones, the one reached first is reached without the other
pub proof fn lemma_dom_two(a: BasicBlock, b: BasicBlock, p: Seq<BasicBlock>) requires dom(a, b), dom(b, a), a != b, path(p, entry(), b) || path(p, entry(), a) ensures false decreases p.len()
{
  reveal(dom);
  let (x, y) = if path(p, entry(), b) { (a, b) } else { (b, a) };
  let i = choose|i: int| 0 <= i < p.len() && p[i] == x; lemma_cut(p, entry(), y, i); assert(i < p.len() - 1);
  lemma_dom_two(a, b, p.take(i + 1));
}
pub proof fn lemma_dom_anti(a: BasicBlock, b: BasicBlock) requires dom(a, b), dom(b, a) ensures a == b
{ reveal(dom); reveal(reaches); let p = choose|p: Seq<BasicBlock>| #[trigger] path(p, entry(), b); if a != b { lemma_dom_two(a, b, p); } }
pub proof fn lemma_dom_self(b: BasicBlock) requires reaches(entry(), b) ensures dom(b, b)
{ reveal(dom); assert forall|p: Seq<BasicBlock>| #[trigger] path(p, entry(), b) implies p.contains(b) by { assert(p[p.len() - 1] == b); } }
/// the blocks that dominate a block: some of those on a way to it
pub open spec fn above(b: BasicBlock) -> Set<BasicBlock> { (choose|p: Seq<BasicBlock>| #[trigger] path(p, entry(), b)).to_set().filter(|a: BasicBlock| dom(a, b)) }
pub proof fn lemma_above(b: BasicBlock) requires reaches(entry(), b) ensures forall|a: BasicBlock| #[trigger] above(b).contains(a) <==> dom(a, b)
{
  reveal(reaches); let p = choose|p: Seq<BasicBlock>| #[trigger] path(p, entry(), b); reveal(dom);
  assert forall|a: BasicBlock| #[trigger] above(b).contains(a) <==> dom(a, b) by { assert(p.to_set().contains(a) <==> p.contains(a)); if dom(a, b) { assert(p.contains(a)); } }
}
/// how deep a location lies in the tree of dominators
#[verifier::opaque] pub open spec fn depth(l: Location) -> nat { (if reaches(entry(), l.block) { above(l.block).len() } else { 0 }) * 0x1_0000_0000_0000_0000 + l.statement_index as nat }
pub proof fn axiom_depth(a: Location, b: Location) requires ldom(a, b) ensures depth(a) <= depth(b), a != b ==> depth(a) < depth(b)
{
  reveal(depth); reveal(ldom);
  if a.block != b.block {
    let (x, y) = (a.block, b.block); reveal(dom); lemma_above(y);
    if reaches(entry(), x) {
      lemma_above(x); lemma_dom_self(y); lemma_dom_self(x);
      assert forall|c: BasicBlock| #[trigger] above(x).contains(c) implies above(y).contains(c) by { lemma_dom_trans(c, x, y); }
      if above(x).contains(y) { lemma_dom_anti(x, y); }
      assert(above(x).insert(y).subset_of(above(y)));
      vstd::set_lib::lemma_len_subset(above(x).insert(y), above(y));
      assert(above(x).len() + 1 <= above(y).len());
    } else { lemma_dom_self(y); assert(above(y).contains(y)); assert(above(y).len() > 0) by { if above(y).len() == 0 { assert(above(y) =~= Set::empty()); } } }
    assert(a.statement_index < 0x1_0000_0000_0000_0000);
    let (m, n) = (if reaches(entry(), x) { above(x).len() } else { 0 }, above(y).len());
    assert(m * 0x1_0000_0000_0000_0000 + 0x1_0000_0000_0000_0000 <= n * 0x1_0000_0000_0000_0000) by (nonlinear_arith) requires m + 1 <= n;
  }
}
"""
