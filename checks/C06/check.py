"""C06: highlighted source ranges are smoothed into their exact union."""
import stubs

F = "crates/aquascope/src/analysis/mod.rs"

PRE = "verus! {\n"

SPECS = r"""
/// The element holds position p (half-open, as source ranges are).
pub open spec fn holds<T: Bounded>(e: T, p: int) -> bool { e.slo() <= p < e.shi() }

pub open spec fn covers<T: Bounded>(s: Seq<T>, p: int) -> bool {
  exists|i: int| 0 <= i < s.len() && holds(#[trigger] s[i], p)
}

pub open spec fn nonempty<T: Bounded>(s: Seq<T>) -> bool {
  forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).slo() < s[i].shi()
}

pub open spec fn sane<T: Bounded>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).slo() <= s[i].shi() }
/// An empty range lies where nothing else is.
pub open spec fn calm<T: Bounded>(s: Seq<T>) -> bool {
  forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).slo() == s[i].shi() ==> !holds(#[trigger] s[j], s[i].slo())
}

/// Sorted, disjoint, and with a gap between any two consecutive ranges (so none could be merged further).
pub open spec fn separated<T: Bounded>(s: Seq<T>) -> bool {
  forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).shi() < (#[trigger] s[j]).slo()
}

/// Every end of a range shown is an end of a range given.
pub open spec fn bounded<T: Bounded>(e: T, s: Seq<T>) -> bool { (exists|j: int| 0 <= j < s.len() && e.slo() == (#[trigger] s[j]).slo()) && (exists|k: int| 0 <= k < s.len() && e.shi() == (#[trigger] s[k]).shi()) }
pub open spec fn drawn<T: Bounded>(r: Seq<T>, s: Seq<T>) -> bool { forall|i: int| 0 <= i < r.len() ==> bounded(#[trigger] r[i], s) }
pub proof fn lemma_drawn<T: Bounded>(r: Seq<T>, a: Seq<T>, b: Seq<T>)
  requires drawn(r, b), forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i])
  ensures drawn(r, a)
{
  assert forall|i: int| 0 <= i < r.len() implies bounded(#[trigger] r[i], a) by {
    assert(bounded(r[i], b));
    let j = choose|j: int| 0 <= j < b.len() && r[i].slo() == (#[trigger] b[j]).slo(); let k = choose|k: int| 0 <= k < b.len() && r[i].shi() == (#[trigger] b[k]).shi();
    assert(a.contains(b[j]) && a.contains(b[k]));
    let jj = choose|jj: int| 0 <= jj < a.len() && a[jj] == b[j]; let kk = choose|kk: int| 0 <= kk < a.len() && a[kk] == b[k];
    assert(r[i].slo() == a[jj].slo() && r[i].shi() == a[kk].shi());
  }
}

pub open spec fn same_cover<T: Bounded>(s: Seq<T>, e: T, t: Seq<T>) -> bool {
  forall|p: int| #![trigger covers(s, p)] #![trigger covers(t, p)] #![trigger holds(e, p)] (covers(s, p) || holds(e, p)) <==> covers(t, p)
}

pub broadcast proof fn lemma_push_covers<T: Bounded>(s: Seq<T>, e: T, p: int)
  ensures #[trigger] covers(s.push(e), p) <==> covers(s, p) || holds(e, p),
{
  if covers(s, p) {
    let i = choose|i: int| 0 <= i < s.len() && holds(#[trigger] s[i], p);
    assert(holds(s.push(e)[i], p));
  }
  if holds(e, p) { assert(holds(s.push(e)[s.len() as int], p)); }
}

pub proof fn lemma_perm_covers<T: Bounded>(a: Seq<T>, b: Seq<T>)
  requires a.to_multiset() == b.to_multiset(),
  ensures
    a.len() == b.len(),
    forall|p: int| covers(a, p) <==> covers(b, p),
    nonempty(a) ==> nonempty(b), sane(a) ==> sane(b), calm(a) ==> calm(b), forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i]),
{
  broadcast use vstd::seq_lib::group_to_multiset_ensures;
  assert(a.len() == a.to_multiset().len());
  assert(b.len() == b.to_multiset().len());
  assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) by {
    assert(b.contains(b[i]));
    assert(a.to_multiset().count(b[i]) > 0);
  }
  if calm(a) {
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && (#[trigger] b[i]).slo() == b[i].shi() implies !holds(#[trigger] b[j], b[i].slo()) by {
      assert(a.contains(b[i]) && a.contains(b[j]));
      let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i]; let l = choose|l: int| 0 <= l < a.len() && a[l] == b[j];
      assert(!holds(a[l], a[k].slo()));
    }
  }
  assert forall|p: int| covers(a, p) implies covers(b, p) by {
    let i = choose|i: int| 0 <= i < a.len() && holds(#[trigger] a[i], p);
    assert(a.contains(a[i]));
    assert(b.to_multiset().count(a[i]) > 0);
    assert(b.contains(a[i]));
    let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
    assert(holds(b[j], p));
  }
  assert forall|p: int| covers(b, p) implies covers(a, p) by {
    let i = choose|i: int| 0 <= i < b.len() && holds(#[trigger] b[i], p);
    assert(b.contains(b[i]));
    assert(a.to_multiset().count(b[i]) > 0);
    assert(a.contains(b[i]));
    let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i];
    assert(holds(a[j], p));
  }
  if nonempty(a) {
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).slo() < b[i].shi() by {
      assert(b.contains(b[i]));
      assert(a.to_multiset().count(b[i]) > 0);
      assert(a.contains(b[i]));
    }
  }
}
"""

# Ghost members of the trait: what each method means, as a law every impl must prove.
TRAIT_GHOST = r"""
  spec fn slo(&self) -> int;
  spec fn shi(&self) -> int;
  spec fn key(b: Self::Bound) -> int;
  proof fn bound_law()
    ensures
      <Self::Bound as PartialEqSpec>::obeys_eq_spec(),
      forall|a: Self::Bound, b: Self::Bound| #[trigger] PartialEqSpec::eq_spec(&a, &b) <==> Self::key(a) == Self::key(b),
      forall|a: Self::Bound, b: Self::Bound|
        #[trigger] OrdSpec::cmp_spec(&a, &b) !is Greater <==> Self::key(a) <= Self::key(b);
"""

LO = "ensures Self::key(r) == self.slo()"
HI = "ensures Self::key(r) == self.shi()"
TO = """requires self.slo() <= self.shi(), other.slo() <= other.shi()
    ensures r.slo() == if self.slo() <= other.slo() { self.slo() } else { other.slo() },
            r.shi() == if self.shi() >= other.shi() { self.shi() } else { other.shi() }"""
OV = """ensures
      // every genuine overlap is reported, and nothing that leaves a gap is
      (self.slo() < other.shi() && other.slo() < self.shi()) ==> r,
      r ==> self.slo() <= other.shi() && other.slo() <= self.shi()"""

# rustc's Span and rustc_utils' CharRange/CharPos are other crates' types: Span is opaque with assumed contracts on its
# four methods; CharRange is restated field for field, CharPos (a newtype with derived order) as its integer.
STUBS = r"""
pub mod rustc_span { pub type BytePos = u32; }
// CharPos { line, column } derives its order: lexicographic.  The derives are assumed to mean that.
""" + stubs.ordered("CharPos", "#[derive(Copy, Clone)] pub struct CharPos { pub line: usize, pub column: usize }",
    "self.line * 0x1_0000_0000_0000_0000 + self.column") + r"""
#[derive(Copy, Clone)]
pub struct FilenameIndex(pub u32);
#[derive(Copy, Clone)]
pub struct CharRange { pub start: CharPos, pub end: CharPos, pub filename: FilenameIndex }

#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Span { x: u64 }
impl Span {
  pub uninterp spec fn a(&self) -> int;
  pub uninterp spec fn b(&self) -> int;
  #[verifier::external_body]
  pub fn lo(self) -> (r: u32) ensures r == self.a() { unimplemented!() }
  #[verifier::external_body]
  pub fn hi(self) -> (r: u32) ensures r == self.b() { unimplemented!() }
  #[verifier::external_body]
  pub fn overlaps(self, other: Span) -> (r: bool) ensures r == (self.a() < other.b() && other.a() < self.b()) { unimplemented!() }
  /// which expansion the range comes from
  pub uninterp spec fn ctx(&self) -> int;
  /// encloses both only if both come from the same expansion
  #[verifier::external_body]
  pub fn to(self, other: Span) -> (r: Span)
    ensures self.ctx() == other.ctx() ==> r.ctx() == self.ctx() && r.a() == (if self.a() <= other.a() { self.a() } else { other.a() })
            && r.b() == (if self.b() >= other.b() { self.b() } else { other.b() }) { unimplemented!() }
  #[verifier::external_body]
  pub fn with_lo(self, lo: u32) -> (r: Span) ensures lo <= self.b() ==> r.a() == lo && r.b() == self.b() && r.ctx() == self.ctx() { unimplemented!() }
  #[verifier::external_body]
  pub fn with_hi(self, hi: u32) -> (r: Span) ensures self.a() <= hi ==> r.a() == self.a() && r.b() == hi && r.ctx() == self.ctx() { unimplemented!() }
}
"""

SMOOTH_INV = r"""
    invariant
      forall|i: int, j: int| 0 <= i < j < elements@.len() ==> (#[trigger] elements@[i]).slo() <= (#[trigger] elements@[j]).slo(),
      sane(elements@), calm(inp) ==> calm(elements@), nonempty(inp) ==> nonempty(elements@),
      0 <= it.index@ <= elements@.len() - 1,
      it.seq().len() == elements@.len() - 1,
      forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == elements@[i + 1],
      acc.slo() <= acc.shi(), nonempty(inp) ==> acc.slo() < acc.shi(),
      bounded(acc, elements@), drawn(smoothed_elements@, elements@), forall|i: int| 0 <= i < elements@.len() ==> inp.contains(#[trigger] elements@[i]),
      exists|i: int| 0 <= i <= it.index@ && (#[trigger] elements@[i]).slo() == acc.slo(),
      calm(inp) ==> separated::<T>(smoothed_elements@),
      sane::<T>(smoothed_elements@), nonempty(inp) ==> nonempty::<T>(smoothed_elements@),
      calm(inp) ==> forall|i: int| 0 <= i < smoothed_elements@.len() ==> (#[trigger] smoothed_elements@[i]).shi() < acc.slo(),
      same_cover(smoothed_elements@, acc, elements@.subrange(0, it.index@ + 1)),
"""


def build(ctx):
    u = ctx.unit("smooth")
    u.raw(PRE + SPECS + STUBS)
    it = u.crate.find(F, "trait", "Bounded")
    u.item(F, "trait", "Bounded", inject=TRAIT_GHOST, subst=[
        (r"pub trait Bounded", "pub trait Bounded: Sized + Copy", "supertraits added (every use bounds T by Copy)"),
        (r"fn lo\(&self\) -> Self::Bound;", "fn lo(&self) -> (r: Self::Bound) " + LO + ";", "contract"),
        (r"fn hi\(&self\) -> Self::Bound;", "fn hi(&self) -> (r: Self::Bound) " + HI + ";", "contract"),
        (r"fn to\(&self, other: Self\) -> Self;", "fn to(&self, other: Self) -> (r: Self) " + TO + ";", "contract"),
        (r"fn overlaps\(&self, other: Self\) -> bool;", "fn overlaps(&self, other: Self) -> (r: bool) " + OV + ";", "contract"),
    ])
    u.impl(F, "Span", "Bounded", {"lo": {}, "hi": {}, "overlaps": {}, "to": {}}, inject=r"""
  open spec fn slo(&self) -> int { self.a() }
  open spec fn shi(&self) -> int { self.b() }
  open spec fn key(b: u32) -> int { b as int }
  proof fn bound_law() {}
""")
    u.impl(F, "CharRange", "Bounded", {"lo": {}, "hi": {}, "overlaps": {}, "to": {}}, inject=r"""
  open spec fn slo(&self) -> int { self.start.k() }
  open spec fn shi(&self) -> int { self.end.k() }
  open spec fn key(b: CharPos) -> int { b.k() }
  proof fn bound_law() {}
""")
    u.fn(F, "smooth_elements", ret="r", spec="""
  requires sane(elements@),
  ensures sane(r@), calm(elements@) ==> separated(r@), nonempty(elements@) ==> nonempty(r@), forall|p: int| covers(r@, p) <==> covers(elements@, p), drawn(r@, elements@)
""", closures=[dict(types=["&T"], ret="r: T::Bound", spec="ensures T::key(r) == a.slo()")],
        start="broadcast use lemma_push_covers; let ghost inp = elements@;",
        loops=[dict(kind="for", iter="it", inv=SMOOTH_INV, before=r"""
  proof {
    lemma_perm_covers(inp, elements@);
    T::bound_law();
    assert forall|i: int, j: int| 0 <= i < j < elements@.len() implies
      (#[trigger] elements@[i]).slo() <= (#[trigger] elements@[j]).slo() by {}
    assert(elements@.subrange(0, 1) =~= Seq::empty().push(acc)); assert(elements@[0] == acc);
    assert(forall|p: int| !covers(Seq::<T>::empty(), p));
  }
""", start="broadcast use lemma_push_covers; let ghost acc0 = acc; let ghost sm0 = smoothed_elements@;" + r"""
    proof {
      let k = it.index@; let a = elements@.subrange(0, k + 1); let e = elements@[k + 1];
      if calm(inp) && acc.slo() == e.slo() && e.slo() == e.shi() && holds(acc, e.slo()) {
        assert(covers(a, e.slo()));
        let j = choose|j: int| 0 <= j < a.len() && holds(#[trigger] a[j], e.slo()); assert(holds(elements@[j], e.slo()) && elements@[k + 1] == e);
      }
    }""", end=r"""
    proof {
      T::bound_law();
      let k = it.index@;
      let a = elements@.subrange(0, k + 1);
      let b = elements@.subrange(0, k + 2);
      assert(b =~= a.push(*elem));
      assert(forall|p: int| covers(b, p) <==> covers(a, p) || holds(*elem, p));
      assert forall|p: int| (covers(smoothed_elements@, p) || holds(acc, p)) <==> covers(b, p) by {
        assert((covers(sm0, p) || holds(acc0, p)) <==> covers(a, p));
      }
    }
""", after="proof { assert(elements@.subrange(0, elements@.len() as int) =~= elements@); lemma_drawn(smoothed_elements@.push(acc), inp, elements@); }")])
    u.helpers()
    u.raw("} fn main() {}")
    return u


UNITS = [("smooth", build)]

TRUSTED = ["rustc_span::Span lo/hi/overlaps/with_lo/with_hi/to: assumed contracts (half-open byte interval, strict overlap; `to` is the hull only of ranges from one expansion)",
           "rustc_utils CharPos: derived Eq/Ord assumed lexicographic on (line, column); CharRange restated field for field",
           "slice::sort_by_key: assumed to permute and to order by the key the closure returns",
           "std::cmp::min/max: assumed to follow Ord::cmp"]
ASSUMPTIONS = []
BOUNDED = "smooth_elements over Span and CharRange: all lists of up to 3 ranges within 8 positions, random lists of up to 10, byte spans also mixed from two expansions"


def native_run(ctx):
    return ctx.native_crate("aquascope", {F: [("vp_c06", "native.rs")]}, "vp_c06")
