"""Iterator chains by contract: a chain is the sequence of what it yields.

`.iter()`, `.into_iter()` and `.values()` are read as `.vp_iter()` etc. of the stand-in below; every adapter says what
sequence it yields in terms of the closure's own contract.  Laziness is dropped: closures under contract have no effects.
"""

SUBST = [(r"\.iter\(\)", ".vp_iter()", "iterator chain by contract"), (r"\.into_iter\(\)", ".vp_into()", "iterator chain by contract")]

STUBS = r"""
pub open spec fn vp_pick<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T> decreases s.len() {
  if s.len() == 0 || keep.len() != s.len() { Seq::empty() }
  else { let r = vp_pick(s.drop_last(), keep.drop_last()); if keep.last() { r.push(s.last()) } else { r } }
}
pub open spec fn vp_somes<T>(s: Seq<Option<T>>) -> Seq<T> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else { let r = vp_somes(s.drop_last()); match s.last() { Some(x) => r.push(x), None => r } }
}
pub open spec fn vp_flat<T>(s: Seq<Seq<T>>) -> Seq<T> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else { vp_flat(s.drop_last()) + s.last() }
}
pub proof fn lemma_pick<T>(s: Seq<T>, keep: Seq<bool>)
  requires s.len() == keep.len()
  ensures forall|x: T| #[trigger] vp_pick(s, keep).contains(x) <==> exists|i: int| 0 <= i < s.len() && keep[i] && #[trigger] s[i] == x,
    vp_pick(s, keep).len() <= s.len()
  decreases s.len()
{
  if s.len() > 0 {
    lemma_pick(s.drop_last(), keep.drop_last());
    let r = vp_pick(s.drop_last(), keep.drop_last());
    assert forall|x: T| #[trigger] vp_pick(s, keep).contains(x) <==> exists|i: int| 0 <= i < s.len() && keep[i] && #[trigger] s[i] == x by {
      if keep.last() { assert(vp_pick(s, keep) == r.push(s.last())); assert(r.push(s.last()).contains(x) <==> r.contains(x) || x == s.last()) by {
          if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(r.push(s.last())[i] == x); }
          if x == s.last() { assert(r.push(s.last())[r.len() as int] == x); } } }
      if r.contains(x) { let i = choose|i: int| 0 <= i < s.len() - 1 && keep.drop_last()[i] && #[trigger] s.drop_last()[i] == x; assert(s[i] == x && keep[i]); }
      if exists|i: int| 0 <= i < s.len() && keep[i] && #[trigger] s[i] == x {
        let i = choose|i: int| 0 <= i < s.len() && keep[i] && #[trigger] s[i] == x;
        if i < s.len() - 1 { assert(s.drop_last()[i] == x && keep.drop_last()[i]); } }
    }
  }
}
pub proof fn lemma_somes<T>(s: Seq<Option<T>>)
  ensures forall|x: T| #[trigger] vp_somes(s).contains(x) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Some(x)
  decreases s.len()
{
  if s.len() > 0 {
    lemma_somes(s.drop_last());
    let r = vp_somes(s.drop_last());
    assert forall|x: T| #[trigger] vp_somes(s).contains(x) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Some(x) by {
      if s.last() is Some { let y = s.last()->Some_0; assert(r.push(y).contains(x) <==> r.contains(x) || x == y) by {
          if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(r.push(y)[i] == x); }
          if x == y { assert(r.push(y)[r.len() as int] == x); } } }
      if r.contains(x) { let i = choose|i: int| 0 <= i < s.len() - 1 && #[trigger] s.drop_last()[i] == Some(x); assert(s[i] == Some(x)); }
      if exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Some(x) {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == Some(x);
        if i < s.len() - 1 { assert(s.drop_last()[i] == Some(x)); } }
    }
  }
}
pub proof fn lemma_flat<T>(s: Seq<Seq<T>>)
  ensures forall|x: T| #[trigger] vp_flat(s).contains(x) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).contains(x)
  decreases s.len()
{
  if s.len() > 0 {
    lemma_flat(s.drop_last());
    let r = vp_flat(s.drop_last());
    assert forall|x: T| #[trigger] vp_flat(s).contains(x) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).contains(x) by {
      let t = s.last();
      assert((r + t).contains(x) <==> r.contains(x) || t.contains(x)) by {
        if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert((r + t)[i] == x); }
        if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert((r + t)[r.len() + i] == x); }
      }
      if r.contains(x) { let i = choose|i: int| 0 <= i < s.len() - 1 && (#[trigger] s.drop_last()[i]).contains(x); assert(s[i].contains(x)); }
      if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).contains(x) {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).contains(x);
        if i < s.len() - 1 { assert(s.drop_last()[i].contains(x)); } }
    }
  }
}
pub broadcast proof fn lemma_somes_ext<T>(a: Seq<Option<T>>, b: Seq<Option<T>>)
  requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]
  ensures #[trigger] vp_somes(a) == #[trigger] vp_somes(b)
{ assert(a =~= b); }
pub broadcast proof fn lemma_flat_ext<T>(a: Seq<Seq<T>>, b: Seq<Seq<T>>)
  requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] =~= b[i]
  ensures #[trigger] vp_flat(a) == #[trigger] vp_flat(b)
{ assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(a[i] =~= b[i]); } assert(a =~= b); }
pub broadcast proof fn lemma_pick_ext<T>(s: Seq<T>, a: Seq<bool>, b: Seq<bool>)
  requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]
  ensures #[trigger] vp_pick(s, a) == #[trigger] vp_pick(s, b)
{ assert(a =~= b); }
pub broadcast proof fn lemma_refs<'a, T>(s: Seq<T>, i: int)
  requires 0 <= i < s.len() ensures #![trigger vp_refs(s), s[i]] vp_refs(s)[i] == &s[i] {}
pub broadcast group group_vp_ext { lemma_somes_ext, lemma_flat_ext, lemma_pick_ext, lemma_refs }
/// the places of what is kept
pub open spec fn vp_idx(keep: Seq<bool>) -> Seq<int> decreases keep.len() {
  if keep.len() == 0 { Seq::empty() } else { let r = vp_idx(keep.drop_last()); if keep.last() { r.push(keep.len() - 1) } else { r } }
}
pub proof fn lemma_idx<T>(s: Seq<T>, keep: Seq<bool>)
  requires s.len() == keep.len()
  ensures vp_pick(s, keep).len() == vp_idx(keep).len(),
    forall|k: int| 0 <= k < vp_idx(keep).len() ==> 0 <= #[trigger] vp_idx(keep)[k] < s.len() && keep[vp_idx(keep)[k]] && vp_pick(s, keep)[k] == s[vp_idx(keep)[k]],
    forall|k: int, l: int| 0 <= k < l < vp_idx(keep).len() ==> #[trigger] vp_idx(keep)[k] < #[trigger] vp_idx(keep)[l],
    forall|i: int| 0 <= i < s.len() && #[trigger] keep[i] ==> exists|k: int| 0 <= k < vp_idx(keep).len() && #[trigger] vp_idx(keep)[k] == i,
  decreases s.len()
{
  if s.len() > 0 {
    lemma_idx(s.drop_last(), keep.drop_last());
    let r = vp_idx(keep.drop_last());
    assert forall|i: int| 0 <= i < s.len() && #[trigger] keep[i] implies exists|k: int| 0 <= k < vp_idx(keep).len() && #[trigger] vp_idx(keep)[k] == i by {
      if i < s.len() - 1 { assert(keep.drop_last()[i]); let k = choose|k: int| 0 <= k < r.len() && #[trigger] r[k] == i; assert(vp_idx(keep)[k] == i); }
      else { assert(vp_idx(keep)[r.len() as int] == i); }
    }
  }
}
pub open spec fn vp_part<T, V: IntoIt, F: Fn(T) -> V>(f: F, x: T, s: Seq<V::Item>) -> bool { exists|v: V| #[trigger] call_ensures(f, (x,), v) && s == v.seq() }
pub open spec fn vp_key<T, K, F: Fn(&T) -> K>(f: F, x: T, k: K) -> bool { call_ensures(f, (&x,), k) }
/// the key of y is at most (at least) k, or strictly so
pub open spec fn vp_side<T, K: Ord, F: Fn(&T) -> K>(f: F, k: K, y: T, most: bool, eq: bool) -> bool {
  exists|l: K| #[trigger] call_ensures(f, (&y,), l) && match OrdSpec::cmp_spec(&k, &l) { std::cmp::Ordering::Less => !most, std::cmp::Ordering::Equal => eq, std::cmp::Ordering::Greater => most }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct It<T> { p: core::marker::PhantomData<T> }
pub trait IntoIt: Sized {
  type Item;
  spec fn seq(&self) -> Seq<Self::Item>;
  fn vp_into(self) -> (r: It<Self::Item>) ensures r.s() == self.seq();
}
pub trait FromIt<T>: Sized {
  spec fn holds(&self, s: Seq<T>) -> bool;
}
impl<T> IntoIt for It<T> { type Item = T; open spec fn seq(&self) -> Seq<T> { self.s() } #[verifier::external_body] fn vp_into(self) -> It<T> { unimplemented!() } }
impl<T> IntoIt for Vec<T> { type Item = T; open spec fn seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_into(self) -> It<T> { unimplemented!() } }
impl<'a, T> IntoIt for &'a Vec<T> { type Item = &'a T; open spec fn seq(&self) -> Seq<&'a T> { vp_refs(self@) } #[verifier::external_body] fn vp_into(self) -> It<&'a T> { unimplemented!() } }
impl<T> IntoIt for Option<T> { type Item = T; open spec fn seq(&self) -> Seq<T> { match *self { Some(x) => seq![x], None => Seq::empty() } } #[verifier::external_body] fn vp_into(self) -> It<T> { unimplemented!() } }
impl<T> FromIt<T> for Vec<T> { open spec fn holds(&self, s: Seq<T>) -> bool { self@ == s } }
pub open spec fn vp_refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub trait VpIter { type T; spec fn vs(&self) -> Seq<Self::T>; fn vp_iter(&self) -> (r: It<&Self::T>) ensures r.s() == vp_refs(self.vs()); }
impl<T> VpIter for Vec<T> { type T = T; open spec fn vs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_iter(&self) -> It<&T> { unimplemented!() } }
impl<T> VpIter for [T] { type T = T; open spec fn vs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_iter(&self) -> It<&T> { unimplemented!() } }
impl<T> It<T> {
  pub uninterp spec fn s(&self) -> Seq<T>;
  pub uninterp spec fn kept(&self) -> Seq<bool>;
  pub uninterp spec fn opts(&self) -> Seq<Option<T>>;
  pub uninterp spec fn parts(&self) -> Seq<Seq<T>>;
  #[verifier::external_body]
  pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
    requires forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (&#[trigger] self.s()[i],)),
    ensures r.kept().len() == self.s().len(), r.s() == vp_pick(self.s(), r.kept()),
      forall|i: int| 0 <= i < self.s().len() ==> call_ensures(f, (&#[trigger] self.s()[i],), r.kept()[i]) { unimplemented!() }
  #[verifier::external_body]
  pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
    requires forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (#[trigger] self.s()[i],)),
    ensures r.s().len() == self.s().len(), forall|i: int| 0 <= i < self.s().len() ==> call_ensures(f, (#[trigger] self.s()[i],), r.s()[i]) { unimplemented!() }
  #[verifier::external_body]
  pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: It<U>)
    requires forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (#[trigger] self.s()[i],)),
    ensures r.opts().len() == self.s().len(), r.s() == vp_somes(r.opts()),
      forall|i: int| 0 <= i < self.s().len() ==> call_ensures(f, (#[trigger] self.s()[i],), r.opts()[i]) { unimplemented!() }
  #[verifier::external_body]
  pub fn flat_map<V: IntoIt, F: Fn(T) -> V>(self, f: F) -> (r: It<V::Item>)
    requires forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (#[trigger] self.s()[i],)),
    ensures r.parts().len() == self.s().len(), r.s() == vp_flat(r.parts()),
      forall|i: int| 0 <= i < self.s().len() ==> vp_part::<T, V, F>(f, self.s()[i], #[trigger] r.parts()[i]) { unimplemented!() }
  #[verifier::external_body]
  pub fn chain<V: IntoIt<Item = T>>(self, o: V) -> (r: It<T>) ensures r.s() == self.s() + o.seq() { unimplemented!() }
  #[verifier::external_body]
  pub fn rev(self) -> (r: It<T>) ensures r.s() == self.s().reverse() { unimplemented!() }
  #[verifier::external_body]
  pub fn enumerate(self) -> (r: It<(usize, T)>) ensures r.s().len() == self.s().len(), forall|i: int| 0 <= i < self.s().len() ==> (#[trigger] r.s()[i]) == (i as usize, self.s()[i]) { unimplemented!() }
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<T>)
    ensures old(self).s().len() == 0 ==> r is None && final(self).s() == old(self).s(),
      old(self).s().len() > 0 ==> r == Some(old(self).s()[0]) && final(self).s() == old(self).s().drop_first() { unimplemented!() }
  #[verifier::external_body]
  pub fn last(self) -> (r: Option<T>) ensures r == (if self.s().len() > 0 { Some(self.s().last()) } else { None }) { unimplemented!() }
  #[verifier::external_body]
  pub fn count(self) -> (r: usize) ensures r == self.s().len() { unimplemented!() }
  #[verifier::external_body]
  pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (#[trigger] self.s()[i],)),
    ensures r ==> exists|i: int| 0 <= i < self.s().len() && call_ensures(f, (#[trigger] self.s()[i],), true),
      !r ==> forall|i: int| 0 <= i < self.s().len() ==> call_ensures(f, (#[trigger] self.s()[i],), false) { unimplemented!() }
  #[verifier::external_body]
  pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (#[trigger] self.s()[i],)),
    ensures !r ==> exists|i: int| 0 <= i < self.s().len() && call_ensures(f, (#[trigger] self.s()[i],), false),
      r ==> forall|i: int| 0 <= i < self.s().len() ==> call_ensures(f, (#[trigger] self.s()[i],), true) { unimplemented!() }
  #[verifier::external_body]
  pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
    requires forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (&#[trigger] self.s()[i],)),
    ensures match r {
        Some(x) => exists|i: int| 0 <= i < self.s().len() && #[trigger] self.s()[i] == x && call_ensures(f, (&self.s()[i],), true)
          && forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] self.s()[j],), false),
        None => forall|j: int| 0 <= j < self.s().len() ==> call_ensures(f, (&#[trigger] self.s()[j],), false) } { unimplemented!() }
  #[verifier::external_body]
  pub fn find_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
    requires forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (#[trigger] self.s()[i],)),
    ensures match r {
        Some(x) => exists|i: int| 0 <= i < self.s().len() && call_ensures(f, (#[trigger] self.s()[i],), Some(x))
          && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] self.s()[j],), None::<U>),
        None => forall|j: int| 0 <= j < self.s().len() ==> call_ensures(f, (#[trigger] self.s()[j],), None::<U>) } { unimplemented!() }
  #[verifier::external_body]
  pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (#[trigger] self.s()[i],)),
    ensures match r {
        Some(i) => 0 <= i < self.s().len() && call_ensures(f, (self.s()[i as int],), true) && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] self.s()[j],), false),
        None => forall|j: int| 0 <= j < self.s().len() ==> call_ensures(f, (#[trigger] self.s()[j],), false) } { unimplemented!() }
  /// the first of the least
  #[verifier::external_body]
  pub fn min_by_key<K: Ord, F: Fn(&T) -> K>(self, f: F) -> (r: Option<T>)
    requires forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (&#[trigger] self.s()[i],)),
    ensures r is None <==> self.s().len() == 0,
      r is Some ==> exists|i: int, k: K| 0 <= i < self.s().len() && #[trigger] self.s()[i] == r->Some_0 && #[trigger] vp_key(f, self.s()[i], k)
        && forall|j: int| 0 <= j < self.s().len() ==> vp_side(f, k, #[trigger] self.s()[j], false, j >= i) { unimplemented!() }
  /// the last of the greatest
  #[verifier::external_body]
  pub fn max_by_key<K: Ord, F: Fn(&T) -> K>(self, f: F) -> (r: Option<T>)
    requires forall|i: int| 0 <= i < self.s().len() ==> call_requires(f, (&#[trigger] self.s()[i],)),
    ensures r is None <==> self.s().len() == 0,
      r is Some ==> exists|i: int, k: K| 0 <= i < self.s().len() && #[trigger] self.s()[i] == r->Some_0 && #[trigger] vp_key(f, self.s()[i], k)
        && forall|j: int| 0 <= j < self.s().len() ==> vp_side(f, k, #[trigger] self.s()[j], true, j <= i) { unimplemented!() }
  #[verifier::external_body]
  pub fn collect<C: FromIt<T>>(self) -> (r: C) ensures r.holds(self.s()) { unimplemented!() }
}
impl<'a, T: Copy> It<&'a T> {
  #[verifier::external_body]
  pub fn copied(self) -> (r: It<T>) ensures r.s() == Seq::new(self.s().len(), |i: int| *self.s()[i]) { unimplemented!() }
}
"""
