"""Assumed contracts on std functions vstd does not specify.  A unit gets one only when its text uses the function."""
import re

KEY_LE = """pub open spec fn vp_key_le<T, K: Ord, F: FnMut(&T) -> K>(f: F, x: T, y: T) -> bool {
  exists|a: K, b: K| #![trigger call_ensures(f, (&x,), a), call_ensures(f, (&y,), b)]
    call_ensures(f, (&x,), a) && call_ensures(f, (&y,), b) && OrdSpec::cmp_spec(&a, &b) !is Greater
}
"""

SPECS = [
    ("Option::is_some_and", r"\.is_some_and\(", """#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, F: FnOnce(T) -> bool + std::marker::Destruct> [ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
  requires o is Some ==> call_requires(f, (o->Some_0,)),
  ensures match o { Some(x) => call_ensures(f, (x,), r), None => !r };"""),
    ("Option::is_none_or", r"\.is_none_or\(", """#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, F: FnOnce(T) -> bool + std::marker::Destruct> [ Option::<T>::is_none_or ](o: Option<T>, f: F) -> (r: bool)
  requires o is Some ==> call_requires(f, (o->Some_0,)),
  ensures match o { Some(x) => call_ensures(f, (x,), r), None => r };"""),
    ("bool::then_some", r"\.then_some\(", """#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: std::marker::Destruct> [ bool::then_some ](b: bool, x: T) -> (r: Option<T>)
  ensures r == (if b { Some(x) } else { None });"""),
    ("Option::or_else", r"\.or_else\(", """#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: std::marker::Destruct, F: FnOnce() -> Option<T> + std::marker::Destruct> [ Option::<T>::or_else ](o: Option<T>, f: F) -> (r: Option<T>)
  requires o is None ==> call_requires(f, ()),
  ensures o is Some ==> r == o, o is None ==> call_ensures(f, (), r);"""),
    ("Option::map_or", r"\.map_or\(", """#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, U: std::marker::Destruct, F: FnOnce(T) -> U + std::marker::Destruct> [ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
  requires o is Some ==> call_requires(f, (o->Some_0,)),
  ensures o is None ==> r == d, o is Some ==> call_ensures(f, (o->Some_0,), r);"""),
    ("Option::map_or_else", r"\.map_or_else\(", """#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, U, D: FnOnce() -> U + std::marker::Destruct, F: FnOnce(T) -> U + std::marker::Destruct> [ Option::<T>::map_or_else ](o: Option<T>, d: D, f: F) -> (r: U)
  requires o is None ==> call_requires(d, ()), o is Some ==> call_requires(f, (o->Some_0,)),
  ensures o is None ==> call_ensures(d, (), r), o is Some ==> call_ensures(f, (o->Some_0,), r);"""),
    ("slice::contains", r"\.contains\(", """pub assume_specification<T: PartialEq> [ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
  ensures T::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x);"""),
    ("slice::Iter::find_map", r"\.find_map\(", """pub assume_specification<'a, T, B, F: FnMut(&'a T) -> Option<B>> [ <std::slice::Iter<'a, T> as Iterator>::find_map ](it: &mut std::slice::Iter<'a, T>, f: F) -> (r: Option<B>)
  where std::slice::Iter<'a, T>: Sized
  requires
    forall|i: int| 0 <= i < vp_rem(*old(it)).len() ==> call_requires(f, (#[trigger] vp_rem(*old(it))[i],)),
  ensures
    match r {
      Some(b) => exists|i: int| 0 <= i < vp_rem(*old(it)).len() && call_ensures(f, (#[trigger] vp_rem(*old(it))[i],), Some(b))
        && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] vp_rem(*old(it))[j],), None::<B>),
      None => forall|j: int| 0 <= j < vp_rem(*old(it)).len() ==> call_ensures(f, (#[trigger] vp_rem(*old(it))[j],), None::<B>),
    };"""),
    ("min", r"\bmin\(", """#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: Ord + std::marker::Destruct> [ std::cmp::min ](a: T, b: T) -> (r: T)
  ensures r == if OrdSpec::cmp_spec(&a, &b) is Greater { b } else { a };"""),
    ("max", r"\bmax\(", """#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: Ord + std::marker::Destruct> [ std::cmp::max ](a: T, b: T) -> (r: T)
  ensures r == if OrdSpec::cmp_spec(&a, &b) is Greater { a } else { b };"""),
    ("sort_by_key", r"\.sort_by_key\(", """pub assume_specification<T, K: Ord, F: FnMut(&T) -> K> [ <[T]>::sort_by_key ](s: &mut [T], f: F)
  requires
    forall|i: int| 0 <= i < old(s)@.len() ==> call_requires(f, (&#[trigger] old(s)@[i],)),
  ensures
    final(s)@.to_multiset() == old(s)@.to_multiset(),
    final(s)@.len() == old(s)@.len(),
    forall|i: int, j: int| 0 <= i < j < final(s)@.len() ==> vp_key_le(f, #[trigger] final(s)@[i], #[trigger] final(s)@[j]);"""),
    ("sort_unstable_by_key", r"\.sort_unstable_by_key\(", """pub assume_specification<T, K: Ord, F: FnMut(&T) -> K> [ <[T]>::sort_unstable_by_key ](s: &mut [T], f: F)
  requires
    forall|i: int| 0 <= i < old(s)@.len() ==> call_requires(f, (&#[trigger] old(s)@[i],)),
  ensures
    final(s)@.to_multiset() == old(s)@.to_multiset(),
    final(s)@.len() == old(s)@.len(),
    forall|i: int, j: int| 0 <= i < j < final(s)@.len() ==> vp_key_le(f, #[trigger] final(s)@[i], #[trigger] final(s)@[j]);"""),
]


def needed(text):
    body = re.sub(r"//.*", "", text)
    return [(n, s) for n, pat, s in SPECS if re.search(pat, body)]


HEAD = """#![feature(const_destruct)]
#![allow(unused, internal_features)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::iter::*;
"""


def prelude(text):
    sp = needed(text)
    ghost = KEY_LE if any("vp_key_le" in s for _, s in sp) else ""
    if any("vp_rem" in s for _, s in sp):
        ghost += "#[verifier::prophetic] pub open spec fn vp_rem<'a, T>(it: std::slice::Iter<'a, T>) -> Seq<&'a T> { IteratorSpec::remaining(&it) }\n"
    return HEAD + "verus! {\n" + ghost + "\n".join(s for _, s in sp) + "\n}\n", [f"std {n}: contract assumed" for n, _ in sp]
