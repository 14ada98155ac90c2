"""C13: which parts of a page are Aquascope blocks, and what each one says."""
import re

F = "crates/mdbook-aquascope/src/block.rs"


def tuples():
    """nom's `tuple` and the values of tuples, for 2 to 6 parsers."""
    o = ""
    for n in range(2, 7):
        ts = [chr(65 + i) for i in range(n)]
        par = ", ".join(ts)
        o += f"impl<{', '.join(t + ': Dv' for t in ts)}> Dv for ({par}) {{ type V = ({', '.join(t + '::V' for t in ts)}); open spec fn dv(&self) -> Self::V {{ ({', '.join(f'self.{i}.dv()' for i in range(n))}) }} }}\n"
        body = f"Some((e{n - 1}, ({', '.join(f'v{i}' for i in range(n))})))"
        for i in reversed(range(n)):
            body = f"match self.0.{i}.run(s, {'k' if i == 0 else f'e{i - 1}'}) {{ None => None, Some((e{i}, v{i})) => {body} }}"
        o += (f"impl<'a, {', '.join(t + ': Ps<\u0027a>' for t in ts)}> Ps<'a> for Tuple<({par})> {{ type Out = ({', '.join(t + '::Out' for t in ts)});\n"
              f"  open spec fn run(&self, s: Seq<char>, k: int) -> Option<(int, <Self::Out as Dv>::V)> {{ {body} }} }}\n")
    return o


STUBS = r"""
use std::ops::Range;
pub struct Error<T> { pub t: T }
pub mod nom { pub mod error { pub type Error<T> = super::super::Error<T>; } }
#[derive(Debug)]
pub struct AnyErr;
verus! {
#[verifier::external_type_specification]
pub struct ExAnyErr(AnyErr);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExError<T>(Error<T>);
pub type IResult<I, O> = Result<(I, O), AnyErr>;

// ---- texts ------------------------------------------------------------------------------------------------------
/// the bytes a character takes, the bytes of a text
pub uninterp spec fn clen(c: char) -> int;
pub broadcast axiom fn axiom_clen(c: char) ensures 1 <= #[trigger] clen(c) <= 4;
pub open spec fn blen(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
/// the byte at which character k starts
pub open spec fn byte(s: Seq<char>, k: int) -> int { blen(s.take(k)) }
pub uninterp spec fn white(c: char) -> bool;
pub open spec fn ltrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && white(s[0]) { ltrim(s.drop_first()) } else { s } }
pub open spec fn rtrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && white(s.last()) { rtrim(s.drop_last()) } else { s } }
pub open spec fn trim(s: Seq<char>) -> Seq<char> { rtrim(ltrim(s)) }
#[verifier::external_body]
pub fn vp_trim(s: &str) -> (r: &str) ensures r@ == trim(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_string(v: Vec<char>) -> (r: String) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn vp_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// What a value says, in plain mathematics.
pub trait Dv: Sized { type V; spec fn dv(&self) -> Self::V; }
impl Dv for char { type V = char; open spec fn dv(&self) -> char { *self } }
impl Dv for String { type V = Seq<char>; open spec fn dv(&self) -> Seq<char> { self@ } }
impl<T: Dv> Dv for Vec<T> { type V = Seq<T::V>; open spec fn dv(&self) -> Seq<T::V> { Seq::new(self@.len(), |i: int| self@[i].dv()) } }

// ---- nom and nom_locate, by contract --------------------------------------------------------------------------------
/// A text and how far into it the parser is; or a piece of a text.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct LocatedSpan<'a> { p: &'a str }
impl<'a> LocatedSpan<'a> {
  pub uninterp spec fn text(&self) -> Seq<char>;
  pub uninterp spec fn off(&self) -> int;
  pub uninterp spec fn piece(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn new(s: &'a str) -> (r: Self) ensures r.s() == s@, r.k() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn location_offset(&self) -> (r: usize) ensures r == byte(self.s(), self.k()) { unimplemented!() }
  #[verifier::external_body]
  pub fn fragment(&self) -> (r: &'a str) ensures r@ == self.piece() { unimplemented!() }
}
pub trait Located { spec fn s(&self) -> Seq<char>; spec fn k(&self) -> int; }
impl<'a> Located for LocatedSpan<'a> { open spec fn s(&self) -> Seq<char> { self.text() } open spec fn k(&self) -> int { self.off() } }
impl<'a> Dv for LocatedSpan<'a> { type V = Seq<char>; open spec fn dv(&self) -> Seq<char> { self.piece() } }
/// A parser: at character k of the text it fails, or gives a value and where it stopped.
pub trait Ps<'a>: Sized { type Out: Dv; spec fn run(&self, s: Seq<char>, k: int) -> Option<(int, <Self::Out as Dv>::V)>; }
pub open spec fn gives<'a, O: Dv>(r: IResult<LocatedSpan<'a>, O>, s: Seq<char>, w: Option<(int, O::V)>) -> bool {
  match w { None => r is Err, Some((e, v)) => r is Ok && r->Ok_0.0.s() == s && r->Ok_0.0.k() == e && r->Ok_0.1.dv() == v }
}
#[verifier::external_body]
pub fn vp_run<'a, P: Ps<'a>>(p: &P, i: LocatedSpan<'a>) -> (r: IResult<LocatedSpan<'a>, P::Out>) ensures gives(r, i.s(), p.run(i.s(), i.k())) { unimplemented!() }
#[verifier::external_body]
pub fn anychar<T: Located, E>(i: T) -> (r: Result<(T, char), E>)
  ensures r is Ok <==> i.k() < i.s().len(), r is Ok ==> r->Ok_0.0.s() == i.s() && r->Ok_0.0.k() == i.k() + 1 { unimplemented!() }
pub open spec fn here(s: Seq<char>, k: int, t: Seq<char>) -> bool { 0 <= k && k + t.len() <= s.len() && s.subrange(k, k + t.len()) == t }
/// where the text t comes next
pub open spec fn next_of(s: Seq<char>, k: int, t: Seq<char>) -> Option<int> decreases s.len() - k {
  if here(s, k, t) { Some(k) } else if 0 <= k < s.len() { next_of(s, k + 1, t) } else { None }
}
pub struct Tag<'t> { pub t: &'t str }
pub fn tag<'t>(t: &'t str) -> (r: Tag<'t>) ensures r.t == t { Tag { t } }
impl<'a, 't> Ps<'a> for Tag<'t> { type Out = LocatedSpan<'a>;
  open spec fn run(&self, s: Seq<char>, k: int) -> Option<(int, Seq<char>)> { if here(s, k, self.t@) { Some((k + self.t@.len(), self.t@)) } else { None } } }
pub struct TakeUntil<'t> { pub t: &'t str }
pub fn take_until<'t>(t: &'t str) -> (r: TakeUntil<'t>) ensures r.t == t { TakeUntil { t } }
impl<'a, 't> Ps<'a> for TakeUntil<'t> { type Out = LocatedSpan<'a>;
  open spec fn run(&self, s: Seq<char>, k: int) -> Option<(int, Seq<char>)> { match next_of(s, k, self.t@) { Some(e) => Some((e, s.subrange(k, e))), None => None } } }
pub struct Char { pub c: char }
pub fn char(c: char) -> (r: Char) ensures r.c == c { Char { c } }
impl<'a> Ps<'a> for Char { type Out = char;
  open spec fn run(&self, s: Seq<char>, k: int) -> Option<(int, char)> { if 0 <= k < s.len() && s[k] == self.c { Some((k + 1, self.c)) } else { None } } }
pub struct NoneOf<'t> { pub t: &'t str }
pub fn none_of<'t>(t: &'t str) -> (r: NoneOf<'t>) ensures r.t == t { NoneOf { t } }
impl<'a, 't> Ps<'a> for NoneOf<'t> { type Out = char;
  open spec fn run(&self, s: Seq<char>, k: int) -> Option<(int, char)> { if 0 <= k < s.len() && !self.t@.contains(s[k]) { Some((k + 1, s[k])) } else { None } } }
pub struct Many0<P> { pub p: P }
pub fn many0<P>(p: P) -> (r: Many0<P>) ensures r.p == p { Many0 { p } }
/// again and again until the parser fails; a success that consumes nothing is an error
pub open spec fn many<'a, P: Ps<'a>>(p: P, s: Seq<char>, k: int) -> Option<(int, Seq<<P::Out as Dv>::V>)> decreases s.len() - k {
  match p.run(s, k) {
    None => Some((k, Seq::empty())),
    Some((e, v)) => if 0 <= k < e <= s.len() { match many(p, s, e) { None => None, Some((z, vs)) => Some((z, seq![v] + vs)) } } else { None },
  }
}
impl<'a, P: Ps<'a>> Ps<'a> for Many0<P> { type Out = Vec<P::Out>;
  open spec fn run(&self, s: Seq<char>, k: int) -> Option<(int, Seq<<P::Out as Dv>::V>)> { many(self.p, s, k) } }
pub struct SepList1<Q, P> { pub q: Q, pub p: P }
pub fn separated_list1<Q, P>(q: Q, p: P) -> (r: SepList1<Q, P>) ensures r == (SepList1 { q, p }) { SepList1 { q, p } }
pub open spec fn seplist<'a, Q: Ps<'a>, P: Ps<'a>>(q: Q, p: P, s: Seq<char>, k: int) -> Option<(int, Seq<<P::Out as Dv>::V>)> decreases s.len() - k {
  match p.run(s, k) {
    None => None,
    Some((e, v)) => match q.run(s, e) {
      None => Some((e, seq![v])),
      Some((f, _)) => if 0 <= k <= e < f <= s.len() {
        if p.run(s, f) is None { Some((e, seq![v])) } else { match seplist(q, p, s, f) { None => None, Some((z, vs)) => Some((z, seq![v] + vs)) } }
      } else { None },
    },
  }
}
impl<'a, Q: Ps<'a>, P: Ps<'a>> Ps<'a> for SepList1<Q, P> { type Out = Vec<P::Out>;
  open spec fn run(&self, s: Seq<char>, k: int) -> Option<(int, Seq<<P::Out as Dv>::V>)> { seplist(self.q, self.p, s, k) } }
pub struct Preceded<Q, P> { pub q: Q, pub p: P }
pub fn preceded<Q, P>(q: Q, p: P) -> (r: Preceded<Q, P>) ensures r == (Preceded { q, p }) { Preceded { q, p } }
impl<'a, Q: Ps<'a>, P: Ps<'a>> Ps<'a> for Preceded<Q, P> { type Out = P::Out;
  open spec fn run(&self, s: Seq<char>, k: int) -> Option<(int, <P::Out as Dv>::V)> { match self.q.run(s, k) { None => None, Some((e, _)) => self.p.run(s, e) } } }
pub struct Terminated<P, Q> { pub p: P, pub q: Q }
pub fn terminated<P, Q>(p: P, q: Q) -> (r: Terminated<P, Q>) ensures r == (Terminated { p, q }) { Terminated { p, q } }
impl<'a, P: Ps<'a>, Q: Ps<'a>> Ps<'a> for Terminated<P, Q> { type Out = P::Out;
  open spec fn run(&self, s: Seq<char>, k: int) -> Option<(int, <P::Out as Dv>::V)> { match self.p.run(s, k) { None => None, Some((e, v)) => match self.q.run(s, e) { None => None, Some((f, _)) => Some((f, v)) } } } }
pub struct SepPair<A, Q, B> { pub a: A, pub q: Q, pub b: B }
pub fn separated_pair<A, Q, B>(a: A, q: Q, b: B) -> (r: SepPair<A, Q, B>) ensures r == (SepPair { a, q, b }) { SepPair { a, q, b } }
impl<'a, A: Ps<'a>, Q: Ps<'a>, B: Ps<'a>> Ps<'a> for SepPair<A, Q, B> { type Out = (A::Out, B::Out);
  open spec fn run(&self, s: Seq<char>, k: int) -> Option<(int, (<A::Out as Dv>::V, <B::Out as Dv>::V))> {
    match self.a.run(s, k) { None => None, Some((e, v)) => match self.q.run(s, e) { None => None, Some((f, _)) => match self.b.run(s, f) { None => None, Some((g, w)) => Some((g, (v, w))) } } }
  } }
pub struct Alt<T> { pub t: T }
pub fn alt<T>(t: T) -> (r: Alt<T>) ensures r.t == t { Alt { t } }
impl<'a, A: Ps<'a>, B: Ps<'a, Out = A::Out>> Ps<'a> for Alt<(A, B)> { type Out = A::Out;
  open spec fn run(&self, s: Seq<char>, k: int) -> Option<(int, <A::Out as Dv>::V)> { match self.t.0.run(s, k) { None => self.t.1.run(s, k), Some(x) => Some(x) } } }
/// `map`, with what the function makes of a value
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(W)]
pub struct Map<P, V, W, B> { pub p: P, pub f: Ghost<spec_fn(V) -> W>, pub b: core::marker::PhantomData<B> }
#[verifier::external_body]
pub fn vp_map<'a, P: Ps<'a>, B: Dv, G: Fn(P::Out) -> B>(f: Ghost<spec_fn(<P::Out as Dv>::V) -> B::V>, p: P, g: G) -> (r: Map<P, <P::Out as Dv>::V, B::V, B>)
  requires forall|x: P::Out| #[trigger] g.requires((x,)), forall|x: P::Out, y: B| #[trigger] g.ensures((x,), y) ==> y.dv() == f@(x.dv())
  ensures r.p == p, r.f == f { unimplemented!() }
impl<'a, P: Ps<'a>, B: Dv> Ps<'a> for Map<P, <P::Out as Dv>::V, B::V, B> { type Out = B;
  open spec fn run(&self, s: Seq<char>, k: int) -> Option<(int, B::V)> { match self.p.run(s, k) { None => None, Some((e, v)) => Some((e, self.f@(v))) } } }
pub struct Tuple<T>(pub T);
pub fn tuple<T>(t: T) -> (r: Tuple<T>) ensures r.0 == t { Tuple(t) }
@TUPLES@
/// `parse_sym` where it is handed to a combinator: what its contract says
pub struct Sym {}
impl<'a> Ps<'a> for Sym { type Out = String; open spec fn run(&self, s: Seq<char>, k: int) -> Option<(int, Seq<char>)> { Some((sym_end(s, k), sym(s, k))) } }

// ---- blocks -----------------------------------------------------------------------------------------------------
#[verifier::external_body]
pub struct AquascopeAnnotations { p: u8 }
/// the code without its annotations, and these (C12)
pub uninterp spec fn bare(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn notes(s: Seq<char>) -> AquascopeAnnotations;
#[verifier::external_body]
pub fn parse_annotations(code: &str) -> (r: Result<(String, AquascopeAnnotations), AnyErr>) ensures r is Ok, r->Ok_0.0@ == bare(code@), r->Ok_0.1 == notes(code@) { unimplemented!() }
pub struct Blk { pub operations: Seq<Seq<char>>, pub config: Seq<(Seq<char>, Seq<char>)>, pub code: Seq<char>, pub annotations: AquascopeAnnotations }
pub open spec fn stops(c: char) -> bool { c == ',' || c == '=' || c == '\n' || c == '+' }
pub open spec fn sym_end(s: Seq<char>, k: int) -> int decreases s.len() - k { if 0 <= k < s.len() && !stops(s[k]) { sym_end(s, k + 1) } else { k } }
pub open spec fn sym(s: Seq<char>, k: int) -> Seq<char> { s.subrange(k, sym_end(s, k)) }
pub open spec fn at(s: Seq<char>, k: int, c: char) -> bool { 0 <= k < s.len() && s[k] == c }
/// operations separated by `+`
pub open spec fn ops(s: Seq<char>, k: int) -> (int, Seq<Seq<char>>) decreases s.len() - k {
  let e = sym_end(s, k);
  if k <= e && at(s, e, '+') { (ops(s, e + 1).0, seq![sym(s, k)] + ops(s, e + 1).1) } else { (e, seq![sym(s, k)]) }
}
/// `,key=value` or `,flag`, any number
pub open spec fn opts(s: Seq<char>, k: int) -> (int, Seq<(Seq<char>, Seq<char>)>) decreases s.len() - k {
  if at(s, k, ',') {
    let e = sym_end(s, k + 1);
    let f = sym_end(s, e + 1);
    if k < e && at(s, e, '=') && e < f <= s.len() { (opts(s, f).0, seq![(sym(s, k + 1), sym(s, e + 1))] + opts(s, f).1) } 
    else if k < e <= s.len() { (opts(s, e).0, seq![(sym(s, k + 1), "true"@)] + opts(s, e).1) }
    else { (k, Seq::empty()) }
  } else { (k, Seq::empty()) }
}
/// The block that starts at character k, and where it ends.
pub open spec fn block_at(s: Seq<char>, k: int) -> Option<(int, Blk)> {
  let p = k + "```aquascope"@.len();
  if here(s, k, "```aquascope"@) && at(s, p, ',') {
    let o = ops(s, p + 1);
    let c = opts(s, o.0);
    match next_of(s, c.0, "```"@) {
      Some(e) => { let code = trim(s.subrange(c.0, e)); Some((e + "```"@.len(), Blk { operations: o.1, config: c.1, code: bare(code), annotations: notes(code) })) },
      None => None,
    }
  } else { None }
}
impl Dv for AquascopeBlock { type V = Blk; open spec fn dv(&self) -> Blk { Blk { operations: self.operations.dv(), config: self.config.dv(), code: self.code@, annotations: self.annotations } } }

pub proof fn lemma_sym_end(s: Seq<char>, k: int)
  requires 0 <= k <= s.len()
  ensures k <= sym_end(s, k) <= s.len(), sym_end(s, k) < s.len() ==> stops(s[sym_end(s, k)]), forall|i: int| k <= i < sym_end(s, k) ==> !stops(#[trigger] s[i])
  decreases s.len() - k
{ if k < s.len() && !stops(s[k]) { lemma_sym_end(s, k + 1); } }
pub proof fn lemma_ops(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures k <= ops(s, k).0 <= s.len() decreases s.len() - k {
  lemma_sym_end(s, k); let e = sym_end(s, k); if at(s, e, '+') { lemma_ops(s, e + 1); }
}
pub proof fn lemma_opts(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures k <= opts(s, k).0 <= s.len() decreases s.len() - k {
  if at(s, k, ',') {
    lemma_sym_end(s, k + 1); let e = sym_end(s, k + 1);
    if at(s, e, '=') { lemma_sym_end(s, e + 1); lemma_opts(s, sym_end(s, e + 1)); } else { lemma_opts(s, e); }
  }
}
pub proof fn lemma_next_of(s: Seq<char>, k: int, t: Seq<char>)
  ensures next_of(s, k, t) is Some ==> k <= next_of(s, k, t)->Some_0 && here(s, next_of(s, k, t)->Some_0, t)
  decreases s.len() - k
{ if !here(s, k, t) && 0 <= k < s.len() { lemma_next_of(s, k + 1, t); } }
/// a block is not empty and lies inside the text
pub proof fn lemma_block(s: Seq<char>, k: int)
  requires 0 <= k <= s.len()
  ensures block_at(s, k) is Some ==> k < block_at(s, k)->Some_0.0 <= s.len()
{
  let p = k + "```aquascope"@.len();
  if here(s, k, "```aquascope"@) && at(s, p, ',') {
    lemma_ops(s, p + 1); lemma_opts(s, ops(s, p + 1).0); lemma_next_of(s, opts(s, ops(s, p + 1).0).0, "```"@);
  }
}
// what the combinators of the grammar come to
pub proof fn lemma_many_chars(s: Seq<char>, k: int, t: &str)
  requires 0 <= k <= s.len(), forall|c: char| t@.contains(c) <==> stops(c)
  ensures many(NoneOf { t }, s, k) == Some((sym_end(s, k), sym(s, k)))
  decreases s.len() - k
{
  if k < s.len() && !stops(s[k]) { lemma_many_chars(s, k + 1, t); lemma_sym_end(s, k + 1); assert(seq![s[k]] + sym(s, k + 1) =~= sym(s, k)); }
  else { assert(sym(s, k) =~= Seq::empty()); }
}
pub proof fn lemma_seplist(s: Seq<char>, k: int)
  requires 0 <= k <= s.len()
  ensures seplist(Char { c: '+' }, Sym {}, s, k) == Some(ops(s, k))
  decreases s.len() - k
{
  lemma_sym_end(s, k); let e = sym_end(s, k);
  if at(s, e, '+') { lemma_seplist(s, e + 1); }
}
/// a flag's value
pub open spec fn flag(v: Seq<char>) -> (Seq<char>, Seq<char>) { (v, "true"@) }
pub type Entry = Preceded<Char, Alt<(SepPair<Sym, Char, Sym>, Map<Sym, Seq<char>, (Seq<char>, Seq<char>), (String, String)>)>>;
pub proof fn lemma_entries(p: Entry, s: Seq<char>, k: int)
  requires 0 <= k <= s.len(), p.q.c == ',', p.p.t.0.q.c == '=', p.p.t.1.f@ == (|v: Seq<char>| flag(v))
  ensures many(p, s, k) == Some(opts(s, k))
  decreases s.len() - k
{
  if at(s, k, ',') {
    lemma_sym_end(s, k + 1); let e = sym_end(s, k + 1);
    assert(p.p.run(s, k + 1) == p.run(s, k));
    if at(s, e, '=') { lemma_sym_end(s, e + 1); lemma_entries(p, s, sym_end(s, e + 1)); } else { lemma_entries(p, s, e); }
  }
}

// ---- the page ---------------------------------------------------------------------------------------------------
pub type Found = (Range<usize>, AquascopeBlock);
pub open spec fn view(v: Seq<Found>) -> Seq<(int, int, Blk)> { Seq::new(v.len(), |i: int| (v[i].0.start as int, v[i].0.end as int, v[i].1.dv())) }
/// Every block from character k on, by character: the first place a block starts at, then on behind it.
pub open spec fn blocks(s: Seq<char>, k: int) -> Seq<(int, int, Blk)> decreases s.len() - k {
  match block_at(s, k) {
    Some((e, b)) => if 0 <= k < e <= s.len() { seq![(k, e, b)] + blocks(s, e) } else { Seq::empty() },
    None => if 0 <= k < s.len() { blocks(s, k + 1) } else { Seq::empty() },
  }
}
/// the same, by byte
pub open spec fn in_bytes(s: Seq<char>, v: Seq<(int, int, Blk)>) -> Seq<(int, int, Blk)> { Seq::new(v.len(), |i: int| (byte(s, v[i].0), byte(s, v[i].1), v[i].2)) }
pub broadcast proof fn lemma_view_push(v: Seq<Found>, x: Found) ensures #[trigger] view(v.push(x)) == view(v).push((x.0.start as int, x.0.end as int, x.1.dv())) {
  assert(view(v.push(x)) =~= view(v).push((x.0.start as int, x.0.end as int, x.1.dv())));
}
pub proof fn lemma_in_bytes(s: Seq<char>, x: (int, int, Blk), r: Seq<(int, int, Blk)>) ensures in_bytes(s, seq![x] + r) == seq![(byte(s, x.0), byte(s, x.1), x.2)] + in_bytes(s, r) {
  assert(in_bytes(s, seq![x] + r) =~= seq![(byte(s, x.0), byte(s, x.1), x.2)] + in_bytes(s, r));
}
pub proof fn lemma_byte(s: Seq<char>, a: int, b: int) requires 0 <= a <= b <= s.len() ensures byte(s, a) + (b - a) <= byte(s, b) <= byte(s, a) + 4 * (b - a) decreases b - a {
  broadcast use axiom_clen;
  if a < b { lemma_byte(s, a, b - 1); assert(s.take(b).drop_last() =~= s.take(b - 1)); assert(s.take(b).last() == s[b - 1]); }
}
/// Ranges are in order, disjoint and inside the text, every one is exactly a block, and no block is missed:
/// where a block starts, it is listed or starts inside one that is.
pub proof fn lemma_blocks(s: Seq<char>, k: int)
  requires 0 <= k <= s.len()
  ensures
    forall|i: int| 0 <= i < blocks(s, k).len() ==> is_block(s, k, #[trigger] blocks(s, k)[i]),
    forall|i: int, j: int| 0 <= i < j < blocks(s, k).len() ==> in_order(s, #[trigger] blocks(s, k)[i], #[trigger] blocks(s, k)[j]),
    forall|p: int| k <= p < s.len() && (#[trigger] block_at(s, p)) is Some ==> covered(blocks(s, k), p),
  decreases s.len() - k
{
  hide(block_at);
  lemma_block(s, k);
  let q = blocks(s, k);
  match block_at(s, k) {
    Some((e, b)) => { lemma_blocks(s, e); let r = blocks(s, e); lemma_byte(s, k, e);
      assert(q == seq![(k, e, b)] + r);
      assert forall|i: int| 0 <= i < q.len() implies is_block(s, k, #[trigger] q[i]) by { if i > 0 { assert(q[i] == r[i - 1]); assert(is_block(s, e, r[i - 1])); } else { assert(q[0] == (k, e, b)); } }
      assert forall|i: int, j: int| 0 <= i < j < q.len() implies in_order(s, #[trigger] q[i], #[trigger] q[j]) by {
        assert(q[j] == r[j - 1]); assert(is_block(s, e, r[j - 1])); if i > 0 { assert(q[i] == r[i - 1]); assert(in_order(s, r[i - 1], r[j - 1])); } else { assert(q[0] == (k, e, b)); lemma_byte(s, e, q[j].0); } }
      assert forall|p: int| k <= p < s.len() && (#[trigger] block_at(s, p)) is Some implies covered(q, p) by {
        if p < e { assert(q[0] == (k, e, b)); } else { assert(covered(r, p)); let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 <= p < r[i].1; assert(q[i + 1] == r[i]); } }
    },
    None => { if k < s.len() { lemma_blocks(s, k + 1); assert(q == blocks(s, k + 1));
      assert forall|i: int| 0 <= i < q.len() implies is_block(s, k, #[trigger] q[i]) by { assert(is_block(s, k + 1, q[i])); } } },
  }
}
pub open spec fn is_block(s: Seq<char>, k: int, x: (int, int, Blk)) -> bool { k <= x.0 < x.1 <= s.len() && block_at(s, x.0) == Some((x.1, x.2)) && byte(s, x.0) < byte(s, x.1) }
pub open spec fn in_order(s: Seq<char>, x: (int, int, Blk), y: (int, int, Blk)) -> bool { x.1 <= y.0 && byte(s, x.1) <= byte(s, y.0) }
pub open spec fn covered(v: Seq<(int, int, Blk)>, p: int) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 <= p < v[i].1 }
/// the whole grammar
pub type Grammar<'x, 'y, 'z> = Tuple<(Tag<'x>, Preceded<Char, SepList1<Char, Sym>>, Many0<Entry>, TakeUntil<'y>, Tag<'z>)>;
pub proof fn lemma_grammar(g: Grammar, s: Seq<char>, k: int)
  requires 0 <= k <= s.len(), g.0.0.t@ == "```aquascope"@, g.0.1.q.c == ',', g.0.1.p.q.c == '+', g.0.2.p.q.c == ',', g.0.2.p.p.t.0.q.c == '=', g.0.2.p.p.t.1.f@ == (|v: Seq<char>| flag(v)), g.0.3.t@ == "```"@, g.0.4.t@ == "```"@
  ensures match block_at(s, k) {
    None => g.run(s, k) is None,
    Some((e, b)) => g.run(s, k) is Some && g.run(s, k)->Some_0.0 == e && ({ let v = g.run(s, k)->Some_0.1; v.1 == b.operations && v.2 == b.config && b.code == bare(trim(v.3)) && b.annotations == notes(trim(v.3)) }) }
{
  let p = k + "```aquascope"@.len();
  if here(s, k, "```aquascope"@) && at(s, p, ',') {
    lemma_seplist(s, p + 1); lemma_ops(s, p + 1);
    let o = ops(s, p + 1);
    assert(g.0.1.p == (SepList1 { q: Char { c: '+' }, p: Sym {} }));
    lemma_entries(g.0.2.p, s, o.0); lemma_opts(s, o.0);
    let c = opts(s, o.0);
    lemma_next_of(s, c.0, "```"@);
  }
}
pub broadcast proof fn lemma_chars(v: Vec<char>) ensures #[trigger] v.dv() == v@ { assert(v.dv() =~= v@); }
""".replace("@TUPLES@", tuples())

SPANS = [(r"LocatedSpan<&str>", "LocatedSpan<'_>", "nom_locate's LocatedSpan<&str> by its stub"),
         (r"\bmap\((?=parse_sym\b)", "vp_map(Ghost(|v: Seq<char>| flag(v)), ", "map, with what its function makes of a value"),
         (r"\bparse_sym\b(?!\s*\()", "Sym {}", "parse_sym handed to a combinator: by its contract"),
         (r"(?m)= ((?:\w+\((?:[^()\n]|\([^()\n]*\))*\))|\w+)\(i\)\?;", r"= vp_run(&\1, i)?;", "applying a parser, by contract"),
         (r"(\w+)\.into_iter\(\)\.collect::<String>\(\)", r"vp_string(\1)", "std by contract"),
         (r"let (\w+): String = (\w+)\.into_iter\(\)\.collect\(\);", r"let \1: String = vp_string(\2);", "std by contract"),
         (r"String::from\(", "vp_from(", "std by contract"),
         (r"\"true\"\.(?:to_string|to_owned|into)\(\)", "vp_from(\"true\")", "std by contract"),
         (r"(\w+)\.fragment\(\)\.trim\(\)", r"vp_trim(\1.fragment())", "std by contract"),
         (r"crate::annotations::parse_annotations", "parse_annotations", "another module's function by contract (C12)")]


def build(ctx):
    u = ctx.unit("blocks")
    u.raw(STUBS)
    u.item(F, "struct", "AquascopeBlock")
    u.impl(F, "AquascopeBlock", None, {
        "parse": dict(ret="r", spec="requires 0 <= i.k() <= i.s().len() ensures gives(r, i.s(), block_at(i.s(), i.k()))", subst=SPANS,
           inner={"parse_sym": ("r", "requires 0 <= i.k() <= i.s().len() ensures gives(r, i.s(), Some((sym_end(i.s(), i.k()), sym(i.s(), i.k()))))",
                                "broadcast use lemma_chars; proof { lemma_stops(); lemma_many_chars(i.s(), i.k(), \",=\\n+\"); }")},
           closures=[dict(types=["String"], ret="b: (String, String)", spec="ensures b.0@ == s@, b.1@ == \"true\"@")],
           start="    let ghost s = i.s(); let ghost k = i.k();",
           at=[(r"let \(i, \(_, operations", "before", "proof { lemma_grammar(parser, s, k); }")]),
        "parse_all": dict(ret="r",
           subst=SPANS[:1] + [(r"let mut to_process = Vec::new\(\);", "let mut to_process: Vec<Found> = Vec::new();", "inferred type written out")],
           spec="ensures view(r@) == in_bytes(content@, blocks(content@, 0))",
           start="""    broadcast use lemma_view_push; let ghost text = content@;""",
           loops=[dict(kind="loop", inv="""      invariant
        content.s() == text, 0 <= content.k() <= text.len(),
        view(to_process@) + in_bytes(text, blocks(text, content.k())) == in_bytes(text, blocks(text, 0)),
      ensures blocks(text, content.k()) == Seq::<(int, int, Blk)>::empty(),
      decreases text.len() - content.k(),""",
                       before="proof { assert(view(to_process@) =~= Seq::empty()); assert(view(to_process@) + in_bytes(text, blocks(text, 0)) =~= in_bytes(text, blocks(text, 0))); }",
                       start="""        broadcast use lemma_view_push;
        let ghost p = content.k(); let ghost v0 = view(to_process@);
        proof { lemma_block(text, p);
          match block_at(text, p) { Some((e, b)) => { lemma_in_bytes(text, (p, e, b), blocks(text, e)); let x = (byte(text, p), byte(text, e), b);
            assert(v0.push(x) + in_bytes(text, blocks(text, e)) =~= v0 + (seq![x] + in_bytes(text, blocks(text, e)))); }, None => {} } }""")],
           tail="proof { assert(view(to_process@) + in_bytes(text, Seq::<(int, int, Blk)>::empty()) =~= view(to_process@)); lemma_blocks(text, 0); }")},
           types=False)
    u.raw("""
pub proof fn lemma_stops() ensures forall|c: char| ",=\\n+"@.contains(c) <==> stops(c) {
  reveal_strlit(",=\\n+"); let t = ",=\\n+"@;
  assert(t[0] == ',' && t[1] == '=' && t[2] == '\\n' && t[3] == '+');
}
} fn main() {}""")
    return u


UNITS = [("blocks", build)]
TRUSTED = ["nom's combinators (tag, char, none_of, take_until, many0, separated_list1, separated_pair, preceded, alt, map, tuple) and nom_locate's spans: by contract, after their source",
           "str::trim, collecting characters into a String, parse_annotations (C12): by contract"]
ASSUMPTIONS = ["parsers are functions of the text and the position", "building the marker pattern does not fail in parse_annotations (the pattern is constant)"]
BOUNDED = "what the contracts say of nom: random pages with well-formed and malformed blocks against a scanner written without parser combinators: ranges, operations, configuration and code"


def native_run(ctx):
    return ctx.native_crate("mdbook-aquascope", {F: [("vp_c13", "native.rs")]}, "vp_c13")
