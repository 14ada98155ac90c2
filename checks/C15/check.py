"""C15: the response cache answers with what was stored for the key, and survives on disk."""
import maps

F = "crates/mdbook-aquascope/src/cache.rs"

STUBS = maps.USE + r"""
use std::marker::PhantomData;
verus! {
broadcast use vstd::std_specs::hash::group_hash_axioms;
pub struct AnyErr;
pub type Result<T> = core::result::Result<T, AnyErr>;
// ---- hashing --------------------------------------------------------------------------------------------------------
#[verifier::external_body]
pub struct DefaultHasher { p: u8 }
pub uninterp spec fn digest(fed: Seq<u8>) -> u64;
impl DefaultHasher {
  pub uninterp spec fn fed(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r.fed() == Seq::<u8>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn finish(&self) -> (r: u64) ensures r == digest(self.fed()) { unimplemented!() }
}
pub trait Hash { spec fn bytes(&self) -> Seq<u8>; fn hash(&self, h: &mut DefaultHasher) ensures final(h).fed() == old(h).fed() + self.bytes(); }
// ---- serialisation ----------------------------------------------------------------------------------------------------
pub trait Serialize {}
pub trait DeserializeOwned {}
/// what serde_json writes for a map, gzipped; and the map a file's bytes stand for, if any
pub uninterp spec fn stored<V>(m: Map<u64, V>) -> Seq<u8>;
pub open spec fn unstored<V>(b: Seq<u8>) -> Option<Map<u64, V>> {
  if exists|m: Map<u64, V>| stored(m) == b { Some(choose|m: Map<u64, V>| stored(m) == b) } else { None }
}
/// reading back what was written gives the same map, and something was written
pub broadcast axiom fn axiom_stored<V>(m: Map<u64, V>) ensures unstored::<V>(#[trigger] stored(m)) == Some(m), stored(m).len() > 0;
// ---- files ------------------------------------------------------------------------------------------------------------
/// The bytes of an open file and the position it is at.
#[verifier::external_body]
pub struct File { p: u8 }
pub uninterp spec fn on_disk() -> Seq<u8>;
pub open spec fn written(c: Seq<u8>, pos: int, b: Seq<u8>) -> Seq<u8> {
  Seq::new((if pos + b.len() > c.len() { pos + b.len() } else { c.len() as int }) as nat,
    |i: int| if pos <= i < pos + b.len() { b[i - pos] } else if i < c.len() { c[i] } else { 0u8 })
}
#[verifier::external_body]
pub struct Metadata { p: u8 }
impl Metadata { pub uninterp spec fn n(&self) -> int; #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r == self.n() { unimplemented!() } }
impl File {
  pub uninterp spec fn content(&self) -> Seq<u8>;
  pub uninterp spec fn pos(&self) -> int;
  #[verifier::external_body]
  pub fn metadata(&self) -> (r: Result<Metadata>) ensures r is Ok ==> r->Ok_0.n() == self.content().len() { unimplemented!() }
  #[verifier::external_body]
  pub fn set_len(&mut self, n: u64) -> (r: Result<()>)
    ensures r is Ok ==> final(self).content() == Seq::new(n as nat, |i: int| if i < old(self).content().len() { old(self).content()[i] } else { 0u8 }) && final(self).pos() == old(self).pos(),
      r is Err ==> final(self).content() == old(self).content() && final(self).pos() == old(self).pos() { unimplemented!() }
  #[verifier::external_body]
  pub fn rewind(&mut self) -> (r: Result<()>) ensures final(self).content() == old(self).content(), r is Ok ==> final(self).pos() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn flush(&mut self) -> (r: Result<()>) ensures final(self).content() == old(self).content(), final(self).pos() == old(self).pos() { unimplemented!() }
}
pub struct OpenOptions { pub r: bool, pub w: bool, pub c: bool, pub t: bool, pub n: bool, pub a: bool }
impl OpenOptions {
  pub fn new() -> (o: Self) ensures !o.r, !o.w, !o.c, !o.t, !o.n, !o.a { OpenOptions { r: false, w: false, c: false, t: false, n: false, a: false } }
  pub fn read(self, b: bool) -> (o: Self) ensures o == (OpenOptions { r: b, ..self }) { OpenOptions { r: b, ..self } }
  pub fn write(self, b: bool) -> (o: Self) ensures o == (OpenOptions { w: b, ..self }) { OpenOptions { w: b, ..self } }
  pub fn create(self, b: bool) -> (o: Self) ensures o == (OpenOptions { c: b, ..self }) { OpenOptions { c: b, ..self } }
  pub fn truncate(self, b: bool) -> (o: Self) ensures o == (OpenOptions { t: b, ..self }) { OpenOptions { t: b, ..self } }
  pub fn create_new(self, b: bool) -> (o: Self) ensures o == (OpenOptions { n: b, ..self }) { OpenOptions { n: b, ..self } }
  pub fn append(self, b: bool) -> (o: Self) ensures o == (OpenOptions { a: b, ..self }) { OpenOptions { a: b, ..self } }
  /// opened for reading and writing, created when missing, not truncated: the bytes on disk, from the start
  #[verifier::external_body]
  pub fn open(self, path: &str) -> (r: Result<File>)
    ensures r is Ok && self == (OpenOptions { r: true, w: true, c: true, t: false, n: false, a: false }) && path@ == CACHE_PATH@ ==> r->Ok_0.content() == on_disk() && r->Ok_0.pos() == 0 { unimplemented!() }
}
pub struct Compression;
impl Compression { #[verifier::external_body] pub fn best() -> Compression { unimplemented!() } #[verifier::external_body] pub fn fast() -> Compression { unimplemented!() } #[verifier::external_body] pub fn default() -> Compression { unimplemented!() } }
pub struct GzDecoder<'a> { pub f: &'a File }
impl<'a> GzDecoder<'a> { pub fn new(f: &'a File) -> (r: Self) ensures r.f == f { GzDecoder { f } } }
pub struct GzEncoder<'a> { pub f: &'a mut File, pub data: Ghost<Seq<u8>> }
impl<'a> GzEncoder<'a> {
  #[verifier::external_body]
  pub fn new(f: &'a mut File, c: Compression) -> (r: Self) ensures *r.f == *old(f), *final(r.f) == *final(f), r.data@ == Seq::<u8>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn finish(self) -> (r: Result<()>)
    ensures r is Ok ==> final(self.f).content() == written(old(self.f).content(), old(self.f).pos(), self.data@) { unimplemented!() }
}
pub mod serde_json {
  use super::*;
  #[verifier::external_body]
  pub fn to_writer<V>(e: &mut GzEncoder, m: &HashMap<u64, V>) -> (r: Result<()>)
    ensures *final(e).f == *old(e).f, *final(final(e).f) == *final(old(e).f), r is Ok ==> final(e).data@ == old(e).data@ + stored(m@) { unimplemented!() }
  #[verifier::external_body]
  pub fn from_reader<V>(d: &mut GzDecoder) -> (r: Result<HashMap<u64, V>>)
    ensures r is Ok <==> unstored::<V>(old(d).f.content()) is Some, r is Ok ==> r->Ok_0@ == unstored::<V>(old(d).f.content())->Some_0 { unimplemented!() }
}
pub assume_specification<T, E, F: FnOnce(E) -> T + std::marker::Destruct> [ core::result::Result::<T, E>::unwrap_or_else ](o: core::result::Result<T, E>, f: F) -> (r: T)
  requires o is Err ==> call_requires(f, (o->Err_0,)),
  ensures match o { Ok(x) => r == x, Err(e) => call_ensures(f, (e,), r) };
"""

SPECS = r"""
pub open spec fn hash_of<K: Hash>(k: K) -> u64 { digest(k.bytes()) }
/// the map a cache file stands for: nothing if it is empty or cannot be read
pub open spec fn loaded<V>(b: Seq<u8>) -> Map<u64, V> { if b.len() == 0 || unstored::<V>(b) is None { Map::empty() } else { unstored::<V>(b)->Some_0 } }
"""


def build(ctx):
    u = ctx.unit("cache")
    u.raw(STUBS)
    u.item(F, "struct", "Cache", attrs="#[verifier::reject_recursive_types(K)]\n#[verifier::reject_recursive_types(V)]")
    u.item(F, "const", "CACHE_PATH", attrs="", subst=[(r"&str", "&'static str", "elided lifetime")])
    u.raw(SPECS)
    u.fn(F, "hash", ret="r", spec="ensures r == hash_of(*k)", start="proof { assert(Seq::<u8>::empty() + k.bytes() =~= k.bytes()); }")
    u.impl(F, "Cache", None, {
        "load": dict(ret="r", spec="ensures r is Ok ==> r->Ok_0.cache@ == loaded::<V>(on_disk()) && !r->Ok_0.dirty && r->Ok_0.cache_file.content() == on_disk()",
                     start="broadcast use axiom_stored;",
                     closures=[dict(types=["AnyErr"], ret="r: HashMap<u64, V>", spec="ensures r@ == Map::<u64, V>::empty()")]),
        "get": dict(ret="r", spec="ensures match r { Some(v) => self.cache@.contains_key(hash_of(*key)) && *v == self.cache@[hash_of(*key)], None => !self.cache@.contains_key(hash_of(*key)) }"),
        "set": dict(spec="ensures final(self).cache@ == old(self).cache@.insert(hash_of(key), value), final(self).dirty, final(self).cache_file == old(self).cache_file"),
        "save": dict(ret="r", spec="""ensures final(self).cache@ == old(self).cache@,
    !old(self).dirty ==> r is Ok && final(self).cache_file == old(self).cache_file,
    old(self).dirty && r is Ok ==> final(self).cache_file.content() == stored(final(self).cache@) && loaded::<V>(final(self).cache_file.content()) == final(self).cache@""",
                     start="broadcast use axiom_stored;",
                     tail="""proof { assert(Seq::<u8>::empty() + stored(self.cache@) =~= stored(self.cache@));
      if old(self).dirty { assert(self.cache_file.content() =~= stored(self.cache@)); } }"""),
    }, types=False)
    u.helpers()
    u.raw("} fn main() {}")
    return u


UNITS = [("cache", build)]
TRUSTED = ["std files, gzip and serde_json: reading back what was written gives the same map", "DefaultHasher is a function of the bytes fed to it"]
ASSUMPTIONS = ["two different keys have different 64-bit hashes (collisions are outside the property)"]
BOUNDED = "random histories of set/get/save/load in a scratch directory, corrupt files, and the hashes of all small blocks"


def native_run(ctx):
    return ctx.native_crate("mdbook-aquascope", {F: [("vp_c15", "native.rs")]}, "vp_c15")
