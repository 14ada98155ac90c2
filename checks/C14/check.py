"""C14: inline permission markup in prose is rendered or refused, and never brings the build down."""
import re

F = "crates/mdbook-aquascope/src/permissions.rs"

STUBS = r"""
verus! {
pub struct AnyErr;
pub type Result<T> = core::result::Result<T, AnyErr>;
macro_rules! bail { ($($t:tt)*) => { return Err(AnyErr) } }
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
// ---- strings --------------------------------------------------------------------------------------------------------
pub trait Show { spec fn text(&self) -> Seq<char>; }
impl Show for str { open spec fn text(&self) -> Seq<char> { self@ } }
impl Show for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl Show for char { open spec fn text(&self) -> Seq<char> { seq![*self] } }
#[verifier::external_body]
pub fn vp_lit(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vp_show<T: Show + ?Sized>(x: &T) -> (r: String) ensures r@ == x.text() { unimplemented!() }
#[verifier::external_body]
pub fn vp_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub open spec fn upper(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u8) - 32) as char } else { c } }
#[verifier::external_body]
pub fn vp_upper(c: char) -> (r: char) ensures r == upper(c) { unimplemented!() }
#[verifier::external_body]
pub fn vp_first(s: &str) -> (r: Option<char>) ensures r is Some <==> s@.len() > 0, r is Some ==> r->Some_0 == s@[0] { unimplemented!() }
#[verifier::external_body]
pub fn vp_one_of(v: &[&str], s: &str) -> (r: bool) ensures r <==> exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i])@ == s@ { unimplemented!() }
// ---- the pattern ------------------------------------------------------------------------------------------------------
/// one `@Perm[option]{permission}` of the text
pub struct Hit { pub start: int, pub end: int, pub option: Option<Seq<char>>, pub perm: Seq<char> }
pub uninterp spec fn hits(s: Seq<char>) -> Seq<Hit>;
#[verifier::external_body]
pub struct Captures<'t> { p: core::marker::PhantomData<&'t u8> }
#[verifier::external_body]
pub struct Match<'t> { p: core::marker::PhantomData<&'t u8> }
impl<'t> Captures<'t> {
  pub uninterp spec fn h(&self) -> Hit;
  #[verifier::external_body]
  pub fn get(&self, i: usize) -> (r: Option<Match<'t>>)
    ensures i == 0 ==> r is Some && r->Some_0.s() == self.h().start && r->Some_0.e() == self.h().end,
      i == 1 ==> (r is Some <==> self.h().option is Some), i == 1 && r is Some ==> r->Some_0.t() == self.h().option->Some_0,
      i == 2 ==> r is Some && r->Some_0.t() == self.h().perm { unimplemented!() }
}
impl<'t> Match<'t> {
  pub uninterp spec fn s(&self) -> int;
  pub uninterp spec fn e(&self) -> int;
  pub uninterp spec fn t(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn range(&self) -> (r: std::ops::Range<usize>) ensures r.start == self.s(), r.end == self.e() { unimplemented!() }
  #[verifier::external_body]
  pub fn as_str(&self) -> (r: &'t str) ensures r@ == self.t() { unimplemented!() }
}
#[verifier::external_body]
pub struct Caps<'t> { p: core::marker::PhantomData<&'t u8> }
impl<'t> Caps<'t> {
  pub uninterp spec fn v(&self) -> Seq<Captures<'t>>;
  #[verifier::external_body]
  pub fn map<B, F: FnMut(Captures<'t>) -> B>(self, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < self.v().len() ==> call_requires(f, (#[trigger] self.v()[i],)),
    ensures r@.len() == self.v().len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (self.v()[i],), #[trigger] r@[i]) { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_captures<'t>(s: &'t str) -> (r: Caps<'t>)
  ensures r.v().len() == hits(s@).len(), forall|i: int| 0 <= i < hits(s@).len() ==> (#[trigger] r.v()[i]).h() == hits(s@)[i] { unimplemented!() }
"""

SPECS = r"""
pub open spec fn known(p: Seq<char>) -> bool { p == "read"@ || p == "write"@ || p == "own"@ || p == "flow"@ }
pub open spec fn plain(p: Seq<char>) -> Seq<char> { "<span class=\"perm "@ + p + "\">"@ + seq![upper(p[0])] + "</span>"@ }
pub open spec fn html(h: Hit) -> Option<Seq<char>> {
  if !known(h.perm) { None } else {
    match h.option {
      None => Some(plain(h.perm)),
      Some(o) => if o == "[gained]"@ { Some("<span><span class=\"perm-diff-add\">+</span>"@ + plain(h.perm) + "</span>"@) }
        else if o == "[lost]"@ { Some("<span class=\"perm-diff-sub-container\"><div class=\"perm-diff-sub\"></div>"@ + plain(h.perm) + "</span>"@) }
        else if o == "[missing]"@ { Some("<span class=\"perm missing "@ + h.perm + "\">"@ + seq![upper(h.perm[0])] + "</span>"@) }
        else { None },
    }
  }
}
pub open spec fn good(h: Hit, r: Result<Replacement>) -> bool {
  match r {
    Ok((g, t)) => html(h) == Some(t@) && g.start == h.start && g.end == h.end,
    Err(_) => html(h) is None,
  }
}
"""


def fmt(m):
    """format! with inline arguments becomes the concatenation of its parts."""
    lit = m[1] if m[1] is not None else m[2].encode().decode("unicode_escape")
    out = None
    for p in re.split(r"(\{\w+\})", lit):
        if not p:
            continue
        e = f"vp_show(&{p[1:-1]})" if re.fullmatch(r"\{\w+\}", p) else 'vp_lit("' + p.replace("\\", "\\\\").replace('"', '\\"') + '")'
        if e.startswith("vp_show(&perm)"):
            e = "vp_show(perm)"
        out = e if out is None else f"vp_cat({out}, {e})"
    return out or 'vp_lit("")'


SUBST = [
    (r"(?s)lazy_static::lazy_static! \{.*?\n  \}\n", "", "the lazily built pattern (its meaning is the stub's; checked by the native run)"),
    (r"RE\.captures_iter\((\w+)\)", r"vp_captures(\1)", "the matches of the pattern by their contract"),
    (r"impl Iterator<Item = Result<Replacement>> \+ '_", "Vec<Result<Replacement>>", "the returned iterator read as the vector of its elements"),
    (r"move \|", "|", "move closure read as a closure"),
    (r"&'_ str", "&str", "elided lifetime"),
    (r'(?s)format!\(\s*r#"(.*?)"#\s*\)', lambda m: fmt((None, m[1], None)), "format! with inline arguments expanded to concatenation"),
    (r'format!\(\s*"((?:[^"\\]|\\.)*)"\s*\)', lambda m: fmt((None, None, m[1])), "format! with inline arguments expanded to concatenation"),
    (r"(\w+)\.contains\(&perm\)", r"vp_one_of(\1, perm)", "slice::contains on strings by its contract"),
    (r"perm\.chars\(\)\.next\(\)\.unwrap\(\)\.to_ascii_uppercase\(\)", "vp_upper(vp_first(perm).unwrap())", "first character, upper case, by contract"),
]


def build(ctx):
    u = ctx.unit("perms")
    u.raw(STUBS)
    k = ctx.crate.find(F, "const", "VALID_PERMISSIONS")
    t = k.text()
    u._note(k, ["type `&[&str]` read as an array, the const as a let"])
    arr = re.search(r"=\s*&(\[.*?\]);", t, re.S)
    if not arr:
        import rsx
        raise rsx.Lost("VALID_PERMISSIONS is no longer an array literal")
    u.item(F, "type", "Replacement")
    u.raw(SPECS)
    u.fn(F, "parse_perms", ret="r", subst=[(r"VALID_PERMISSIONS\.", "VP_VALID.", "const read as a local")] + SUBST[:7] + [
            (r"VP_VALID\.contains\(&perm\)", "vp_one_of({ let vp_v: &[&str] = &" + arr[1] + "; vp_v }, perm)", "slice::contains on strings by its contract")] + SUBST[7:],
         spec="ensures r@.len() == hits(content@).len(), forall|i: int| 0 <= i < r@.len() ==> good(hits(content@)[i], #[trigger] r@[i])",
         closures=[dict(types=["Captures"], ret="r: Result<Replacement>", spec="ensures good(cap.h(), r)",
                        start="""    proof { broadcast use axiom_str_ext;
      reveal_strlit("read"); reveal_strlit("write"); reveal_strlit("own"); reveal_strlit("flow");
      reveal_strlit("[gained]"); reveal_strlit("[lost]"); reveal_strlit("[missing]");
    }""")])
    u.helpers()
    u.raw("} fn main() {}")
    return u


UNITS = [("perms", build)]
TRUSTED = ["regex: the successive matches of the @Perm pattern", "format! with inline arguments is concatenation; str equality is equality of characters"]
ASSUMPTIONS = []
BOUNDED = "random prose with well-formed and malformed @Perm markup against a scanner written without regular expressions"


def native_run(ctx):
    return ctx.native_crate("mdbook-aquascope", {F: [("vp_c14", "native.rs")]}, "vp_c14")
