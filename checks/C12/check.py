"""C12: annotations in a code block are cut out of the code, and each is recorded at the place it was cut from."""

F = "crates/mdbook-aquascope/src/annotations.rs"

STUBS = r"""
use std::hash::Hash;
verus! {
global size_of usize == 8;
pub struct AnyErr;
pub type Result<T> = core::result::Result<T, AnyErr>;

// ---- strings: a str is the sequence of its characters; byte offsets are opaque ------------------------------------
pub uninterp spec fn boundary(s: Seq<char>, at: int) -> bool;
/// the characters before / from a byte offset
pub uninterp spec fn upto(s: Seq<char>, at: int) -> Seq<char>;
pub uninterp spec fn after(s: Seq<char>, at: int) -> Seq<char>;
pub uninterp spec fn between(s: Seq<char>, a: int, b: int) -> Seq<char>;
pub axiom fn axiom_boundary(s: Seq<char>) ensures boundary(s, 0);
pub broadcast axiom fn axiom_between(s: Seq<char>, b: int) ensures #[trigger] between(s, 0, b) == upto(s, b);
pub open spec fn max_len() -> nat { 0x7fff_ffff_ffff_ff00 }
#[verifier::external_body]
pub fn vp_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
  requires a <= b, boundary(s@, a as int), boundary(s@, b as int) ensures r@ == between(s@, a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn vp_slice_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
  requires boundary(s@, a as int) ensures r@ == after(s@, a as int) { unimplemented!() }
#[verifier::external_body]
pub fn vp_nchars(s: &str) -> (r: usize) ensures r == s@.len() { unimplemented!() }
pub trait Pat: Sized { spec fn pat(self) -> Seq<char>; }
impl Pat for char { open spec fn pat(self) -> Seq<char> { seq![self] } }
impl<'b> Pat for &'b str { open spec fn pat(self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn vp_strip_prefix<'a, P: Pat>(s: &'a str, p: P) -> (r: Option<&'a str>)
  ensures r is Some <==> p.pat().is_prefix_of(s@), r is Some ==> r->Some_0@ == s@.skip(p.pat().len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn vp_starts_with<P: Pat>(s: &str, p: P) -> (r: bool) ensures r <==> p.pat().is_prefix_of(s@) { unimplemented!() }
pub uninterp spec fn split_once(s: Seq<char>, c: char) -> Option<(Seq<char>, Seq<char>)>;
#[verifier::external_body]
pub fn vp_split_once<'a>(s: &'a str, c: char) -> (r: Option<(&'a str, &'a str)>)
  ensures r is Some <==> split_once(s@, c) is Some,
    r is Some ==> r->Some_0.0@ == split_once(s@, c)->Some_0.0 && r->Some_0.1@ == split_once(s@, c)->Some_0.1 { unimplemented!() }
/// the nonempty parts between commas
pub uninterp spec fn items(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body]
pub fn vp_items<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures texts(r@) == items(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vp_to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// the lines of the code, numbered from 0; together with their line ends they are no longer than the code and its end
pub uninterp spec fn lines(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn total(ls: Seq<Seq<char>>, n: int) -> int decreases n { if n <= 0 { 0 } else { total(ls, n - 1) + ls[n - 1].len() + 1 } }
#[verifier::external_body]
pub fn vp_lines<'a>(s: &'a str) -> (r: Vec<(usize, &'a str)>)
  ensures r@.len() == lines(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1@ == lines(s@)[i],
    total(lines(s@), lines(s@).len() as int) <= max_len() { unimplemented!() }
pub open spec fn flat(v: Seq<&str>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + v.last()@ } }
pub open spec fn join(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() {
  if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { join(v.drop_last(), sep) + sep + v.last() }
}
pub open spec fn flats(v: Seq<Vec<&str>>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| flat(v[i]@)) }
#[verifier::external_body]
pub fn vp_join<'a>(v: Vec<Vec<&'a str>>, sep: Vec<&'a str>) -> (r: String) ensures sep@.len() == 1 ==> r@ == join(flats(v@), sep@[0]@) { unimplemented!() }

// ---- maps -----------------------------------------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K: View, V> HashMap<K, V> {
  pub uninterp spec fn m(&self) -> Map<K::V, V>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r.m() == Map::<K::V, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K, v: V) -> Option<V> ensures final(self).m() == old(self).m().insert(k@, v) { unimplemented!() }
  #[verifier::external_body]
  pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == self.m().contains_key(q@) { unimplemented!() }
  #[verifier::external_body]
  pub fn get<Q: View<V = K::V> + ?Sized>(&self, q: &Q) -> (r: Option<&V>)
    ensures r is Some <==> self.m().contains_key(q@), r is Some ==> *r->Some_0 == self.m()[q@] { unimplemented!() }
}
impl<K: View, T> HashMap<K, Vec<T>> {
  #[verifier::external_body]
  pub fn vp_entry_or_default(&mut self, k: K) -> (r: &mut Vec<T>)
    ensures final(self).m() == old(self).m().insert(k@, *final(r)),
      r@ == if old(self).m().contains_key(k@) { old(self).m()[k@]@ } else { Seq::empty() } { unimplemented!() }
}

// ---- the markers ------------------------------------------------------------------------------------------------
pub enum Kind { Interp, Stepper, Boundaries }
pub struct Mk { pub start: int, pub end: int, pub text: Seq<char>, pub interior: Seq<char>, pub kind: Kind }
pub open spec fn opener(k: Kind) -> Seq<char> { match k { Kind::Interp => "`["@, Kind::Stepper => "`("@, Kind::Boundaries => "`{"@ } }
pub open spec fn name(k: Kind) -> Seq<char> { match k { Kind::Interp => "interp"@, Kind::Stepper => "stepper"@, Kind::Boundaries => "boundaries"@ } }
/// the first marker of a line, as the pattern finds it
pub uninterp spec fn next(s: Seq<char>) -> Option<Mk>;
pub broadcast axiom fn axiom_next(s: Seq<char>)
  ensures (#[trigger] next(s)) is Some ==> {
    let m = next(s)->Some_0;
    &&& 0 <= m.start <= m.end <= usize::MAX && boundary(s, m.start) && boundary(s, m.end)
    &&& opener(m.kind).is_prefix_of(m.text)
    &&& upto(s, m.start).len() + after(s, m.end).len() < s.len()
  };
#[verifier::external_body]
pub struct Regex { p: u8 }
#[verifier::external_body]
pub struct Captures { p: u8 }
#[verifier::external_body]
pub struct Match { p: u8 }
impl Regex {
  #[verifier::external_body]
  pub fn vp_new() -> Result<Regex> { unimplemented!() }
  #[verifier::external_body]
  pub fn captures(&self, s: &str) -> (r: Option<Captures>) ensures r is Some <==> next(s@) is Some, r is Some ==> r->Some_0.m() == next(s@)->Some_0 { unimplemented!() }
}
impl Captures {
  pub uninterp spec fn m(&self) -> Mk;
  #[verifier::external_body]
  pub fn get(&self, i: usize) -> (r: Option<Match>) ensures i == 0 ==> r is Some && r->Some_0.s() == self.m().start && r->Some_0.e() == self.m().end && r->Some_0.t() == self.m().text { unimplemented!() }
  #[verifier::external_body]
  pub fn name(&self, n: &str) -> (r: Option<Match>) ensures r is Some <==> n@ == name(self.m().kind), r is Some ==> r->Some_0.t() == self.m().interior { unimplemented!() }
}
impl Match {
  pub uninterp spec fn s(&self) -> int;
  pub uninterp spec fn e(&self) -> int;
  pub uninterp spec fn t(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn start(&self) -> (r: usize) ensures r == self.s() { unimplemented!() }
  #[verifier::external_body]
  pub fn end(&self) -> (r: usize) ensures r == self.e() { unimplemented!() }
  #[verifier::external_body]
  pub fn as_str(&self) -> (r: &str) ensures r@ == self.t() { unimplemented!() }
}
"""

SPECS = r"""
impl View for MdLinePos { type V = int; open spec fn view(&self) -> int { self.0 as int } }
impl View for MdCharPos { type V = int; open spec fn view(&self) -> int { self.0 as int } }
pub enum PM { Lit(Seq<char>), Rx(Seq<char>) }
impl View for PathMatcher { type V = PM; open spec fn view(&self) -> PM { match *self { PathMatcher::Literal(s) => PM::Lit(s@), PathMatcher::Regex(s) => PM::Rx(s@) } } }
impl AquascopeAnnotations {
  #[verifier::external_body]
  pub fn default() -> (r: Self) ensures st(r) == st0() { unimplemented!() }
}
/// What is recorded, in plain mathematics.
pub struct St { pub hidden: Seq<int>, pub locs: Seq<int>, pub focus: Seq<int>, pub bounds: Seq<int>, pub paths: Map<int, Seq<PM>> }
pub open spec fn st0() -> St { St { hidden: Seq::empty(), locs: Seq::empty(), focus: Seq::empty(), bounds: Seq::empty(), paths: Map::empty() } }
pub open spec fn nums<T: View<V = int>>(v: Seq<T>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn pms(v: Seq<PathMatcher>) -> Seq<PM> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn paths(m: Map<int, Vec<PathMatcher>>) -> Map<int, Seq<PM>> { Map::new(m.dom(), |k: int| pms(m[k]@)) }
pub open spec fn st(a: AquascopeAnnotations) -> St {
  St { hidden: nums(a.hidden_lines@), locs: nums(a.interp.state_locations@), focus: nums(a.stepper.focused_lines@), bounds: nums(a.boundaries.focused_lines@), paths: paths(a.stepper.focused_paths.m()) }
}
/// `key:value` parts of a marker; a part without a colon is a key; a later part wins
pub open spec fn conf(v: Seq<Seq<char>>, n: int) -> Map<Seq<char>, Seq<char>> decreases n {
  if n <= 0 { Map::empty() } else { match split_once(v[n - 1], ':') { Some((a, b)) => conf(v, n - 1).insert(a, b), None => conf(v, n - 1).insert(v[n - 1], ""@) } }
}
pub open spec fn add_path(m: Map<int, Seq<PM>>, line: int, p: PM) -> Map<int, Seq<PM>> {
  m.insert(line, (if m.contains_key(line) { m[line] } else { Seq::empty() }).push(p))
}
/// What one marker records, found on a line (counted from 1) with `pos` characters of output before it.
pub open spec fn record(a: St, line: int, pos: int, m: Mk) -> St {
  match m.kind {
    Kind::Interp => St { locs: a.locs.push(pos), ..a },
    Kind::Boundaries => St { bounds: a.bounds.push(line), ..a },
    Kind::Stepper => {
      let c = conf(items(m.interior), items(m.interior).len() as int);
      let p = if c.contains_key("paths"@) { add_path(a.paths, line, PM::Lit(c["paths"@])) } else { a.paths };
      let p = if c.contains_key("rxpaths"@) { add_path(p, line, PM::Rx(c["rxpaths"@])) } else { p };
      St { focus: if c.contains_key("focus"@) { a.focus.push(line) } else { a.focus }, paths: p, ..a }
    },
  }
}
/// The text of a line without its markers, and what its markers record.
pub open spec fn scan(s: Seq<char>) -> Seq<char> decreases s.len() {
  match next(s) { Some(m) => if after(s, m.end).len() < s.len() { upto(s, m.start) + scan(after(s, m.end)) } else { s }, None => s }
}
pub open spec fn record_line(a: St, s: Seq<char>, line: int, pos: int) -> St decreases s.len() {
  match next(s) {
    Some(m) => if after(s, m.end).len() < s.len() { record_line(record(a, line, pos + upto(s, m.start).len(), m), after(s, m.end), line, pos + upto(s, m.start).len()) } else { a },
    None => a,
  }
}
pub open spec fn hidden(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '#' }
pub open spec fn escaped(s: Seq<char>) -> bool { s.len() > 1 && s[0] == '\\' && s[1] == '#' }
pub open spec fn cleaned(s: Seq<char>) -> Seq<char> { if hidden(s) || escaped(s) { s.skip(1) } else { scan(s) } }
pub open spec fn all_cleaned(ls: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(ls.len(), |i: int| cleaned(ls[i])) }
/// where line n of the output starts, in characters
pub open spec fn offset(ls: Seq<Seq<char>>, n: int) -> int { total(all_cleaned(ls), n) }
pub open spec fn record_all(ls: Seq<Seq<char>>, n: int) -> St decreases n {
  if n <= 0 { st0() } else {
    let a = record_all(ls, n - 1);
    let s = ls[n - 1];
    if hidden(s) { St { hidden: a.hidden.push(n), ..a } } else if escaped(s) { a } else { record_line(a, s, n, offset(ls, n - 1)) }
  }
}
pub proof fn lemma_scan_len(s: Seq<char>) ensures scan(s).len() <= s.len() decreases s.len() {
  broadcast use axiom_next;
  match next(s) { Some(m) => { lemma_scan_len(after(s, m.end)); }, None => {} }
}
pub proof fn lemma_total_le(ls: Seq<Seq<char>>, n: int) requires 0 <= n <= ls.len() ensures 0 <= offset(ls, n) <= total(ls, n), n <= total(ls, n) decreases n {
  if n > 0 { lemma_total_le(ls, n - 1); lemma_scan_len(ls[n - 1]); }
}
pub proof fn lemma_total_mono(ls: Seq<Seq<char>>, n: int, k: int) requires 0 <= n <= k <= ls.len() ensures total(ls, n) <= total(ls, k) decreases k {
  if n < k { lemma_total_mono(ls, n, k - 1); }
}
pub broadcast proof fn lemma_flat_push(v: Seq<&str>, x: &str) ensures #[trigger] flat(v.push(x)) == flat(v) + x@ {
  assert(v.push(x).drop_last() == v);
}
pub broadcast proof fn lemma_pms_push(v: Seq<PathMatcher>, x: PathMatcher) ensures #[trigger] pms(v.push(x)) == pms(v).push(x@) { assert(pms(v.push(x)) =~= pms(v).push(x@)); }
pub broadcast proof fn lemma_nums_push<T: View<V = int>>(v: Seq<T>, x: T) ensures #[trigger] nums(v.push(x)) == nums(v).push(x@) { assert(nums(v.push(x)) =~= nums(v).push(x@)); }
pub broadcast proof fn lemma_paths_insert(m: Map<int, Vec<PathMatcher>>, k: int, v: Vec<PathMatcher>) ensures #[trigger] paths(m.insert(k, v)) == paths(m).insert(k, pms(v@)) { assert(paths(m.insert(k, v)) =~= paths(m).insert(k, pms(v@))); }
pub broadcast proof fn lemma_pms_empty() ensures #[trigger] pms(Seq::empty()) == Seq::<PM>::empty() { assert(pms(Seq::empty()) =~= Seq::<PM>::empty()); }
/// The position of line i in the joined text is its offset: what the recorded positions mean.
pub proof fn lemma_position(v: Seq<Seq<char>>, i: int)
  requires 0 <= i < v.len()
  ensures join(v, "\n"@).len() == total(v, v.len() as int) - 1,
    total(v, i) + v[i].len() <= join(v, "\n"@).len(),
    join(v, "\n"@).subrange(total(v, i), total(v, i) + v[i].len()) == v[i]
  decreases v.len()
{
  reveal_strlit("\n");
  let w = v.drop_last();
  lemma_total_prefix(v, w, w.len() as int);
  assert(total(v, 1) == total(v, 0) + v[0].len() + 1);
  if v.len() > 1 {
    if i < v.len() - 1 { lemma_position(w, i); lemma_total_prefix(v, w, i); } else { lemma_position(w, 0); }
    assert(join(v, "\n"@) == join(w, "\n"@) + "\n"@ + v.last());
  }
  assert(join(v, "\n"@).subrange(total(v, i), total(v, i) + v[i].len()) =~= v[i]) by {
    if i < v.len() - 1 { 
      let a = join(v, "\n"@).subrange(total(v, i), total(v, i) + v[i].len());
      let b = join(w, "\n"@).subrange(total(w, i), total(w, i) + w[i].len());
      assert(a =~= b);
    }
  }
}
pub proof fn lemma_total_prefix(v: Seq<Seq<char>>, w: Seq<Seq<char>>, n: int) requires 0 <= n <= w.len(), n <= v.len(), forall|i: int| 0 <= i < n ==> v[i] == w[i] ensures total(v, n) == total(w, n), total(v, n) >= 0 decreases n {
  if n > 0 { lemma_total_prefix(v, w, n - 1); }
}
"""

SUBST = [
    (r"let mut (output_lines|fragments) = Vec::new\(\)", lambda m: f"let mut {m[1]}: Vec<{'Vec<&str>' if m[1] == 'output_lines' else '&str'}> = Vec::new()", "inferred type written out"),
    (r"let mut idx = 0;", "let mut idx: usize = 0;", "inferred type written out"),
    (r"let mut config = HashMap::new\(\)", "let mut config: HashMap<&str, &str> = HashMap::new()", "inferred type written out"),
    (r"(?s)let pattern = Itertools::intersperse\(.*?\.collect::<String>\(\);\s*let re = Regex::new\(&pattern\)\?;", "let re = Regex::vp_new()?;",
     "building the marker pattern (its meaning is the stub's; checked by the native run)"),
    (r"code\.lines\(\)\.enumerate\(\)", "vp_lines(code)", "numbered lines as a vector"),
    (r"(\w+)\.strip_prefix\(", r"vp_strip_prefix(\1, ", "str::strip_prefix by its contract"),
    (r"(\w+)\.starts_with\(", r"vp_starts_with(\1, ", "str::starts_with by its contract"),
    (r"(\$\w+|\w+)\.chars\(\)\.count\(\)", r"vp_nchars(\1)", "number of characters by its contract"),
    (r"&line\[([^\]]*?)\s*\.\.\s*\]", r"vp_slice_from(line, \1)", "str slicing by its contract"),
    (r"&line\[([^\]]*?)\s*\.\.\s*([^\]]+?)\]", r"vp_slice(line, \1, \2)", "str slicing by its contract"),
    (r"interior\.as_str\(\)\.split\(','\)\.filter\(\|s\| \*s != \"\"\)", "vp_items(interior.as_str())", "nonempty comma-separated parts by their contract"),
    (r"(\w+)\.split_once\(", r"vp_split_once(\1, ", "str::split_once by its contract"),
    (r"(\w+)\.to_string\(\)", r"vp_to_string(\1)", "str::to_string by its contract"),
    (r"(?s)let mut add_matcher = \|matcher: PathMatcher\| \{(.*?)\};", r"macro_rules! add_matcher { ($m:expr) => { let matcher: PathMatcher = $m; \1 ; } }", "local closure expanded in place"),
    (r"add_matcher\(", "add_matcher!(", "local closure expanded in place"),
    (r"\.entry\((\w+)\)\s*\.or_default\(\)", r".vp_entry_or_default(\1)", "entry().or_default() by its contract"),
    (r"(?s)Itertools::intersperse\(output_lines\.into_iter\(\), (vec!\[.*?\])\)\s*\.flatten\(\)\s*\.collect::<String>\(\)", r"vp_join(output_lines, \1)", "joining the fragments by its contract"),
]


def build(ctx):
    u = ctx.unit("annotations")
    u.raw(STUBS)
    u.item(F, "struct", "MdCharPos", attrs="#[derive(Copy, Clone)]")
    u.item(F, "struct", "MdLinePos", attrs="#[derive(Copy, Clone)]")
    u.item(F, "enum", "PathMatcher")
    for s in ("StepperAnnotations", "BoundariesAnnotations", "InterpAnnotations", "AquascopeAnnotations"):
        u.item(F, "struct", s)
    u.raw(SPECS)
    u.fn(F, "parse_annotations", ret="r", subst=SUBST,
         spec="""ensures r is Ok ==> {
    let ls = lines(code@);
    &&& r->Ok_0.0@ == join(all_cleaned(ls), "\\n"@)
    &&& st(r->Ok_0.1) == record_all(ls, ls.len() as int)
  }""",
         start="""  broadcast use axiom_next, axiom_between, lemma_flat_push, lemma_pms_push, lemma_nums_push, lemma_paths_insert, lemma_pms_empty;
  let ghost ls = lines(code@);
  proof { reveal_strlit("`["); reveal_strlit("`("); reveal_strlit("`{"); reveal_strlit("#"); reveal_strlit("\\\\#"); reveal_strlit("interp"); reveal_strlit("stepper"); reveal_strlit("boundaries"); reveal_strlit("\\n"); }""",
         tail="""  proof {
    assert(flats(output_lines@) =~= all_cleaned(ls));
  }""",
         loops=[
             dict(kind="for", iter="it", inv="""    invariant
      it.seq().len() == ls.len(), ls == lines(code@),
      forall|i: int| 0 <= i < ls.len() ==> (#[trigger] it.seq()[i]).0 == i && it.seq()[i].1@ == ls[i],
      total(ls, ls.len() as int) <= max_len(),
      output_lines@.len() == it.index@,
      forall|i: int| 0 <= i < it.index@ ==> flat((#[trigger] output_lines@[i])@) == cleaned(ls[i]),
      idx == offset(ls, it.index@),
      st(annots) == record_all(ls, it.index@),
      marker_interp.0@ == "`["@, marker_stepper.0@ == "`("@, marker_boundaries.0@ == "`{"@,""",
                  start="""    broadcast use axiom_next, axiom_between, lemma_flat_push, lemma_pms_push, lemma_nums_push, lemma_paths_insert, lemma_pms_empty;
    let ghost k = it.index@;
    assert(flat(Seq::<&str>::empty()) == Seq::<char>::empty());
    proof { lemma_total_le(ls, k); lemma_total_le(ls, k + 1); lemma_total_mono(ls, k + 1, ls.len() as int); lemma_scan_len(ls[k]); axiom_boundary(line@);
      reveal_strlit("`["); reveal_strlit("`("); reveal_strlit("`{"); reveal_strlit("#"); reveal_strlit("\\\\#"); reveal_strlit("interp"); reveal_strlit("stepper"); reveal_strlit("boundaries"); reveal_strlit("\\n");
      if hidden(line@) { assert(line@.subrange(0, 1) =~= seq!['#']); }
      if seq!['#'].is_prefix_of(line@) { assert(line@.subrange(0, 1)[0] == '#'); }
      assert("\\\\#"@.len() == 2); assert("#"@.len() == 1); assert("#"@ =~= seq!['#']);
      if escaped(line@) { assert(line@.subrange(0, 2) =~= "\\\\#"@); }
      if "\\\\#"@.is_prefix_of(line@) { assert(line@.subrange(0, 2)[0] == '\\\\'); assert(line@.subrange(0, 2)[1] == '#'); }
      assert(hidden(line@) <==> seq!['#'].is_prefix_of(line@));
      assert(escaped(line@) <==> "\\\\#"@.is_prefix_of(line@));
      if escaped(line@) { assert("#"@ + line@.skip(2) =~= line@.skip(1)); assert(Seq::<char>::empty() + "#"@ =~= "#"@); }
      if hidden(line@) { assert(Seq::<char>::empty() + line@.skip(1) =~= line@.skip(1)); }
    }""",
                  end="""    proof {
      if hidden(ls[k]) { assert(flat(fragments@) == cleaned(ls[k])); assert(st(annots).hidden =~= record_all(ls, k + 1).hidden); assert(st(annots) == record_all(ls, k + 1)); }
      else if escaped(ls[k]) { assert(flat(fragments@) == cleaned(ls[k]));  assert(st(annots) == record_all(ls, k + 1)); }
      else { assert(flat(fragments@) == cleaned(ls[k]));  assert(st(annots) == record_all(ls, k + 1)); }
      assert(offset(ls, k + 1) == offset(ls, k) + cleaned(ls[k]).len() + 1);
    }"""),
             dict(kind="while", inv="""      invariant
        k < ls.len(), ls[k].len() <= max_len(), line_pos@ == k + 1, !hidden(ls[k]), !escaped(ls[k]),
        offset(ls, k) + ls[k].len() <= max_len(),
        flat(fragments@) + scan(line@) == scan(ls[k]),
        idx == offset(ls, k) + flat(fragments@).len(),
        idx + line@.len() <= offset(ls, k) + ls[k].len(),
        record_line(st(annots), line@, k + 1, idx as int) == record_line(record_all(ls, k), ls[k], k + 1, offset(ls, k)),
        marker_interp.0@ == "`["@, marker_stepper.0@ == "`("@, marker_boundaries.0@ == "`{"@,
      ensures next(line@) is None,
      decreases line@.len(),""",
                  before="""      proof { assert(Seq::<char>::empty() + scan(line@) =~= scan(line@)); }""",
                  start="""        broadcast use axiom_next, axiom_between, lemma_flat_push, lemma_pms_push, lemma_nums_push, lemma_paths_insert, lemma_pms_empty;
        let ghost s0 = line@;
        let ghost f0 = flat(fragments@);
        let ghost m = next(line@)->Some_0;
        let ghost a0 = st(annots);
        let ghost p0 = idx as int;
        proof { axiom_boundary(line@);
          reveal_strlit("`["); reveal_strlit("`("); reveal_strlit("`{"); reveal_strlit("interp"); reveal_strlit("stepper"); reveal_strlit("boundaries");
          assert("`["@[1] == '[' && "`("@[1] == '(' && "`{"@[1] == '{');
        }""",
                  end="""        proof {
          assert(st(annots).paths =~= record(a0, k + 1, idx as int, m).paths);
          assert(st(annots).locs =~= record(a0, k + 1, idx as int, m).locs);
          assert(st(annots).focus =~= record(a0, k + 1, idx as int, m).focus);
          assert(st(annots).bounds =~= record(a0, k + 1, idx as int, m).bounds);
          assert(st(annots) == record(a0, k + 1, idx as int, m));
          assert(f0 + (upto(s0, m.start) + scan(line@)) =~= (f0 + upto(s0, m.start)) + scan(line@));
        }"""),
             dict(kind="for", iter="jt", inv="""          invariant
            texts(jt.seq()) == items(m.interior),
            config.m().dom() =~= conf(items(m.interior), jt.index@).dom(),
            forall|q: Seq<char>| #[trigger] config.m().contains_key(q) ==> config.m()[q]@ == conf(items(m.interior), jt.index@)[q],""",
                  start="let ghost j = jt.index@; proof { assert(texts(jt.seq())[j] == items(m.interior)[j]); }"),
         ])
    u.helpers()
    u.raw("} fn main() {}")
    return u


UNITS = [("annotations", build)]
TRUSTED = ["str: lines, strip_prefix, starts_with, split, split_once, slicing at byte offsets, as contracts over character sequences",
           "regex: the leftmost marker of a line, between byte offsets that are character boundaries"]
ASSUMPTIONS = ["the code is shorter than 2^63 bytes"]
BOUNDED = "random code blocks, with multi-byte characters, against a scanner written without regular expressions"


def native_run(ctx):
    return ctx.native_crate("mdbook-aquascope", {F: [("vp_c12", "native.rs")]}, "vp_c12")
