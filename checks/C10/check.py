"""C10: the step tables shown per line are exactly the recorded changes, combined."""
import iters
import maps

F = "crates/aquascope/src/analysis/stepper/table_builder.rs"
M = "crates/aquascope/src/analysis/stepper/mod.rs"
A = "crates/aquascope/src/analysis/mod.rs"

BASE = maps.USE + "verus! {\n" + r"""
global size_of usize == 8;
broadcast use vstd::std_specs::hash::group_hash_axioms;
""" + maps.key("Local") + r"""
impl Local { pub uninterp spec fn ix(&self) -> usize; #[verifier::external_body] pub fn as_usize(&self) -> (r: usize) ensures r == self.ix() { unimplemented!() } }
#[derive(Copy, Clone)]
pub struct Elems<'tcx> { pub e: &'tcx [u64] }
impl<'tcx> Elems<'tcx> { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.e@.len() { unimplemented!() } }
""" + maps.key("Place", decl="#[derive(Copy, Clone)]\npub struct Place<'tcx> { pub local: Local, pub projection: Elems<'tcx> }", lifetime=True) + maps.key("Location") + r"""
#[derive(Copy, Clone)]
pub struct Span { pub x: u64 }
pub uninterp spec fn lo_of(s: Span) -> u32;
pub uninterp spec fn hi_of(s: Span) -> u32;
pub uninterp spec fn local_part(s: Span, outer: Span) -> Option<Span>;
pub uninterp spec fn end_of(s: Span) -> Span;
pub uninterp spec fn whole_line(s: Span) -> Span;
pub uninterp spec fn line_of(p: u32) -> usize;
impl Span {
  #[verifier::external_body] pub fn lo(self) -> (r: u32) ensures r == lo_of(self) { unimplemented!() }
  #[verifier::external_body] pub fn hi(self) -> (r: u32) ensures r == hi_of(self) { unimplemented!() }
  #[verifier::external_body] pub fn as_local(self, outer: Span) -> (r: Option<Span>) ensures r == local_part(self, outer) { unimplemented!() }
  #[verifier::external_body] pub fn shrink_to_hi(self) -> (r: Span) ensures r == end_of(self), lo_of(r) == hi_of(self), hi_of(r) == hi_of(self) { unimplemented!() }
}
pub struct SourceMap { pub x: u64 }
pub struct SourceLine { pub line: usize }
impl SourceMap {
  #[verifier::external_body] pub fn span_extend_to_line(&self, s: Span) -> (r: Span) ensures r == whole_line(s) { unimplemented!() }
  #[verifier::external_body] pub fn lookup_line(&self, p: u32) -> (r: core::result::Result<SourceLine, u8>) ensures r is Ok, r->Ok_0.line == line_of(p) { unimplemented!() }
}
pub struct Session { pub x: u64 }
impl Session { #[verifier::external_body] pub fn source_map(&self) -> &SourceMap { unimplemented!() } }
#[derive(Copy, Clone)]
pub struct TyCtxt<'tcx> { pub sess: &'tcx Session }
pub struct Body<'tcx> { pub span: Span, pub x: &'tcx u8 }
/// the place stands for something written in the source
pub uninterp spec fn visible<'tcx>(p: Place<'tcx>, b: &Body<'tcx>) -> bool;
/// how the source writes the place, if it does
pub uninterp spec fn written<'tcx>(p: Place<'tcx>, b: &Body<'tcx>) -> Option<String>;
impl<'tcx> Place<'tcx> {
  #[verifier::external_body] pub fn is_source_visible(&self, tcx: TyCtxt<'tcx>, b: &Body<'tcx>) -> (r: bool) ensures r == visible(*self, b) { unimplemented!() }
  #[verifier::external_body] pub fn to_string(&self, tcx: TyCtxt<'tcx>, b: &Body<'tcx>) -> (r: Option<String>) ensures r == written(*self, b) { unimplemented!() }
}
pub struct DefId { pub x: u64 }
pub struct LocalDefId { pub x: u64 }
impl DefId { #[verifier::external_body] pub fn expect_local(&self) -> (r: LocalDefId) ensures r.x == self.x { unimplemented!() } }
/// where the first error of the body is (C11)
pub uninterp spec fn first_error(d: u64) -> Option<Span>;
pub mod errors { use super::*;
  verus! { #[verifier::external_body] pub fn get_span_of_first_error(d: LocalDefId) -> (r: Option<Span>) ensures r == first_error(d.x) { unimplemented!() } }
}
#[derive(Copy, Clone)]
pub struct CharRange { pub x: u64 }
pub struct BodyWithFacts<'tcx> { pub body: Body<'tcx> }
pub struct PermissionsCtxt<'tcx> { pub tcx: TyCtxt<'tcx>, pub body_with_facts: &'tcx BodyWithFacts<'tcx>, pub def_id: DefId }
pub uninterp spec fn span_at(l: Location) -> Span;
impl<'tcx> PermissionsCtxt<'tcx> { #[verifier::external_body] pub fn location_to_span(&self, l: Location) -> (r: Span) ensures r == span_at(l) { unimplemented!() } }
pub uninterp spec fn chars_of(s: Span) -> CharRange;
pub struct AquascopeAnalysis<'tcx> { pub permissions: PermissionsCtxt<'tcx> }
impl<'tcx> AquascopeAnalysis<'tcx> {
  #[verifier::external_body] pub fn span_to_range(&self, s: Span) -> (r: CharRange) ensures r == chars_of(s) { unimplemented!() }
  pub open spec fn body(&self) -> &Body<'tcx> { &self.permissions.body_with_facts.body }
}
#[verifier::external_body]
pub fn vp_text(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vp_nowhere() -> CharRange { unimplemented!() }
/// the order a hash map happens to list its entries in
pub uninterp spec fn order<K, V>(m: Map<K, V>) -> Seq<(K, V)>;
pub axiom fn axiom_order<K, V>(m: Map<K, V>)
  ensures (forall|i: int| 0 <= i < (#[trigger] order(m)).len() ==> m.contains_key((#[trigger] order(m)[i]).0) && m[order(m)[i].0] == order(m)[i].1),
    forall|i: int, j: int| 0 <= i < j < order(m).len() ==> (#[trigger] order(m)[i]).0 != (#[trigger] order(m)[j]).0,
    forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < order(m).len() && (#[trigger] order(m)[i]).0 == k;
impl<K, V> IntoIt for HashMap<K, V> { type Item = (K, V); open spec fn seq(&self) -> Seq<(K, V)> { order(self@) } #[verifier::external_body] fn vp_into(self) -> It<(K, V)> { unimplemented!() } }
pub trait Listed { type T; spec fn ls(&self) -> Seq<Self::T>; fn vp_vec(self) -> (r: Vec<Self::T>) where Self: Sized ensures r@ == self.ls(); }
impl<K, V> Listed for HashMap<K, V> { type T = (K, V); open spec fn ls(&self) -> Seq<(K, V)> { order(self@) } #[verifier::external_body] fn vp_vec(self) -> Vec<(K, V)> { unimplemented!() } }
impl<T> Listed for Vec<T> { type T = T; open spec fn ls(&self) -> Seq<T> { self@ } fn vp_vec(self) -> Vec<T> { self } }
pub broadcast axiom fn axiom_pair_order(a: (usize, usize), b: (usize, usize))
  ensures #[trigger] OrdSpec::cmp_spec(&a, &b) == (if a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater });
"""

DIFFS = r"""
pub open spec fn opposite<A>(a: ValueStep<A>, b: ValueStep<A>) -> bool { (a is High && b is Low) || (a is Low && b is High) || (a is None && b is None) }
pub open spec fn nothing(d: PermissionsDataDiff) -> bool { d.permissions.read is None && d.permissions.write is None && d.permissions.drop is None }
pub open spec fn cancels(a: PermissionsDataDiff, b: PermissionsDataDiff) -> bool { opposite(a.permissions.read, b.permissions.read) && opposite(a.permissions.write, b.permissions.write) && opposite(a.permissions.drop, b.permissions.drop) }
"""

SHOWN = r"""
pub type Row<'tcx> = (Place<'tcx>, PermissionsDataDiff);
pub type Part<'tcx> = (MirSegment, Span, Seq<Row<'tcx>>);
pub type Entry_<'tcx> = (MirSegment, Span, Vec<Row<'tcx>>);
pub open spec fn entry<'tcx>(e: Entry_<'tcx>) -> Part<'tcx> { (e.0, e.1, e.2@) }
pub open spec fn parts_of<'tcx>(v: Seq<Entry_<'tcx>>) -> Seq<Part<'tcx>> { Seq::new(v.len(), |i: int| entry(v[i])) }
pub open spec fn keep(d: PermissionsDataDiff, mode: PermIncludeMode) -> bool { !(d.is_live == (ValueStep::None { value: Some(false) }) || (mode is Changes && nothing(d))) }
/// The rows of a recorded step that are shown: source-visible places whose change is wanted.
pub open spec fn rows<'tcx>(t: Table<'tcx>, b: &Body<'tcx>, mode: PermIncludeMode) -> Seq<Row<'tcx>> {
  let o = order(t.data@); vp_pick(o, Seq::new(o.len(), |i: int| visible(o[i].0, b) && keep(o[i].1, mode)))
}
/// a step is drawn at the end of its line
pub open spec fn drawn(t: Table) -> Span { end_of(whole_line(t.span)) }
/// A step is shown if it has a row and does not start after the first error.
pub open spec fn part<'tcx>(t: Table<'tcx>, b: &Body<'tcx>, mode: PermIncludeMode, err: Option<Span>) -> Option<Part<'tcx>> {
  let r = rows(t, b, mode);
  if r.len() == 0 || (err is Some && hi_of(err->Some_0) < lo_of(drawn(t))) { None } else { Some((t.segment, drawn(t), r)) }
}
pub open spec fn tables<'tcx>(m: Map<Location, Vec<Table<'tcx>>>) -> Seq<Table<'tcx>> { upto(order(m), order(m).len() as int) }
pub open spec fn upto<'tcx>(o: Seq<(Location, Vec<Table<'tcx>>)>, n: int) -> Seq<Table<'tcx>> decreases n { if n <= 0 { Seq::empty() } else { upto(o, n - 1) + o[n - 1].1@ } }
pub open spec fn line(t: Table) -> usize { line_of(hi_of(drawn(t))) }
/// The steps shown on a line, in the order they were recorded.
pub open spec fn on_line<'tcx>(t: Seq<Table<'tcx>>, l: usize, b: &Body<'tcx>, mode: PermIncludeMode, err: Option<Span>) -> Seq<Part<'tcx>> decreases t.len() {
  if t.len() == 0 { Seq::empty() } else {
    let r = on_line(t.drop_last(), l, b, mode, err);
    match part(t.last(), b, mode, err) { Some(p) if line(t.last()) == l => r.push(p), _ => r }
  }
}
pub open spec fn grouped<'tcx>(m: Map<usize, Vec<Entry_<'tcx>>>, t: Seq<Table<'tcx>>, b: &Body<'tcx>, mode: PermIncludeMode, err: Option<Span>) -> bool {
  forall|l: usize| (#[trigger] m.contains_key(l) <==> on_line(t, l, b, mode, err).len() > 0) && (m.contains_key(l) ==> parts_of(m[l]@) == on_line(t, l, b, mode, err))
}
/// One more change of a place on the line: shown if there was none, and if it takes back the one there, neither is.
pub open spec fn with<'tcx>(m: Map<Place<'tcx>, PermissionsDataDiff>, r: Row<'tcx>) -> Map<Place<'tcx>, PermissionsDataDiff> {
  if !m.contains_key(r.0) { m.insert(r.0, r.1) } else if cancels(r.1, m[r.0]) { m.remove(r.0) } else { m }
}
pub open spec fn with_rows<'tcx>(m: Map<Place<'tcx>, PermissionsDataDiff>, r: Seq<Row<'tcx>>) -> Map<Place<'tcx>, PermissionsDataDiff> decreases r.len() {
  if r.len() == 0 { m } else { with(with_rows(m, r.drop_last()), r.last()) }
}
pub open spec fn combined<'tcx>(p: Seq<Part<'tcx>>) -> Map<Place<'tcx>, PermissionsDataDiff> decreases p.len() {
  if p.len() == 0 { Map::empty() } else { with_rows(combined(p.drop_last()), p.last().2) }
}
pub open spec fn named<'tcx>(r: Row<'tcx>, b: &Body<'tcx>, s: (String, PermissionsDataDiff)) -> bool { s.1 == r.1 && match written(r.0, b) { Some(w) => s.0 == w, None => s.0@ == "<var>"@ } }
pub open spec fn key(p: Place) -> (usize, usize) { (p.local.ix(), p.projection.e@.len() as usize) }
pub open spec fn key_le(a: (usize, usize), b: (usize, usize)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 <= b.1) }
pub open spec fn listed<'tcx>(s: Seq<Row<'tcx>>, m: Map<Place<'tcx>, PermissionsDataDiff>) -> bool {
  s.to_multiset() == order(m).to_multiset() && forall|i: int, j: int| 0 <= i < j < s.len() ==> key_le(key((#[trigger] s[i]).0), key((#[trigger] s[j]).0))
}
/// What is shown for a line: nothing if everything cancelled, else one table of the combined changes, by variable and then by depth.
pub open spec fn displays<'tcx>(a: &AquascopeAnalysis<'tcx>, p: Seq<Part<'tcx>>, d: Option<PermissionsLineDisplay>) -> bool {
  let m = combined(p);
  if m.dom() =~= Set::empty() { d is None } else {
    &&& d is Some && d->Some_0.location == chars_of(p[0].1) && d->Some_0.state@.len() == 1
    &&& exists|s: Seq<Row<'tcx>>| #[trigger] listed(s, m) && d->Some_0.state@[0].state@.len() == s.len()
      && forall|i: int| 0 <= i < s.len() ==> named(#[trigger] s[i], a.body(), d->Some_0.state@[0].state@[i])
    &&& d->Some_0.state@[0].from == chars_of(span_at(p[0].0.from)) && d->Some_0.state@[0].to == chars_of(span_at(p[0].0.to))
  }
}
pub open spec fn errored<'tcx>(a: &AquascopeAnalysis<'tcx>) -> Option<Span> {
  match first_error(a.permissions.def_id.x) { Some(s) => local_part(s, a.body().span), None => None }
}
pub open spec fn rendered<'tcx>(a: &AquascopeAnalysis<'tcx>, t: Seq<Table<'tcx>>, mode: PermIncludeMode, r: Seq<PermissionsLineDisplay>) -> bool {
  exists|m: Map<usize, Vec<Entry_<'tcx>>>, o: Seq<Option<PermissionsLineDisplay>>| #[trigger] grouped(m, t, a.body(), mode, errored(a)) && r == #[trigger] vp_somes(o)
    && o.len() == order(m).len() && forall|i: int| 0 <= i < o.len() ==> displays(a, on_line(t, order(m)[i].0, a.body(), mode, errored(a)), #[trigger] o[i])
}
pub proof fn lemma_grouped<'tcx>(m: Map<usize, Vec<Entry_<'tcx>>>, m2: Map<usize, Vec<Entry_<'tcx>>>, t: Seq<Table<'tcx>>, x: Table<'tcx>, b: &Body<'tcx>, mode: PermIncludeMode, err: Option<Span>)
  requires grouped(m, t, b, mode, err),
    part(x, b, mode, err) is None ==> m2 == m,
    part(x, b, mode, err) is Some ==> m2.dom() =~= m.dom().insert(line(x)) && (forall|l: usize| #[trigger] m.contains_key(l) && l != line(x) ==> m2[l] == m[l])
      && parts_of(m2[line(x)]@) == (if m.contains_key(line(x)) { parts_of(m[line(x)]@) } else { Seq::empty() }).push(part(x, b, mode, err)->Some_0),
  ensures grouped(m2, t.push(x), b, mode, err)
{
  assert(t.push(x).drop_last() =~= t);
  assert forall|l: usize| (#[trigger] m2.contains_key(l) <==> on_line(t.push(x), l, b, mode, err).len() > 0) && (m2.contains_key(l) ==> parts_of(m2[l]@) == on_line(t.push(x), l, b, mode, err)) by {
    assert(m.contains_key(l) <==> on_line(t, l, b, mode, err).len() > 0);
    assert(on_line(t.push(x), l, b, mode, err) == match part(x, b, mode, err) { Some(p) if line(x) == l => on_line(t, l, b, mode, err).push(p), _ => on_line(t, l, b, mode, err) });
    if part(x, b, mode, err) is Some && line(x) == l { if !m.contains_key(l) { assert(on_line(t, l, b, mode, err) =~= Seq::empty()); } }
  }
}
"""


def steps_items(u):
    u.item(M, "enum", "ValueStep", attrs="#[derive(Copy, Clone)]")
    u.item(M, "enum", "PermIncludeMode", attrs="#[derive(Copy, Clone, PartialEq, Eq, Structural)]")
    u.raw("} // verus\n")
    u.item(M, "macro", "make_diff", subst=[
        (r"#\[derive\([^\]]*\)\]", "#[derive(Copy, Clone)]", "derives"), (r"#\[ts\(export\)\]", "", "attribute"),
        (r"fn is_empty\(&self\) -> bool \{", "pub fn is_empty(&self) -> (r: bool) ensures r == (true $( && self.$i is None )*) {", "contract"),
        (r"(?s)=> \{(.*)\}\s*\}\s*$", r"=> { verus! {\1} } }", "the expansion is put inside verus!"),
    ])
    u.item(M, "macrocall", "make_diff")
    u.raw("verus! {\n")
    u.item(M, "struct", "PermissionsDataDiff", attrs="#[derive(Copy, Clone)]")
    u.item(M, "struct", "PermissionsStepTable")
    u.item(M, "struct", "PermissionsLineDisplay")
    u.item(M, "struct", "MirSegment", attrs="#[derive(Copy, Clone)]")


def table(ctx):
    u = ctx.unit("table")
    u.raw(BASE + iters.STUBS)
    u.item(A, "struct", "LoanKey", attrs="#[derive(Copy, Clone)]")
    u.item(A, "struct", "MoveKey", attrs="#[derive(Copy, Clone)]")
    u.raw("pub trait Stepable {} impl<A> Stepable for A {}")
    steps_items(u)
    PUB = [(r"pub\(super\)", "pub", "visibility")]
    u.item(F, "struct", "Table", subst=PUB)
    u.item(F, "type", "Tables", subst=PUB)
    u.raw(DIFFS + SHOWN)
    u.impl(M, "ValueStep", None, {
        "is_empty": dict(ret="r", spec="ensures r == (self is None)"),
        "is_symmetric_diff": dict(ret="r", spec="ensures r == opposite(*self, *rhs)")})
    u.impl(M, "PermissionsDataDiff", None, {
        "is_empty": dict(ret="r", spec="ensures r == nothing(*self)"),
        "is_symmetric_diff": dict(ret="r", spec="ensures r == cancels(*self, *rhs)")})
    LOOP = [(r"pub\(super\)", "pub", "visibility"), (r"\bin (\w+:\s*)?(\w+)\.into_iter\(\)(?=\s*(invariant|\{))", r"in \1\2.vp_vec()", "loop over what the collection lists"),
            (r"\.or_default\(\)", ".or_insert(Vec::new())", "or_default read as inserting the empty vector"),
            (r"DUMMY_CHAR_RANGE\.with\(\|range\| \*range\)", "vp_nowhere()", "thread-local constant by contract"),
            (r"\.unwrap_or_else\(\|\| String::from\((\"[^\"]*\")\)\)", r".unwrap_or(vp_text(\1))", "default made eagerly"),
            (r"matches!\(p\.is_live, ValueStep::None \{ value: Some\(false\) \}\)", "(match p.is_live { ValueStep::None { value: Some(false) } => true, _ => false })", "matches! expanded")]
    u.fn(F, "prettify_permission_steps", ret="r", subst=LOOP + iters.SUBST + [
             (r"semi_filtered(\s*\.vp_into\(\)\s*\.filter_map)", r"let ghost mf = semi_filtered@; let vp_it = semi_filtered\1", "iterator named for the proof"),
             (r"(?s)\n(\s*)\.collect::<Vec<_>>\(\)\s*\}\s*$", r''';
  proof { axiom_order(mf); let o = vp_it.opts(); let err = first_error_span_opt;
    assert(grouped(mf, tables(perm_steps@), body, mode, err));
    assert forall|i: int| 0 <= i < o.len() implies displays(analysis, on_line(tables(perm_steps@), order(mf)[i].0, body, mode, err), #[trigger] o[i]) by {
      assert(mf.contains_key(order(mf)[i].0)); assert(parts_of(order(mf)[i].1@) == on_line(tables(perm_steps@), order(mf)[i].0, body, mode, err)); }
  }
  vp_it.collect::<Vec<_>>() }''', "iterator named for the proof")],
         spec="ensures rendered(analysis, tables(perm_steps@), mode, r@)",
         start="  broadcast use {group_vp_ext, place_is_key, location_is_key, group_hash_axioms};",
         tail_continue=True,
         at=[(r"if !\(entries\.is_empty", "before", """proof { assert(data@ == t.data@ && segment == t.segment && span == drawn(t)); assert(entries@ =~= rows(t, body, mode)); }"""),
             (r"if combined_table\.is_empty", "before", "proof { assert(ps.take(ps.len() as int) =~= ps); }"),
             (r"Some\(PermissionsLineDisplay \{", "before", """proof { let m = combined_table@;
        assert(listed(sorted, m)) by { assert forall|i: int, j: int| 0 <= i < j < sorted.len() implies key_le(key((#[trigger] sorted[i]).0), key((#[trigger] sorted[j]).0)) by {} } }"""),
             (r"let master_table = ", "before", "let ghost sorted = master_table_vec@;")],
         closures=[
                   dict(ret="r: bool", spec="ensures r == keep(*p, mode)"),
                   None,
                   dict(types=["Span"], ret="r: Option<Span>", spec="ensures r == local_part(s, ctxt.body_with_facts.body.span)"),
                   dict(types=["&Row<'tcx>"], ret="r: bool", spec="ensures r == (visible(vp_c0.0, body) && keep(vp_c0.1, mode))"),
                   dict(types=["Span"], ret="r: bool", spec="ensures r == (hi_of(err_span) < lo_of(span))"),
                   dict(types=["(usize, Vec<Entry_<'tcx>>)"], ret="r: Option<PermissionsLineDisplay>", spec="ensures displays(analysis, parts_of(vp_c0.1@), r)",
                        start="broadcast use {group_vp_ext, place_is_key, location_is_key, group_hash_axioms, axiom_pair_order}; let ghost ps = vp_c0.1@;"),
                   None,
                   dict(ret="r: (CharRange, CharRange, CharRange)", spec=""),
                   dict(types=["&Entry_<'tcx>"], ret="r: (CharRange, CharRange, CharRange)", spec="ensures r.0 == chars_of(span_at(vp_c0.0.from)), r.1 == chars_of(span_at(vp_c0.0.to)), r.2 == chars_of(vp_c0.1)"),
                   dict(types=["&Row<'tcx>"], ret="r: (usize, usize)", spec="ensures r == key(vp_c0.0)"),
                   dict(types=["Row<'tcx>"], ret="r: (String, PermissionsDataDiff)", spec="ensures named(vp_c0, body, r)")],
         loops=[dict(kind="for", iter="a", inv="""    invariant a.seq() == order(perm_steps@), grouped(semi_filtered@, upto(order(perm_steps@), a.index@), body, mode, first_error_span_opt),
      forall|p: &PermissionsDataDiff| call_requires(should_keep, (p,)), forall|p: &PermissionsDataDiff, r: bool| call_ensures(should_keep, (p,), r) ==> r == keep(*p, mode),""",
                     start="    let ghost done = upto(order(perm_steps@), a.index@); let ghost vs = v@; proof { assert(done + vs.take(0) =~= done); }",
                     end="    proof { assert(done + vs.take(vs.len() as int) =~= upto(order(perm_steps@), a.index@ + 1)); }"),
                dict(kind="for", iter="b", inv="""      invariant b.seq() == vs, grouped(semi_filtered@, done + vs.take(b.index@), body, mode, first_error_span_opt),
        forall|p: &PermissionsDataDiff| call_requires(should_keep, (p,)), forall|p: &PermissionsDataDiff, r: bool| call_ensures(should_keep, (p,), r) ==> r == keep(*p, mode),""",
                     start="      broadcast use {group_vp_ext, place_is_key, location_is_key, group_hash_axioms}; let ghost t = vs[b.index@]; let ghost m0 = semi_filtered@; let ghost t0 = done + vs.take(b.index@);",
                     end="""      proof { assert(t0.push(t) =~= done + vs.take(b.index@ + 1));
        if part(t, body, mode, first_error_span_opt) is Some { let l = line(t); assert(semi_filtered@.contains_key(l));
          assert(parts_of(semi_filtered@[l]@) =~= (if m0.contains_key(l) { parts_of(m0[l]@) } else { Seq::empty() }).push(part(t, body, mode, first_error_span_opt)->Some_0)); }
        lemma_grouped(m0, semi_filtered@, t0, t, body, mode, first_error_span_opt); }"""),
                dict(kind="for", iter="c", inv="""        invariant c.seq() == ps, combined_table@ == combined(parts_of(ps.take(c.index@))),""",
                     start="        let ghost ds = diffs@; let ghost m0 = combined_table@; proof { assert(ds.take(0) =~= Seq::empty()); }",
                     end="        proof { assert(ds.take(ds.len() as int) =~= ds); assert(parts_of(ps.take(c.index@ + 1)).drop_last() =~= parts_of(ps.take(c.index@))); }"),
                dict(kind="for", iter="d", inv="""          invariant d.seq() == ds, combined_table@ == with_rows(m0, ds.take(d.index@)),""",
                     start="          broadcast use {group_vp_ext, place_is_key, location_is_key, group_hash_axioms}; proof { assert(ds.take(d.index@ + 1).drop_last() =~= ds.take(d.index@)); }",
                     )],
         )
    u.helpers()
    u.raw("} fn main() {}")
    return u



TREE = maps.key("ScopeId") + r"""
#[derive(Copy, Clone)] pub struct SegmentId { pub x: usize }
#[derive(Copy, Clone)] pub struct BranchId { pub x: usize }
#[derive(Copy, Clone)] pub struct CollectionId { pub x: usize }
#[derive(Copy, Clone)] pub struct TableId { pub x: usize }
#[derive(Copy, Clone)] pub struct LengthKind { pub x: u64 }
/// a set of locals
#[verifier::external_body] pub struct LSet { x: u8 }
impl View for LSet { type V = Set<Local>; uninterp spec fn view(&self) -> Set<Local>; }
impl LSet { #[verifier::external_body] pub fn contains(&self, l: &Local) -> (r: bool) ensures r == self@.contains(*l) { unimplemented!() } }
impl FromIt<Local> for LSet { open spec fn holds(&self, s: Seq<Local>) -> bool { self@ == s.to_set() } }
pub open spec fn derefs<'a>(s: Seq<&'a Local>) -> Seq<Local> { Seq::new(s.len(), |i: int| *s[i]) }
pub broadcast proof fn lemma_derefs(s: Seq<Local>) ensures #[trigger] derefs(vp_refs::<Local>(s)) == s { assert(derefs(vp_refs::<Local>(s)) =~= s); }
impl<'a> FromIt<&'a Local> for LSet { open spec fn holds(&self, s: Seq<&'a Local>) -> bool { self@ == derefs(s).to_set() } }
impl<'a, T> It<&'a Vec<T>> { #[verifier::external_body] pub fn flatten(self) -> (r: It<&'a T>) ensures r.s() == vp_flat(Seq::new(self.s().len(), |i: int| vp_refs::<T>(self.s()[i]@))) { unimplemented!() } }
pub trait OrNone { type T; spec fn it(&self) -> Seq<Self::T>; fn vp_or_none(self) -> (r: It<Self::T>) ensures r.s() == self.it(); }
impl<T> OrNone for Option<It<T>> { type T = T; open spec fn it(&self) -> Seq<T> { match *self { Some(i) => i.s(), None => Seq::empty() } } #[verifier::external_body] fn vp_or_none(self) -> It<T> { unimplemented!() } }
/// what extract_if takes out of a map
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct Taken<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> Taken<K, V> { pub uninterp spec fn m(&self) -> Map<K, V>; pub uninterp spec fn f(&self) -> Set<K>; #[verifier::external_body] pub fn collect<C: FromTaken<K, V>>(self) -> (r: C) ensures r.has(self.m()) { unimplemented!() } }
pub trait FromTaken<K, V>: Sized { spec fn has(&self, m: Map<K, V>) -> bool; }
impl<K, V> FromTaken<K, V> for Vec<(K, V)> { open spec fn has(&self, m: Map<K, V>) -> bool { true } }
impl<K, V> FromTaken<K, V> for HashMap<K, V> { open spec fn has(&self, m: Map<K, V>) -> bool { self@ == m } }
pub trait Extract<K, V>: View<V = Map<K, V>> {
  fn vp_extract_if<F: Fn(&K) -> bool>(&mut self, f: F) -> (r: Taken<K, V>)
    requires forall|k: K| old(self)@.contains_key(k) ==> call_requires(f, (&k,)),
    ensures forall|k: K| #[trigger] old(self)@.contains_key(k) ==> call_ensures(f, (&k,), r.f().contains(k)),
      final(self)@ == old(self)@.remove_keys(r.f()), r.m() == old(self)@.restrict(r.f());
}
impl<K, V> Extract<K, V> for HashMap<K, V> { #[verifier::external_body] fn vp_extract_if<F: Fn(&K) -> bool>(&mut self, f: F) -> Taken<K, V> { unimplemented!() } }
pub trait Extend_<K, V>: View<V = Map<K, V>> { fn vp_extend(&mut self, o: HashMap<K, V>) ensures final(self)@ == old(self)@.union_prefer_right(o@); }
impl<K, V> Extend_<K, V> for HashMap<K, V> { #[verifier::external_body] fn vp_extend(&mut self, o: HashMap<K, V>) { unimplemented!() } }
#[verifier::external_body] pub fn vp_append<T>(v: &mut Vec<T>, o: Vec<T>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }
#[derive(Copy, Clone)] pub struct Point { pub x: u64 }
/// the permissions of every place at a point (C02), and the change from one point to another (C03)
#[verifier::external_body] pub struct PermissionsDomain<'tcx> { x: &'tcx u8 }
pub uninterp spec fn point_of(l: Location) -> Point;
pub uninterp spec fn state_at<'tcx>(p: Point) -> PermissionsDomain<'tcx>;
pub uninterp spec fn bottom<'tcx>() -> PermissionsDomain<'tcx>;
pub uninterp spec fn change<'tcx>(a: PermissionsDomain<'tcx>, b: PermissionsDomain<'tcx>) -> Map<Place<'tcx>, PermissionsDataDiff>;
pub open spec fn changed<'tcx>(s: MirSegment) -> Map<Place<'tcx>, PermissionsDataDiff> { change(state_at(point_of(s.from)), state_at(point_of(s.to))) }
impl<'tcx> PermissionsDomain<'tcx> { #[verifier::external_body] pub fn diff(&self, o: &PermissionsDomain<'tcx>) -> (r: HashMap<Place<'tcx>, PermissionsDataDiff>) ensures r@ == change(*self, *o) { unimplemented!() } }
impl<'tcx> PermissionsCtxt<'tcx> {
  #[verifier::external_body] pub fn location_to_point(&self, l: Location) -> (r: Point) ensures r == point_of(l) { unimplemented!() }
  #[verifier::external_body] pub fn permissions_domain_at_point(&self, p: Point) -> (r: PermissionsDomain<'tcx>) ensures r == state_at::<'tcx>(p) { unimplemented!() }
  #[verifier::external_body] pub fn domain_bottom(&self) -> (r: PermissionsDomain<'tcx>) ensures r == bottom::<'tcx>() { unimplemented!() }
}
/// from where it starts to the end of where it ends
pub uninterp spec fn with_end(s: Span, hi: u32) -> Span;
pub open spec fn around(s: MirSegment) -> Span { with_end(span_at(s.from), hi_of(span_at(s.to))) }
impl Span { #[verifier::external_body] pub fn with_hi(self, h: u32) -> (r: Span) ensures r == with_end(self, h) { unimplemented!() } }
pub uninterp spec fn start_of(s: Span) -> Span;
impl Span { #[verifier::external_body] pub fn shrink_to_lo(self) -> (r: Span) ensures r == start_of(self) { unimplemented!() } }
"""

INDEXED = r"""
/// a vector indexed by its own kind of number
pub trait Ix { spec fn n(&self) -> int; }
impl Ix for SegmentId { open spec fn n(&self) -> int { self.x as int } }
impl Ix for BranchId { open spec fn n(&self) -> int { self.x as int } }
impl Ix for CollectionId { open spec fn n(&self) -> int { self.x as int } }
#[verifier::reject_recursive_types(I)] pub struct IndexVec<I, T> { pub v: Vec<T>, pub i: core::marker::PhantomData<I> }
pub type Frozen<T> = T;
impl<I: Ix, T> IndexVec<I, T> { #[verifier::external_body] pub fn vp_at(&self, i: I) -> (r: &T) requires 0 <= i.n() < self.v@.len(), ensures *r == self.v@[i.n()] { unimplemented!() } }
/// which scopes enclose which
#[verifier::external_body] #[verifier::reject_recursive_types(I)] pub struct TransitiveRelation<I> { x: core::marker::PhantomData<I> }
impl<I> TransitiveRelation<I> { pub uninterp spec fn from(&self, s: I) -> Seq<I>; #[verifier::external_body] pub fn reachable_from(&self, s: I) -> (r: Vec<I>) ensures r@ == self.from(s) { unimplemented!() } }
"""

MIR_TREE = r"""
/// the segments, branches and nested collections the stepper made of the body (C09)
impl SegmentedMir {
  pub open spec fn cols(&self) -> Seq<Collection> { self.collections.v@ }
  pub open spec fn brs(&self) -> Seq<BranchData> { self.branches.v@ }
  pub open spec fn segs(&self) -> Seq<SegmentData> { self.segments.v@ }
  pub open spec fn above(&self, s: ScopeId) -> Seq<ScopeId> { self.scopes.from(s) }
  /// collections nest downwards
  pub open spec fn wf(&self) -> bool {
    &&& forall|c: int, i: int| 0 <= c < self.cols().len() && 0 <= i < self.cols()[c].data@.len() ==> self.fits(c, #[trigger] self.cols()[c].data@[i])
  }
  pub open spec fn fits(&self, c: int, p: CFKind) -> bool {
    match p { CFKind::Linear(s) => s.x < self.segs().len(),
      CFKind::Branch(b) => b.x < self.brs().len()
        && (forall|i: int| 0 <= i < self.brs()[b.x as int].splits@.len() ==> (#[trigger] self.brs()[b.x as int].splits@[i]).x < self.segs().len())
        && (forall|i: int| 0 <= i < self.brs()[b.x as int].nested@.len() ==> c < (#[trigger] self.brs()[b.x as int].nested@[i]).x < self.cols().len()) }
  }
}
pub type Rec<'tcx> = (MirSegment, Span, Map<Place<'tcx>, PermissionsDataDiff>);
pub type Recs<'tcx> = Map<Location, Seq<Rec<'tcx>>>;
pub open spec fn rec<'tcx>(t: Table<'tcx>) -> Rec<'tcx> { (t.segment, t.span, t.data@) }
pub open spec fn recs<'tcx>(m: Map<Location, Vec<Table<'tcx>>>) -> Recs<'tcx> { m.map_values(|v: Vec<Table<'tcx>>| Seq::new(v@.len(), |i: int| rec(v@[i]))) }
/// one more step, at where it ends
pub open spec fn add<'tcx>(m: Recs<'tcx>, r: Rec<'tcx>) -> Recs<'tcx> { m.insert(r.0.to, (if m.contains_key(r.0.to) { m[r.0.to] } else { Seq::empty() }).push(r)) }
pub open spec fn at_<'tcx>(m: Recs<'tcx>, k: Location) -> Seq<Rec<'tcx>> { if m.contains_key(k) { m[k] } else { Seq::empty() } }
/// the steps of both, where each ends
pub open spec fn merged<'tcx>(a: Recs<'tcx>, b: Recs<'tcx>) -> Recs<'tcx> { a.union_prefer_right(b.map_entries(|k: Location, v: Seq<Rec<'tcx>>| at_(a, k) + v)) }
pub open spec fn among<'tcx>(o: Seq<(Location, Vec<Table<'tcx>>)>, i: int, k: Location) -> bool { exists|j: int| 0 <= j < i && (#[trigger] o[j]).0 == k }
pub open spec fn merging<'tcx>(m: Map<Location, Vec<Table<'tcx>>>, m0: Map<Location, Vec<Table<'tcx>>>, tm: Map<Location, Vec<Table<'tcx>>>, i: int) -> bool {
  &&& forall|k: Location| #[trigger] m.contains_key(k) <==> m0.contains_key(k) || among(order(tm), i, k)
  &&& forall|k: Location| #[trigger] m.contains_key(k) ==> recs(m)[k] == (if among(order(tm), i, k) { at_(recs(m0), k) + recs(tm)[k] } else { recs(m0)[k] })
}
/// on entry everything changes from nothing to what holds there
pub open spec fn entering<'tcx>(l: Location, s: Span) -> Rec<'tcx> { (MirSegment { from: l, to: l }, start_of(s), change(bottom(), state_at(point_of(l)))) }
pub open spec fn locals_in<'a, 'tcx>(b: &TableBuilder<'a, 'tcx>, s: ScopeId) -> Seq<Local> { if b.locals_at_scope@.contains_key(s) { b.locals_at_scope@[s]@ } else { Seq::empty() } }
/// the locals of the scopes around a scope: not of interest to a step inside it
pub open spec fn hides<'a, 'tcx>(b: &TableBuilder<'a, 'tcx>, s: ScopeId) -> Set<Local> { vp_flat(Seq::new(b.mir.above(s).len(), |i: int| locals_in(b, b.mir.above(s)[i]))).to_set() }
pub open spec fn of_locals<'tcx, V>(m: Map<Place<'tcx>, V>, h: Set<Local>) -> Set<Place<'tcx>> { m.dom().filter(|p: Place<'tcx>| h.contains(p.local)) }
/// A segment's step: the change from where it starts to where it ends, without the hidden locals; none if it is empty.
pub open spec fn seg_step<'a, 'tcx>(b: &TableBuilder<'a, 'tcx>, m: Recs<'tcx>, s: SegmentId) -> Recs<'tcx> {
  let d = b.mir.segs()[s.x as int];
  if d.segment.from == d.segment.to { m } else { add(m, (d.segment, d.span, changed(d.segment).remove_keys(of_locals(changed(d.segment), hides(b, d.scope))))) }
}
pub open spec fn seg_steps<'a, 'tcx>(b: &TableBuilder<'a, 'tcx>, m: Recs<'tcx>, s: Seq<SegmentId>) -> Recs<'tcx> decreases s.len() {
  if s.len() == 0 { m } else { seg_step(b, seg_steps(b, m, s.drop_last()), s.last()) }
}
/// A branch's step: the change across it of the locals of its own scope.
pub open spec fn branch_rec<'a, 'tcx>(b: &TableBuilder<'a, 'tcx>, x: BranchId) -> Rec<'tcx> {
  let d = b.mir.brs()[x.x as int];
  (d.reach, around(d.reach), changed(d.reach).restrict(of_locals(changed(d.reach), locals_in(b, d.scope).to_set())))
}
/// The steps of the first k parts of a collection: of its segments, and of its branches those into the branch, those of
/// every way through it, and the branch's own.
pub open spec fn steps<'a, 'tcx>(b: &TableBuilder<'a, 'tcx>, m: Recs<'tcx>, c: int, k: int) -> Recs<'tcx> decreases b.mir.cols().len() - c, 1int, k {
  if k <= 0 || c >= b.mir.cols().len() { m } else {
    let before = steps(b, m, c, k - 1);
    match b.mir.cols()[c].data@[k - 1] {
      CFKind::Linear(s) => seg_step(b, before, s),
      CFKind::Branch(x) => { let inside = ways(b, seg_steps(b, Map::empty(), b.mir.brs()[x.x as int].splits@), c, x.x as int, b.mir.brs()[x.x as int].nested@.len() as int);
        add(merged(before, inside), branch_rec(b, x)) }
    }
  }
}
pub open spec fn ways<'a, 'tcx>(b: &TableBuilder<'a, 'tcx>, m: Recs<'tcx>, c: int, x: int, k: int) -> Recs<'tcx> decreases b.mir.cols().len() - c, 0int, k {
  if k <= 0 { m } else { let n = b.mir.brs()[x].nested@[k - 1].x as int;
    if c < n < b.mir.cols().len() { steps(b, ways(b, m, c, x, k - 1), n, b.mir.cols()[n].data@.len() as int) } else { m } }
}
pub open spec fn branch_steps<'a, 'tcx>(b: &TableBuilder<'a, 'tcx>, m: Recs<'tcx>, c: int, x: BranchId) -> Recs<'tcx> {
  add(merged(m, ways(b, seg_steps(b, Map::empty(), b.mir.brs()[x.x as int].splits@), c, x.x as int, b.mir.brs()[x.x as int].nested@.len() as int)), branch_rec(b, x))
}
pub proof fn lemma_pushed<'tcx>(m0: Map<Location, Vec<Table<'tcx>>>, m1: Map<Location, Vec<Table<'tcx>>>, t: Table<'tcx>)
  requires m1.dom() =~= m0.dom().insert(t.segment.to), forall|k: Location| #[trigger] m0.contains_key(k) && k != t.segment.to ==> m1[k] == m0[k],
    m1[t.segment.to]@ == (if m0.contains_key(t.segment.to) { m0[t.segment.to]@ } else { Seq::empty() }).push(t),
  ensures recs(m1) == add(recs(m0), rec(t))
{
  assert forall|k: Location| #[trigger] recs(m1).contains_key(k) implies recs(m1)[k] =~= add(recs(m0), rec(t))[k] by { if k != t.segment.to { assert(m0.contains_key(k)); } }
  assert(recs(m1) =~= add(recs(m0), rec(t)));
}
pub proof fn lemma_merging<'tcx>(m: Map<Location, Vec<Table<'tcx>>>, n: Map<Location, Vec<Table<'tcx>>>, m0: Map<Location, Vec<Table<'tcx>>>, tm: Map<Location, Vec<Table<'tcx>>>, i: int)
  requires merging(m, m0, tm, i), 0 <= i < order(tm).len(), ({ let k = order(tm)[i].0; n.dom() =~= m.dom().insert(k) && (forall|x: Location| #[trigger] m.contains_key(x) && x != k ==> n[x] == m[x]) && n[k]@ == (if m.contains_key(k) { m[k]@ } else { Seq::empty() }) + order(tm)[i].1@ }),
  ensures merging(n, m0, tm, i + 1)
{
  axiom_order(tm); let o = order(tm); let k = o[i].0; assert(tm.contains_key(k) && tm[k] == o[i].1);
  assert(!among(o, i, k)) by { if among(o, i, k) { let j = choose|j: int| 0 <= j < i && (#[trigger] o[j]).0 == k; assert(o[j].0 != o[i].0); } }
  assert forall|x: Location| among(o, i + 1, x) <==> among(o, i, x) || x == k by {
    if among(o, i + 1, x) { let j = choose|j: int| 0 <= j < i + 1 && (#[trigger] o[j]).0 == x; if j < i { assert(among(o, i, x)); } }
    if among(o, i, x) { let j = choose|j: int| 0 <= j < i && (#[trigger] o[j]).0 == x; assert(0 <= j < i + 1); }
    if x == k { assert(o[i].0 == x); } }
  assert forall|x: Location| #[trigger] n.contains_key(x) implies recs(n)[x] == (if among(o, i + 1, x) { at_(recs(m0), x) + recs(tm)[x] } else { recs(m0)[x] }) by {
    if x == k { assert(recs(n)[x] =~= at_(recs(m), x) + recs(tm)[x]); if m.contains_key(k) { assert(recs(m)[x] == recs(m0)[x]); } assert(at_(recs(m), x) == at_(recs(m0), x)); }
    else { assert(m.contains_key(x)); assert(recs(n)[x] == recs(m)[x]); } }
}
pub proof fn lemma_merged<'tcx>(m: Map<Location, Vec<Table<'tcx>>>, m0: Map<Location, Vec<Table<'tcx>>>, tm: Map<Location, Vec<Table<'tcx>>>)
  requires merging(m, m0, tm, order(tm).len() as int) ensures recs(m) == merged(recs(m0), recs(tm))
{
  axiom_order(tm); let o = order(tm); let r = merged(recs(m0), recs(tm));
  assert forall|k: Location| among(o, o.len() as int, k) <==> tm.contains_key(k) by { if among(o, o.len() as int, k) { let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).0 == k; assert(tm.contains_key(o[j].0)); } }
  assert forall|k: Location| #[trigger] recs(m).contains_key(k) implies recs(m)[k] == r[k] by { assert(m.contains_key(k)); if tm.contains_key(k) { assert(recs(tm).contains_key(k)); } }
  assert(recs(m) =~= r);
}
pub open spec fn kept(o: Seq<Option<&Vec<Local>>>) -> Seq<Seq<Local>> { Seq::new(o.len(), |i: int| match o[i] { Some(v) => v@, None => Seq::empty() }) }
pub proof fn lemma_scoped<'a>(o: Seq<Option<&'a Vec<Local>>>, f: Seq<&'a Local>)
  requires f == vp_flat(Seq::new(vp_somes(o).len(), |i: int| vp_refs::<Local>(vp_somes(o)[i]@)))
  ensures Seq::new(f.len(), |i: int| *f[i]) =~= vp_flat(kept(o))
  decreases o.len()
{
  let g = Seq::new(vp_somes(o).len(), |i: int| vp_refs::<Local>(vp_somes(o)[i]@));
  if o.len() > 0 {
    let p = o.drop_last(); let h = Seq::new(vp_somes(p).len(), |i: int| vp_refs::<Local>(vp_somes(p)[i]@));
    lemma_scoped(p, vp_flat(h));
    assert(kept(o).drop_last() =~= kept(p));
    match o.last() { Some(v) => { assert(vp_somes(o) == vp_somes(p).push(v)); assert(g.drop_last() =~= h); assert(g.last() =~= vp_refs::<Local>(v@)); } None => { assert(g =~= h); } }
  }
}
/// which collection the branch is in matters only for being below it
pub proof fn lemma_ways<'a, 'tcx>(b: &TableBuilder<'a, 'tcx>, m: Recs<'tcx>, c: int, x: int, k: int, d: int)
  requires forall|i: int| 0 <= i < k ==> c < (#[trigger] b.mir.brs()[x].nested@[i]).x < b.mir.cols().len() && d < b.mir.brs()[x].nested@[i].x,
  ensures ways(b, m, c, x, k) == ways(b, m, d, x, k)
  decreases k
{ if k > 0 { lemma_ways(b, m, c, x, k - 1, d); } }
"""


def collect(ctx):
    u = ctx.unit("collect")
    S = "crates/aquascope/src/analysis/stepper/segmented_mir.rs"
    u.raw(BASE + iters.STUBS)
    u.item(A, "struct", "LoanKey", attrs="#[derive(Copy, Clone)]")
    u.item(A, "struct", "MoveKey", attrs="#[derive(Copy, Clone)]")
    u.raw("pub trait Stepable {} impl<A> Stepable for A {}")
    steps_items(u)
    PUB = [(r"pub\(super\)", "pub", "visibility")]
    u.item(F, "struct", "Table", subst=PUB)
    u.item(F, "type", "Tables", subst=PUB)
    u.raw(DIFFS + SHOWN + TREE)
    u.impl(M, "ValueStep", None, {"is_empty": dict(ret="r", spec="ensures r == (self is None)")})
    u.impl(M, "MirSegment", None, {
        "new": dict(ret="r", spec="ensures r.from == l1, r.to == l2"),
        "span": dict(ret="r", spec="ensures r == around(*self)"),
        "into_diff": dict(ret="r", spec="ensures r@ == changed::<'tcx>(self)")})
    u.item(S, "struct", "SegmentData", subst=PUB)
    u.item(S, "struct", "BranchData", subst=PUB)
    u.item(S, "enum", "CFKind", subst=PUB, attrs="#[derive(Copy, Clone)]")
    u.item(S, "struct", "Collection", subst=PUB)
    u.raw(INDEXED)
    u.item(S, "struct", "SegmentedMir", subst=PUB)
    u.raw(MIR_TREE)
    AT = [(r"&self\.(\w+)\[(\w+)\]", r"self.\1.vp_at(\2)", "indexing by contract"), (r"impl Iterator<Item = ScopeId> \+ '_", "It<ScopeId>", "iterator type by contract"),
          (r"\.into_iter\(\)", ".vp_into()", "iterator by contract")]
    u.impl(S, "SegmentedMir", None, {
        "get_collection": dict(ret="r", spec="requires cid.x < self.cols().len(),\n  ensures *r == self.cols()[cid.x as int]", subst=AT),
        "get_segment": dict(ret="r", spec="requires sid.x < self.segs().len(),\n  ensures *r == self.segs()[sid.x as int]", subst=AT),
        "get_branch": dict(ret="r", spec="requires bid.x < self.brs().len(),\n  ensures *r == self.brs()[bid.x as int]", subst=AT),
        "get_branch_scope": dict(ret="r", spec="requires bid.x < self.brs().len(),\n  ensures r == self.brs()[bid.x as int].scope"),
        "parent_scopes": dict(ret="r", spec="ensures r.s() == self.above(scope)", subst=AT)})
    u.item(F, "struct", "TableBuilder", subst=PUB)
    u.raw("""#[verifier::external_body]
pub fn prettify_permission_steps<'tcx>(analysis: &AquascopeAnalysis<'tcx>, perm_steps: Tables<'tcx>, mode: PermIncludeMode) -> (r: Vec<PermissionsLineDisplay>)
  ensures rendered(analysis, tables(perm_steps@), mode, r@) { unimplemented!() }
""", stubs=("prettify_permission_steps",))
    SET = iters.SUBST + PUB + [(r"let &(\w+ \{[^}]*\}) = ([^;]*);", r"let \1 = *\2;", "reference pattern written as a dereference"), (r"collect::<HashSet<(Local|_)>>", "collect::<LSet>", "set of locals by contract"), (r"HashSet<Local>", "LSet", "set of locals by contract"),
                         (r"\.or_default\(\)", ".or_insert(Vec::new())", "or_default read as inserting the empty vector"), (r"\.unwrap_or_default\(\)", ".vp_or_none()", "default iterator by contract"),
                         (r"Tables::default\(\)", "HashMap::new()", "default map"), (r"\.extract_if\(", ".vp_extract_if(", "extract_if by contract"), (r"(result\s*\.entry\(\w+\)\s*\.or_insert\(Vec::new\(\)\))\s*\.extend\((\w+)\)", r"vp_append(\1, \2)", "Vec::extend by contract"), (r"\.extend\(", ".vp_extend(", "HashMap::extend by contract"),
                         (r", vp_c1: [^|]*\|", "|", "unused value parameter of the extract_if closure"),
                         (r"in (\w+:\s*)?(\w+)(?=\s*(invariant|\{))", r"in \1\2.vp_vec()", "iteration of a hash map by contract"),
                         (r"in (\w+:\s*)?&?([\w.]+)\.vp_iter\(\)(?=\s*(invariant|\{))", r"in \1\2.iter()", "")]
    KEYS = "    broadcast use {group_vp_ext, place_is_key, location_is_key, scopeid_is_key, group_hash_axioms};"
    u.impl(F, "TableBuilder", None, {
        "locals_to_filter": dict(ret="r", spec="ensures r@ =~= hides(self, scope)", start=KEYS,
                                 subst=SET + [(r"(?s)(self\s*\.mir\s*\.parent_scopes.*?)(\s*\.flatten\(\))(.*?collect::<LSet>\(\))",
                                               r"let vp_k = \1; let ghost o = vp_k.opts(); let vp_m = vp_k\2; proof { lemma_scoped(o, vp_m.s()); assert(derefs(vp_m.s()) =~= Seq::new(vp_m.s().len(), |i: int| *vp_m.s()[i])); assert(kept(o) =~= Seq::new(self.mir.above(scope).len(), |i: int| locals_in(self, self.mir.above(scope)[i]))); } vp_m\3", "iterators named for the proof")],
                                 closures=[dict(types=["ScopeId"], ret="r: Option<&Vec<Local>>", spec="ensures match r { Some(v) => self.locals_at_scope@.contains_key(sid) && *v == self.locals_at_scope@[sid], None => !self.locals_at_scope@.contains_key(sid) }")]),
        "insert_segment": dict(spec="requires sid.x < self.mir.segs().len(),\n  ensures recs(final(result)@) =~= seg_step(self, recs(old(result)@), sid)", subst=SET, start=KEYS + " let ghost m0 = result@;",
                               at=[(r"let table = Table", "before", "    proof { assert(diff@ =~= changed(segment).remove_keys(of_locals(changed(segment), hides(self, scope)))); }"),
                                   (r"result\.entry\(segment\.to\)\.or_default\(\)\.push\(table\);", "after", "    proof { lemma_pushed(m0, result@, table); }")],
                               closures=[dict(types=["&Place<'tcx>", "&mut PermissionsDataDiff"], ret="r: bool", spec="ensures r == to_filter@.contains(place.local)")]),
        "insert_branch": dict(spec="""requires self.mir.wf(), exists|c: int| self.mir.fits(c, CFKind::Branch(bid)),
  ensures forall|c: int| self.mir.fits(c, CFKind::Branch(bid)) ==> recs(final(result)@) == branch_steps(self, recs(old(result)@), c, bid)""", subst=SET,
                              start=KEYS + " let ghost c0 = choose|c: int| self.mir.fits(c, CFKind::Branch(bid)); let ghost m0 = result@; let ghost b = self.mir.brs()[bid.x as int];", attrs="#[verifier::exec_allows_no_decreases_clause]",
                              loops=[dict(kind="for", iter="i", inv="""    invariant self.mir.wf(), self.mir.fits(c0, CFKind::Branch(bid)), b == self.mir.brs()[bid.x as int], i.seq().len() == b.splits@.len(), forall|k: int| 0 <= k < i.seq().len() ==> *#[trigger] i.seq()[k] == b.splits@[k],
      recs(temp_middle@) == seg_steps(self, Map::empty(), b.splits@.take(i.index@)),""", before="    proof { assert(recs(temp_middle@) =~= Map::empty()); assert(b.splits@.take(0) =~= Seq::empty()); }",
                                          start="      proof { assert(b.splits@.take(i.index@ + 1).drop_last() =~= b.splits@.take(i.index@)); }", after="    proof { assert(b.splits@.take(b.splits@.len() as int) =~= b.splits@); }"),
                                     dict(kind="for", iter="j", inv="""    invariant self.mir.wf(), self.mir.fits(c0, CFKind::Branch(bid)), b == self.mir.brs()[bid.x as int], j.seq().len() == b.nested@.len(), forall|k: int| 0 <= k < j.seq().len() ==> *#[trigger] j.seq()[k] == b.nested@[k],
      recs(temp_middle@) == ways(self, seg_steps(self, Map::empty(), b.splits@), c0, bid.x as int, j.index@),"""),
                                     dict(kind="for", iter="y", inv="""    invariant y.seq() == order(tm), merging(result@, m0, tm, y.index@),""", before="    proof { lemma_derefs(locals_in(self, scope_here)); assert(derefs(Seq::<&Local>::empty()) =~= Seq::<Local>::empty()); if self.locals_at_scope@.contains_key(scope_here) { assert(all_attached@ =~= locals_in(self, scope_here).to_set()); } else { assert(all_attached@ =~= locals_in(self, scope_here).to_set()); } assert(attached_here@ =~= changed(*reach).restrict(of_locals(changed(*reach), locals_in(self, scope_here).to_set()))); }\n    let ghost tm = temp_middle@;\n    proof { assert forall|k: Location| !among(order(tm), 0, k) by { } assert(merging(result@, m0, tm, 0)); }",
                                          start=KEYS + " let ghost n0 = result@;", end="    proof { lemma_merging(n0, result@, m0, tm, y.index@); }", after="    let ghost m1 = result@; proof { lemma_merged(m1, m0, tm); }")],
                              at=[(r"let attached_here = ", "before", "    let ghost d0 = entire_diff@; ")],
                              end="""    proof {
      let t = result@[reach.to]@.last(); lemma_pushed(m1, result@, t);
      assert forall|c: int| self.mir.fits(c, CFKind::Branch(bid)) implies recs(result@) == branch_steps(self, recs(m0), c, bid) by {
        lemma_ways(self, seg_steps(self, Map::empty(), b.splits@), c0, bid.x as int, b.nested@.len() as int, c); } }""",
                              closures=[dict(types=["&Vec<Local>"], ret="r: It<&Local>", spec="ensures r.s() == vp_refs(v@)"),
                                        dict(types=["&Place<'tcx>", "&mut PermissionsDataDiff"], ret="r: bool", spec="ensures r == all_attached@.contains(place.local)")]),
        "insert_collection": dict(spec="""requires self.mir.wf(), cid.x < self.mir.cols().len(),
  ensures recs(final(result)@) == steps(self, recs(old(result)@), cid.x as int, self.mir.cols()[cid.x as int].data@.len() as int)""", subst=SET, start=KEYS + " let ghost m0 = recs(result@); let ghost d = self.mir.cols()[cid.x as int].data@;", attrs="#[verifier::exec_allows_no_decreases_clause]",
                                  loops=[dict(kind="for", iter="i", inv="""    invariant self.mir.wf(), cid.x < self.mir.cols().len(), d == self.mir.cols()[cid.x as int].data@, i.seq().len() == d.len(), forall|k: int| 0 <= k < i.seq().len() ==> *#[trigger] i.seq()[k] == d[k],
      recs(result@) == steps(self, m0, cid.x as int, i.index@),""", start="      proof { assert(self.mir.fits(cid.x as int, d[i.index@])); }")]),
        "finalize_body": dict(ret="r", spec="""requires self.mir.wf(), self.mir.first_collection.x < self.mir.cols().len(),
  ensures exists|t: Map<Location, Vec<Table<'tcx>>>| rendered(self.analysis, tables(t), mode, r@)
    && recs(t) == steps(self, add(Map::empty(), entering(start_loc, body_span)), self.mir.first_collection.x as int, self.mir.cols()[self.mir.first_collection.x as int].data@.len() as int)""", subst=SET, start=KEYS,
                              at=[(r"self\.insert_collection\(", "before", "    proof { let t = diffs@[seg.to]@.last(); assert(recs(Map::<Location, Vec<Table<'tcx>>>::empty()) =~= Map::empty()); lemma_pushed(Map::empty(), diffs@, t); }")]),
    })
    u.helpers()
    u.raw("} fn main() {}")
    return u


UNITS = [("table", table), ("collect", collect)]
TRUSTED = ["rustc Place, Local, Location, Span, SourceMap, Session restated; span_extend_to_line, lookup_line, shrink_to_hi/lo, with_hi, as_local: uninterpreted functions of their arguments",
           "rustc_utils Place::is_source_visible and Place::to_string (which places the source writes, and how): uninterpreted",
           "errors::get_span_of_first_error by C11's contract; permissions_domain_at_point, domain_bottom and the difference of two domains by the contracts C02 and C03 prove",
           "the segmented body (nesting and indices in range) by the contract C09 proves; TransitiveRelation::reachable_from: uninterpreted",
           "FxHashMap iteration order: an arbitrary fixed listing of the entries; extract_if, extend, entry by contract; iterator adapters (vp/iters.py): a chain is the sequence it yields; HashSet<Local> read as a set",
           "DUMMY_CHAR_RANGE: some range", "log statements dropped"]
ASSUMPTIONS = ["closures passed to lazy adapters run once per element, in order", "recursion of insert_collection ends because nested collections have larger numbers (C09); not proved as a decreasing measure of the code",
               "Iterating a hash map's values: steps recorded under one location keep their order, different locations come in any order"]
BOUNDED = "every recorded step (none lost) and every displayed line of about 430 compiled functions, a third of them with random control flow, both display modes, against an independent oracle; thorough: 2000 more functions"


def native_run(ctx):
    return ctx.native_crate("aquascope", {F: [("vp_c10", "native.rs")], "crates/aquascope/src/analysis/stepper/hir_steps.rs": [("vp_c10h", "hir.rs")]}, "vp_c10")
