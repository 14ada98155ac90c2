"""C03: a permission step is the exact difference of the two permission states."""
import maps

F = "crates/aquascope/src/analysis/stepper/mod.rs"
P = "crates/aquascope/src/analysis/permissions/mod.rs"
A = "crates/aquascope/src/analysis/mod.rs"

SPECS = r"""
pub trait Stepable: Copy + PartialEq {}
impl Stepable for bool {}
impl Stepable for LoanKey {}
impl Stepable for MoveKey {}

/// What a two-valued attribute's step must be: up when gained, down when lost, otherwise none with the kept value.
pub open spec fn bool_step(a: bool, b: bool, d: ValueStep<bool>) -> bool {
  if a && !b { d is Low } else if !a && b { d == (ValueStep::High { value: true }) } else { d == (ValueStep::None { value: Some(a) }) }
}
/// Same for an attribute that is absent or holds a key.
pub open spec fn opt_step<A: Stepable>(a: Option<A>, b: Option<A>, d: ValueStep<A>) -> bool {
  match (a, b) {
    (Some(_), None) => d is Low,
    (None, Some(v)) => d == (ValueStep::High { value: v }),
    (_, b) => d == (ValueStep::None { value: b }),
  }
}
pub open spec fn perm_step(a: Permissions, b: Permissions, d: PermissionsDiff) -> bool {
  bool_step(a.read, b.read, d.read) && bool_step(a.write, b.write, d.write) && bool_step(a.drop, b.drop, d.drop)
}
/// The R/W/O bits (C01's rules; the call is checked against this contract).
pub uninterp spec fn perms_of(d: PermissionsData) -> Permissions;
pub open spec fn data_step(a: PermissionsData, b: PermissionsData, d: PermissionsDataDiff) -> bool {
  &&& bool_step(a.is_live, b.is_live, d.is_live)
  &&& bool_step(a.type_droppable, b.type_droppable, d.type_droppable)
  &&& bool_step(a.type_writeable, b.type_writeable, d.type_writeable)
  &&& opt_step(a.path_moved, b.path_moved, d.path_moved)
  &&& bool_step(a.path_uninitialized, b.path_uninitialized, d.path_uninitialized)
  &&& opt_step(a.loan_read_refined, b.loan_read_refined, d.loan_read_refined)
  &&& opt_step(a.loan_write_refined, b.loan_write_refined, d.loan_write_refined)
  &&& opt_step(a.loan_drop_refined, b.loan_drop_refined, d.loan_drop_refined)
  &&& perm_step(perms_of(a), perms_of(b), d.permissions)
}
pub open spec fn opposite<A: Stepable>(a: ValueStep<A>, b: ValueStep<A>) -> bool {
  (a is High && b is Low) || (a is Low && b is High) || (a is None && b is None)
}
impl PermissionsData {
  #[verifier::external_body]
  pub fn permissions(&self) -> (r: Permissions) ensures r == perms_of(*self) { unimplemented!() }
}
"""

# The analysis context, by contract only (its own functions are decided in C02).
CTXT = r"""
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Location { x: u64 }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Point { x: u64 }
#[verifier::external_body]
pub struct PermissionsCtxt<'tcx> { x: &'tcx u8 }
impl<'tcx> PermissionsCtxt<'tcx> {
  pub uninterp spec fn point(&self, l: Location) -> Point;
  pub uninterp spec fn state(&self, p: Point) -> Map<Place<'tcx>, PermissionsData>;
  pub uninterp spec fn places(&self) -> Set<Place<'tcx>>;
  #[verifier::external_body]
  pub fn location_to_point(&self, l: Location) -> (r: Point) ensures r == self.point(l) { unimplemented!() }
  #[verifier::external_body]
  pub fn permissions_domain_at_point(&self, p: Point) -> (r: PermissionsDomain<'tcx>)
    ensures r.0@ == self.state(p), r.0@.dom() =~= self.places() { unimplemented!() }
}
"""

LEMMAS = r"""
/// A step with no visible change leaves every permission bit as it was, and the other way round.
pub proof fn lemma_empty_iff_same(a: Permissions, b: Permissions, d: PermissionsDiff)
  requires perm_step(a, b, d)
  ensures (d.read is None && d.write is None && d.drop is None) <==> (a.read == b.read && a.write == b.write && a.drop == b.drop) {}
/// Going a -> b and then b -> a gives opposite steps (so pairing and cancelling them loses nothing).
pub proof fn lemma_roundtrip_symmetric(a: Permissions, b: Permissions, d: PermissionsDiff, e: PermissionsDiff)
  requires perm_step(a, b, d), perm_step(b, a, e)
  ensures opposite(d.read, e.read), opposite(d.write, e.write), opposite(d.drop, e.drop) {}
/// Conversely, consecutive steps that are opposite lead back to the state they started from.
pub proof fn lemma_opposite_cancels(a: Permissions, b: Permissions, c: Permissions, d: PermissionsDiff, e: PermissionsDiff)
  requires perm_step(a, b, d), perm_step(b, c, e), opposite(d.read, e.read), opposite(d.write, e.write), opposite(d.drop, e.drop)
  ensures a == c {}
"""


def build(ctx):
    u = ctx.unit("diff")
    u.raw(maps.USE + "use std::ops::Deref;\nverus! {\n" + maps.key("Place", lifetime=True))
    u.item(A, "struct", "LoanKey", attrs="#[derive(Copy, Clone, PartialEq, Eq, Debug)]")
    u.item(A, "struct", "MoveKey", attrs="#[derive(Copy, Clone, PartialEq, Eq, Debug)]")
    u.item(P, "struct", "Permissions", attrs="#[derive(Copy, Clone)]")
    u.item(P, "struct", "PermissionsData", attrs="#[derive(Copy, Clone)]")
    u.item(P, "struct", "PermissionsDomain")
    u.impl(P, "PermissionsDomain", "Deref", {"deref": dict(ret="r", spec="ensures *r == self.0")})
    u.raw(SPECS)
    u.item(F, "trait", "Difference", inject="  spec fn pre(&self, rhs: Self) -> bool;\n  spec fn step(&self, rhs: Self, d: Self::Diff) -> bool;",
           subst=[(r"pub trait Difference", "pub trait Difference: Sized", "supertrait added"),
                  (r"fn diff\(&self, rhs: Self\) -> Self::Diff;",
                   "fn diff(&self, rhs: Self) -> (d: Self::Diff) requires self.pre(rhs), ensures self.step(rhs, d);", "contract")])
    u.item(F, "enum", "ValueStep", attrs="#[derive(Copy, Clone)]")
    u.item(F, "struct", "PermissionsDataDiff", attrs="#[derive(Copy, Clone)]")
    u.raw("} // verus\n")
    u.item(F, "macro", "make_diff", subst=[
        (r"#\[derive\([^\]]*\)\]", "#[derive(Copy, Clone)]", "derives"), (r"#\[ts\(export\)\]", "", "attribute"),
        (r"fn is_empty\(&self\) -> bool \{", "fn is_empty(&self) -> (r: bool) ensures r == (true $( && self.$i is None )*) {", "contract"),
        (r"(?s)=> \{(.*)\}\s*\}\s*$", r"=> { verus! {\1} } }", "the expansion is put inside verus!"),
    ])
    u.item(F, "macrocall", "make_diff")
    u.raw("verus! {\n")
    u.impl(F, "ValueStep", None, {
        "is_empty": dict(ret="r", spec="ensures r == (self is None)"),
        "is_symmetric_diff": dict(ret="r", spec="ensures r == opposite(*self, *rhs)")})
    u.impl(F, "PermissionsDataDiff", None, {
        "is_empty": dict(ret="r", spec="""ensures r == (self.permissions.read is None && self.permissions.write is None
    && self.permissions.drop is None)"""),
        "is_symmetric_diff": dict(ret="r", spec="""ensures r == (opposite(self.permissions.read, rhs.permissions.read)
    && opposite(self.permissions.write, rhs.permissions.write) && opposite(self.permissions.drop, rhs.permissions.drop))""")})
    T = "  open spec fn pre(&self, rhs: Self) -> bool { true }\n  open spec fn step(&self, rhs: Self, d: Self::Diff) -> bool "
    u.impl(F, "bool", "Difference", {"diff": {}}, inject=T + "{ bool_step(*self, rhs, d) }\n")
    u.impl(F, "Option", "Difference", {"diff": {}}, inject=T + "{ opt_step(*self, rhs, d) }\n")
    u.impl(F, "Permissions", "Difference", {"diff": {}}, inject=T + "{ perm_step(*self, rhs, d) }\n")
    u.impl(F, "PermissionsData", "Difference", {"diff": {}}, inject=T + "{ data_step(*self, rhs, d) }\n")
    u.impl(F, "&PermissionsDomain", "Difference", {"diff": dict(
        start="broadcast use {place_is_key, group_hash_axioms};",
        loops=[dict(kind="for", iter="it", start="broadcast use {place_is_key, group_hash_axioms};", inv="""
  invariant
    self.pre(rhs),
    it.seq().no_duplicates(),
    forall|i: int| 0 <= i < it.seq().len() ==> self.0@.contains_key(*(#[trigger] it.seq()[i]).0) && self.0@[*it.seq()[i].0] == *it.seq()[i].1,
    forall|p: Place<'tcx>| #[trigger] self.0@.contains_key(p) ==> it.seq().contains((&p, &self.0@[p])),
    forall|p: Place<'tcx>| #[trigger] diffs@.contains_key(p) <==> exists|i: int| 0 <= i < it.index@ && *(#[trigger] it.seq()[i]).0 == p,
    forall|p: Place<'tcx>| #[trigger] diffs@.contains_key(p) ==> self.0@.contains_key(p) && data_step(self.0@[p], rhs.0@[p], diffs@[p]),
""")])}, inject="""
  open spec fn pre(&self, rhs: Self) -> bool { self.0@.dom() =~= rhs.0@.dom() }
  open spec fn step(&self, rhs: Self, d: Self::Diff) -> bool {
    &&& d@.dom() =~= self.0@.dom()
    &&& forall|p: Place<'tcx>| #[trigger] d@.contains_key(p) ==> data_step(self.0@[p], rhs.0@[p], d@[p])
  }
""")
    u.raw(CTXT, stubs=["location_to_point", "permissions_domain_at_point"])
    u.item(F, "struct", "MirSegment", attrs="#[derive(Copy, Clone)]")
    u.impl(F, "MirSegment", None, {
        "new": dict(ret="r", spec="ensures r.from == l1, r.to == l2"),
        "into_diff": dict(ret="r", spec="""ensures
    r@.dom() =~= ctxt.places(),
    forall|p: Place<'tcx>| #[trigger] r@.contains_key(p) ==>
      data_step(ctxt.state(ctxt.point(self.from))[p], ctxt.state(ctxt.point(self.to))[p], r@[p])""")})
    u.raw(LEMMAS)
    u.helpers()
    u.raw("} fn main() {}")
    return u


UNITS = [("diff", build)]

TRUSTED = ["rustc Place: Eq and Hash assumed to agree (the key law HashMap needs)",
           "FxHashMap taken as std HashMap (the hasher does not matter to the map's contents)",
           "PermissionsData::permissions: contract only here, proved in C01",
           "PermissionsCtxt::{location_to_point, permissions_domain_at_point}: contracts only here (C02 proves the second)"]
ASSUMPTIONS = ["both states of a step list the same places (both come from the same body's domain_places)"]
BOUNDED = "bool, Option, Permissions, PermissionsData differences over every combination of facts on both sides; domains of up to 4 places"


def native_run(ctx):
    return ctx.native_crate("aquascope", {F: [("vp_c03", "native.rs")]}, "vp_c03")
