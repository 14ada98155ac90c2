"""C01: the R/W/O bits of a place follow from its recorded facts by the documented rules, and from nothing else."""
F = "crates/aquascope/src/analysis/permissions/mod.rs"
U = "crates/aquascope/src/analysis/permissions/utils.rs"
A = "crates/aquascope/src/analysis/mod.rs"

SPECS = r"""
verus! {
/// The documented rules, restated over the facts.
pub open spec fn uninit(d: PermissionsData) -> bool { d.path_moved is Some || d.path_uninitialized }
pub open spec fn can_read(d: PermissionsData) -> bool { !uninit(d) && d.loan_read_refined is None }
pub open spec fn can_write(d: PermissionsData) -> bool {
  d.type_writeable && !uninit(d) && d.loan_read_refined is None && d.loan_write_refined is None
}
pub open spec fn can_own(d: PermissionsData) -> bool {
  d.type_droppable && !uninit(d) && d.loan_read_refined is None && d.loan_drop_refined is None
}
pub open spec fn le(a: Permissions, b: Permissions) -> bool {
  (a.read ==> b.read) && (a.write ==> b.write) && (a.drop ==> b.drop)
}
"""

LEMMAS = r"""
/// Write and own each imply read: the tool never shows W or O on a place it shows as unreadable.
pub proof fn lemma_read_below(d: PermissionsData)
  ensures can_write(d) ==> can_read(d), can_own(d) ==> can_read(d) {}
/// A moved or uninitialized place has no permission at all.
pub proof fn lemma_uninit_bottom(d: PermissionsData)
  ensures uninit(d) ==> !can_read(d) && !can_write(d) && !can_own(d) {}
/// Refinement is monotone: recording one more loan, move or uninitialization never adds a permission.
pub proof fn lemma_monotone(d: PermissionsData, e: PermissionsData)
  requires
    e.type_droppable ==> d.type_droppable, e.type_writeable ==> d.type_writeable,
    d.path_moved is Some ==> e.path_moved is Some, d.path_uninitialized ==> e.path_uninitialized,
    d.loan_read_refined is Some ==> e.loan_read_refined is Some,
    d.loan_write_refined is Some ==> e.loan_write_refined is Some,
    d.loan_drop_refined is Some ==> e.loan_drop_refined is Some,
  ensures can_read(e) ==> can_read(d), can_write(e) ==> can_write(d), can_own(e) ==> can_own(d) {}
"""

BITS = "r.read == can_read(*self), r.write == can_write(*self), r.drop == can_own(*self)"


def build(ctx):
    u = ctx.unit("rules")
    u.raw(SPECS)
    u.item(A, "struct", "LoanKey", attrs="#[derive(Copy, Clone)]")
    u.item(A, "struct", "MoveKey", attrs="#[derive(Copy, Clone)]")
    u.item(F, "struct", "Permissions", attrs="#[derive(Copy, Clone)]")
    u.item(F, "struct", "PermissionsData", attrs="#[derive(Copy, Clone)]")
    u.impl(F, "Permissions", None, {"bottom": dict(ret="r", spec="ensures !r.read, !r.write, !r.drop")})
    u.impl(U, "Permissions", None, {
        "none": dict(ret="r", spec="ensures !r.read, !r.write, !r.drop"),
        "all": dict(ret="r", spec="ensures r.read, r.write, r.drop")})
    u.impl(F, "PermissionsData", None, {
        "permissions": dict(ret="r", spec="ensures self.is_live ==> (" + BITS.replace(", ", " && ") + "),\n"
                            "  !self.is_live ==> !r.read && !r.write && !r.drop"),
        "permissions_ignore_liveness": dict(ret="r", spec="ensures " + BITS),
    })
    u.raw(LEMMAS)
    u.helpers()
    u.raw("} fn main() {}")
    return u


UNITS = [("rules", build)]
TRUSTED = []
ASSUMPTIONS = ["none beyond the verifier: the functions are loop-free and call nothing outside the unit"]
BOUNDED = "all 2^9 combinations of the facts PermissionsData records, both entry points (the whole input space up to key values)"


def native_run(ctx):
    return ctx.native_crate("aquascope", {F: [("vp_c01", "native.rs")]}, "vp_c01")
