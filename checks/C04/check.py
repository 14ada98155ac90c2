"""C04: what each kind of use expects, and when expectation against reality is a violation."""
import maps

F = "crates/aquascope/src/analysis/boundaries/mod.rs"
P = "crates/aquascope/src/analysis/permissions/mod.rs"
A = "crates/aquascope/src/analysis/mod.rs"

STUBS = r"""
verus! {
// rustc's two mutability enums, restated.
#[derive(Copy, Clone, PartialEq, Eq)]
pub enum Mutability { Not, Mut }
#[derive(Copy, Clone, PartialEq, Eq)]
pub enum AllowTwoPhase { Yes, No }
#[derive(Copy, Clone, PartialEq, Eq)]
pub enum AutoBorrowMutability { Mut { allow_two_phase_borrow: AllowTwoPhase }, Not }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct CharPos { x: u64 }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct BytePos { x: u64 }
#[verifier::external_body]
pub struct FlowBoundary { x: u64 }

pub open spec fn rwo(p: Permissions, r: bool, w: bool, o: bool) -> bool { p.read == r && p.write == w && p.drop == o }
pub open spec fn missing(e: Permissions, a: Permissions) -> bool {
  (e.read && !a.read) || (e.write && !a.write) || (e.drop && !a.drop)
}
"""


def build(ctx):
    u = ctx.unit("expect")
    u.raw(STUBS)
    u.item(A, "struct", "LoanKey", attrs="#[derive(Copy, Clone)]")
    u.item(A, "struct", "MoveKey", attrs="#[derive(Copy, Clone)]")
    u.item(P, "struct", "Permissions", attrs="#[derive(Copy, Clone)]")
    u.item(P, "struct", "PermissionsData", attrs="#[derive(Copy, Clone)]")
    u.item(F, "struct", "PermissionsBoundary")
    u.impl(F, "PermissionsBoundary", None, {
        "is_violation": dict(ret="r", spec="ensures r == missing(self.expected, self.actual)")})
    u.item(F, "struct", "ExpectedPermissions", attrs="#[derive(Copy, Clone)]")
    E = lambda w, o: dict(ret="r", spec=f"ensures rwo(r.0, true, {w}, {o})")
    u.impl(F, "ExpectedPermissions", None, {
        "from_assignment": E("true", "false"), "from_borrow": E("mutability is Mut", "false"),
        "from_reborrow": E("mutability is Mut", "false"), "from_move": E("false", "true"),
        "from_copy": E("false", "false"), "from_discriminant": E("false", "false")})
    u.raw("""impl vstd::std_specs::convert::FromSpecImpl<ExpectedPermissions> for Permissions {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: ExpectedPermissions) -> Permissions { v.0 }
}""")
    u.impl(F, "Permissions", "From", {"from": dict(ret="r", spec="ensures r == ex.0")})
    u.helpers()
    u.raw("} fn main() {}")
    return u


V = "crates/aquascope/src/analysis/boundaries/path_visitor.rs"

# rustc's HIR, restated in the shapes the visitor looks at; every other expression kind is `Other`.
HIR = r"""
verus! {
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct HirId { x: u64 }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Span { x: u64 }
impl Span {
  pub uninterp spec fn expanded(&self) -> bool;
  pub uninterp spec fn lo_end(&self) -> Span;
  #[verifier::external_body]
  pub fn from_expansion(self) -> (r: bool) ensures r == self.expanded() { unimplemented!() }
  #[verifier::external_body]
  pub fn shrink_to_lo(self) -> (r: Span) ensures r == self.lo_end() { unimplemented!() }
}
#[derive(Copy, Clone, PartialEq, Eq)]
pub enum UnOp { Deref, Not, Neg }
#[derive(Copy, Clone)]
pub enum Res { Local(HirId), Other }
pub struct Path<'hir> { pub span: Span, pub res: Res, pub segments: &'hir [u8] }
pub enum QPath<'hir> { Resolved(Option<&'hir u8>, &'hir Path<'hir>), TypeRelative(&'hir u8), LangItem(Span) }
pub struct Arm<'hir> { pub hir_id: HirId, pub span: Span, pub pat: &'hir u8, pub guard: Option<&'hir Expr<'hir>>, pub body: &'hir Expr<'hir> }
pub enum StmtKind<'hir> { Let(&'hir u8), Item(u64), Expr(&'hir Expr<'hir>), Semi(&'hir Expr<'hir>) }
pub struct Stmt<'hir> { pub hir_id: HirId, pub kind: StmtKind<'hir>, pub span: Span }
pub struct Block<'hir> { pub stmts: &'hir [Stmt<'hir>], pub expr: Option<&'hir Expr<'hir>>, pub hir_id: HirId, pub span: Span }
pub enum ExprKind<'hir> {
  Lit(u8),
  Match(&'hir Expr<'hir>, &'hir [Arm<'hir>], u8),
  MethodCall(&'hir u8, &'hir Expr<'hir>, &'hir [Expr<'hir>], Span),
  AddrOf(u8, Mutability, &'hir Expr<'hir>),
  Assign(&'hir Expr<'hir>, &'hir Expr<'hir>, Span),
  AssignOp(u8, &'hir Expr<'hir>, &'hir Expr<'hir>),
  Unary(UnOp, &'hir Expr<'hir>),
  Path(QPath<'hir>),
  Other(u8),
}
pub struct Expr<'hir> { pub hir_id: HirId, pub kind: ExprKind<'hir>, pub span: Span }
impl<'hir> Expr<'hir> {
  pub uninterp spec fn place(&self) -> bool;
  pub uninterp spec fn syntactic_place(&self) -> bool;
  /// A place expression, where `f` says whether a base expression may count as one: everything but literals here.
  #[verifier::external_body]
  pub fn is_place_expr<P: Fn(&Expr<'hir>) -> bool>(&self, f: P) -> (r: bool)
    requires forall|e: Expr<'hir>| call_requires(f, (&e,)),
      forall|e: Expr<'hir>, b: bool| #[trigger] call_ensures(f, (&e,), b) ==> b == !(e.kind is Lit)
    ensures r == self.place() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_syntactic_place_expr(&self) -> (r: bool) ensures r == self.syntactic_place() { unimplemented!() }
}
#[derive(Copy, Clone)]
pub enum AutoBorrow { Ref(AutoBorrowMutability), RawPtr(Mutability) }
#[derive(Copy, Clone)]
pub enum Adjust { NeverToAny, Deref(u8), Borrow(AutoBorrow), Pointer(u8), ReborrowPin(Mutability) }
#[derive(Copy, Clone)]
pub struct Adjustment { pub kind: Adjust }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Ty { x: u64 }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct TypingEnv<'tcx> { x: &'tcx u8 }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct TyCtxt<'tcx> { x: &'tcx u8 }
impl Ty {
  pub uninterp spec fn copyable(&self) -> bool;
  #[verifier::external_body]
  pub fn is_copyable<'tcx>(&self, tcx: TyCtxt<'tcx>, e: TypingEnv<'tcx>) -> (r: bool) ensures r == self.copyable() { unimplemented!() }
}
#[verifier::external_body]
pub struct TypeckResults<'tcx> { x: &'tcx u8 }
impl<'tcx> TypeckResults<'tcx> {
  pub uninterp spec fn ty(&self, e: Expr) -> Ty;
  pub uninterp spec fn adj(&self, e: Expr) -> Seq<Adjustment>;
  #[verifier::external_body]
  pub fn expr_ty_adjusted(&self, e: &Expr) -> (r: Ty) ensures r == self.ty(*e) { unimplemented!() }
  #[verifier::external_body]
  pub fn expr_adjustments(&self, e: &Expr) -> (r: &[Adjustment]) ensures r@ == self.adj(*e) { unimplemented!() }
}
#[verifier::external_body]
pub struct FlowContext { x: u8 }
impl FlowContext {
  #[verifier::external_body]
  pub fn copied(&self) -> (r: Option<HirId>) { unimplemented!() }
}
#[verifier::external_body]
pub const FLOW_CONTEXT: FlowContext = FlowContext { x: 0 };

/// One use: which node, on the left of an assignment or not, where it is drawn, what it expects.
pub struct Use { pub hir_id: HirId, pub is_lhs: bool, pub location: Span, pub expected: Permissions }
pub open spec fn perms(r: bool, w: bool, o: bool) -> Permissions { Permissions { read: r, write: w, drop: o } }
pub open spec fn ref_adj(a: Adjustment) -> bool { a.kind is Borrow && a.kind->Borrow_0 is Ref }
/// A use of `e` as it stands: through the first automatic borrow if there is one, else by copy, else by move.
pub open spec fn adjusted(t: TypeckResults, e: Expr) -> Permissions {
  let a = t.adj(e);
  if exists|i: int| 0 <= i < a.len() && ref_adj(#[trigger] a[i]) {
    perms(true, first_ref(a) is Mut, false)
  } else if t.ty(e).copyable() { perms(true, false, false) } else { perms(true, false, true) }
}
pub open spec fn first_ref(a: Seq<Adjustment>) -> AutoBorrowMutability
  decreases a.len()
{
  if a.len() == 0 { AutoBorrowMutability::Not } else if ref_adj(a[0]) { a[0].kind->Borrow_0->Ref_0 } else { first_ref(a.drop_first()) }
}
pub open spec fn seen(d: PathBoundary) -> Use {
  Use { hir_id: d.hir_id, is_lhs: d.is_lhs, location: d.location, expected: d.expected.0 }
}
pub open spec fn seens(s: Seq<PathBoundary>) -> Seq<Use> { s.map_values(|d: PathBoundary| seen(d)) }

/// The uses in an expression, in visiting order.  `uses` is the least solution of `uses(e) == unfold(e)` over the finite
/// tree; the walk over other kinds of expression and over match arms is rustc's, so its uses are left abstract.
pub uninterp spec fn uses(t: TypeckResults, e: Expr) -> Seq<Use>;
pub uninterp spec fn walk_uses(t: TypeckResults, e: Expr) -> Seq<Use>;
pub uninterp spec fn pat_uses(t: TypeckResults, p: u8) -> Seq<Use>;
pub uninterp spec fn let_uses(t: TypeckResults, l: u8) -> Seq<Use>;
pub uninterp spec fn item_uses(t: TypeckResults, l: u64) -> Seq<Use>;
pub open spec fn opt_uses<'h>(t: TypeckResults, e: Option<&'h Expr<'h>>) -> Seq<Use> { match e { Some(e) => uses(t, *e), None => Seq::empty() } }
/// A match arm: pattern, guard, body.
pub open spec fn arm_uses(t: TypeckResults, a: Arm) -> Seq<Use> { pat_uses(t, *a.pat) + opt_uses(t, a.guard) + uses(t, *a.body) }
pub open spec fn stmt_uses(t: TypeckResults, s: Stmt) -> Seq<Use> {
  match s.kind { StmtKind::Let(l) => let_uses(t, *l), StmtKind::Item(i) => item_uses(t, i), StmtKind::Expr(e) | StmtKind::Semi(e) => uses(t, *e) }
}
pub open spec fn all_stmt_uses<'h>(t: TypeckResults, s: Seq<Stmt<'h>>) -> Seq<Use>
  decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { all_stmt_uses(t, s.drop_last()) + stmt_uses(t, s.last()) } }
pub open spec fn block_uses(t: TypeckResults, b: Block) -> Seq<Use> { all_stmt_uses(t, b.stmts@) + opt_uses(t, b.expr) }
pub open spec fn all_uses<'h>(t: TypeckResults, s: Seq<Expr<'h>>) -> Seq<Use>
  decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { all_uses(t, s.drop_last()) + uses(t, s.last()) } }
pub open spec fn all_arm_uses<'h>(t: TypeckResults, s: Seq<Arm<'h>>) -> Seq<Use>
  decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { all_arm_uses(t, s.drop_last()) + arm_uses(t, s.last()) } }
pub open spec fn one(u: Use) -> Seq<Use> { Seq::empty().push(u) }

pub open spec fn unfold(t: TypeckResults, e: Expr) -> Seq<Use> {
  match e.kind {
    // matching on a place reads it
    ExprKind::Match(d, arms, _) if d.place() =>
      one(Use { hir_id: d.hir_id, is_lhs: false, location: d.span, expected: perms(true, false, false) }) + all_arm_uses(t, arms@),
    // a method call uses its receiver as method resolution adjusted it
    ExprKind::MethodCall(_, r, args, sp) if !sp.expanded() && r.place() =>
      one(Use { hir_id: r.hir_id, is_lhs: false, location: r.span, expected: adjusted(t, *r) }) + all_uses(t, args@),
    // an explicit borrow: read, and write when it is `&mut`
    ExprKind::AddrOf(_, m, i) if i.syntactic_place() && !i.span.expanded() =>
      one(Use { hir_id: e.hir_id, is_lhs: false, location: i.span.lo_end(), expected: perms(true, m is Mut, false) }),
    // assigning through a reference needs read and write; the left side of any other assignment is left out
    ExprKind::Assign(l, r, _) => match l.kind {
      ExprKind::Unary(UnOp::Deref, _) =>
        one(Use { hir_id: l.hir_id, is_lhs: true, location: l.span.lo_end(), expected: perms(true, true, false) }) + uses(t, *r),
      _ => uses(t, *r),
    },
    ExprKind::AssignOp(_, l, r) =>
      one(Use { hir_id: l.hir_id, is_lhs: true, location: l.span.lo_end(), expected: perms(true, true, false) }) + uses(t, *r),
    ExprKind::Unary(UnOp::Deref, i) if i.syntactic_place() && !i.span.expanded() =>
      one(Use { hir_id: e.hir_id, is_lhs: false, location: e.span.lo_end(), expected: adjusted(t, e) }),
    // a variable on its own
    ExprKind::Path(QPath::Resolved(_, p)) if p.res is Local && !p.span.expanded() =>
      one(Use { hir_id: e.hir_id, is_lhs: false, location: p.span.lo_end(), expected: adjusted(t, e) }),
    _ => walk_uses(t, e),
  }
}
pub proof fn lemma_first_ref(a: Seq<Adjustment>, i: int)
  requires 0 <= i < a.len(), ref_adj(a[i]), forall|j: int| 0 <= j < i ==> !ref_adj(#[trigger] a[j])
  ensures first_ref(a) == a[i].kind->Borrow_0->Ref_0
  decreases a.len()
{
  if i > 0 {
    assert(!ref_adj(a[0]));
    let b = a.drop_first();
    assert forall|j: int| 0 <= j < i - 1 implies !ref_adj(#[trigger] b[j]) by { assert(b[j] == a[j + 1]); }
    lemma_first_ref(b, i - 1);
  }
}
pub broadcast proof fn lemma_seens_push(s: Seq<PathBoundary>, d: PathBoundary)
  ensures #[trigger] seens(s.push(d)) == seens(s) + one(seen(d))
{ assert(seens(s.push(d)) =~= seens(s) + one(seen(d))); }
#[verifier::external_body]
pub proof fn uses_unfold(t: TypeckResults, e: Expr) ensures uses(t, e) == unfold(t, e) {}

pub mod intravisit {
  use super::*;
  #[verifier::external_body]
  pub fn walk_expr<'tcx>(v: &mut HirExprScraper<'tcx>, e: &'tcx Expr<'tcx>)
    ensures final(v).typeck_res == old(v).typeck_res,
      seens(final(v).data@) == seens(old(v).data@) + walk_uses(*old(v).typeck_res, *e) { unimplemented!() }
  #[verifier::external_body]
  pub fn walk_stmt<'tcx>(v: &mut HirExprScraper<'tcx>, e: &'tcx Stmt<'tcx>)
    ensures final(v).typeck_res == old(v).typeck_res,
      seens(final(v).data@) == seens(old(v).data@) + stmt_uses(*old(v).typeck_res, *e) { unimplemented!() }
  #[verifier::external_body]
  pub fn walk_arm<'tcx>(v: &mut HirExprScraper<'tcx>, e: &'tcx Arm<'tcx>)
    ensures final(v).typeck_res == old(v).typeck_res,
      seens(final(v).data@) == seens(old(v).data@) + arm_uses(*old(v).typeck_res, *e) { unimplemented!() }
  #[verifier::external_body]
  pub fn walk_block<'tcx>(v: &mut HirExprScraper<'tcx>, e: &'tcx Block<'tcx>)
    ensures final(v).typeck_res == old(v).typeck_res,
      seens(final(v).data@) == seens(old(v).data@) + block_uses(*old(v).typeck_res, *e) { unimplemented!() }
}
macro_rules! fluid_set { ($($t:tt)*) => {}; }
impl<'tcx> HirExprScraper<'tcx> {
  #[verifier::external_body]
  pub fn visit_arm(&mut self, a: &'tcx Arm<'tcx>)
    ensures final(self).typeck_res == old(self).typeck_res,
      seens(final(self).data@) == seens(old(self).data@) + arm_uses(*old(self).typeck_res, *a) { unimplemented!() }
  #[verifier::external_body]
  pub fn visit_pat(&mut self, a: &'tcx u8)
    ensures final(self).typeck_res == old(self).typeck_res,
      seens(final(self).data@) == seens(old(self).data@) + pat_uses(*old(self).typeck_res, *a) { unimplemented!() }
}
"""


def LOOP(v, f):
    return dict(kind="for", iter="it", before=f"let ghost d0 = seens(self.data@); proof {{ assert({f}(t, {v}@.take(0)) =~= Seq::empty()); }}", inv=f"""
    invariant
      self.typeck_res == tr,
      t == *tr,
      0 <= it.index@ <= {v}@.len(),
      it.seq().len() == {v}@.len(),
      forall|i: int| 0 <= i < {v}@.len() ==> *#[trigger] it.seq()[i] == {v}@[i],
      seens(self.data@) == d0 + {f}(t, {v}@.take(it.index@)),
""", end=f"""
    proof {{
      let k = it.index@;
      assert({v}@.take(k + 1).drop_last() =~= {v}@.take(k));
    }}
""", after=f"proof {{ assert({v}@.take({v}@.len() as int) =~= {v}@); }}")


def build_visit(ctx):
    u = ctx.unit("visit")
    u.raw(STUBS)
    u.item(P, "struct", "Permissions", attrs="#[derive(Copy, Clone)]")
    u.raw("pub struct PermissionsData {}\n}\n")
    u.raw(HIR, stubs=["visit_arm", "visit_pat", "nested_visit_map", "walk_stmt", "walk_arm", "walk_block"])
    u.item(F, "struct", "ExpectedPermissions", attrs="#[derive(Copy, Clone)]")
    E = lambda w, o: dict(ret="r", spec=f"ensures rwo(r.0, true, {w}, {o})")
    u.impl(F, "ExpectedPermissions", None, {
        "from_assignment": E("true", "false"), "from_borrow": E("mutability is Mut", "false"),
        "from_reborrow": E("mutability is Mut", "false"), "from_move": E("false", "true"),
        "from_copy": E("false", "false"), "from_discriminant": E("false", "false")})
    u.item(F, "struct", "PathBoundary")
    u.item(V, "struct", "HirExprScraper")
    u.impl(V, "HirExprScraper", None, {"get_adjusted_permissions": dict(
        ret="r", spec="ensures r.0 == adjusted(*self.typeck_res, *expr)",
        closures=[dict(types=["&Adjustment"], ret="r: Option<AutoBorrowMutability>",
                       spec="ensures r == if ref_adj(*adj) { Some(adj.kind->Borrow_0->Ref_0) } else { None }")],
        at=[(r"if let Some\(mutability\) = is_auto_borrow", "before", """
    proof {
      let a = self.typeck_res.adj(*expr);
      let rem = a.as_ref();
      assert(forall|i: int| 0 <= i < a.len() ==> *(#[trigger] rem[i]) == a[i]);
      if is_auto_borrow is Some {
        let i = choose|i: int| 0 <= i < a.len() && ref_adj(*(#[trigger] rem[i])) && is_auto_borrow == Some(rem[i].kind->Borrow_0->Ref_0)
          && forall|j: int| 0 <= j < i ==> !ref_adj(*(#[trigger] rem[j]));
        assert(forall|j: int| 0 <= j < i ==> !ref_adj(*(rem[j])) && *(#[trigger] rem[j]) == a[j]);
        assert forall|j: int| 0 <= j < i implies !ref_adj(#[trigger] a[j]) by { assert(*rem[j] == a[j]); }
        lemma_first_ref(a, i);
      } else {
        assert forall|i: int| 0 <= i < a.len() implies !ref_adj(#[trigger] a[i]) by { assert(!ref_adj(*rem[i])); }
      }
    }""")])})
    u.impl(V, "HirExprScraper", "Visitor", {"visit_expr": dict(
        attrs="#[verifier::exec_allows_no_decreases_clause]",
        ret="_r", spec="""ensures final(self).typeck_res == old(self).typeck_res,
      seens(final(self).data@) == seens(old(self).data@) + uses(*old(self).typeck_res, *expr)""",
        start="broadcast use lemma_seens_push; let ghost t = *self.typeck_res; let ghost tr = self.typeck_res; proof { uses_unfold(t, *expr); }",
        closures=[dict(types=["&Expr"], ret="b: bool", spec="ensures b == !(e.kind is Lit)")] * 2,
        subst=[(r"expr: &'tcx Expr\)", "expr: &'tcx Expr<'tcx>)", "elided lifetime written out")],
        loops=[LOOP("arms", "all_arm_uses"), LOOP("args", "all_uses")]),
      "visit_stmt": dict(attrs="#[verifier::exec_allows_no_decreases_clause]", spec="""ensures final(self).typeck_res == old(self).typeck_res,
      seens(final(self).data@) == seens(old(self).data@) + stmt_uses(*old(self).typeck_res, *stmt)""", ret="_r"),
      "visit_block": dict(attrs="#[verifier::exec_allows_no_decreases_clause]", spec="""ensures final(self).typeck_res == old(self).typeck_res,
      seens(final(self).data@) == seens(old(self).data@) + block_uses(*old(self).typeck_res, *block)""", ret="_r",
        start="let ghost t = *self.typeck_res; let ghost tr = self.typeck_res;",
        subst=[(r"block: &'tcx Block\)", "block: &'tcx Block<'tcx>)", "elided lifetime written out")],
        loops=[LOOP("block.stmts", "all_stmt_uses")])}, header="impl<'tcx> HirExprScraper<'tcx>", types=False)
    u.helpers()
    u.raw("} fn main() {}")
    return u


UNITS = [("expect", build), ("visit", build_visit)]
TRUSTED = ["rustc HIR shapes (Expr, ExprKind, adjustments, mutability enums): restated, every other expression kind one opaque variant",
           "rustc is_place_expr, is_syntactic_place_expr, from_expansion, shrink_to_lo, expr_ty_adjusted, expr_adjustments, is_copyable: "
           "uninterpreted results",
           "intravisit::walk_expr, walk_stmt, walk_arm, walk_block, visit_arm and visit_pat: assumed to append the uses of what they walk",
           "uses(e) == unfold(e): the recursive definition of the uses of a (finite) expression, stated as an axiom",
           "termination of the visitor's recursion over the expression tree"]
ASSUMPTIONS = ["which MIR place and point a use resolves to is not part of this property"]
BOUNDED = ("all constructors, all 64 expected/actual pairs, ten compiled programs through the whole boundaries analysis, and the recorded uses of "
           "hand-written and generated bodies against an independently written visitor")


def native_run(ctx):
    return ctx.native_crate("aquascope", {F: [("vp_c04", "native.rs")]}, "vp_c04")
