// The real constructors and verdict over their whole input space, and the real visitor on compiled programs.
include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_rustc.rs"));
use super::*;
use rustc_middle::ty::adjustment::AllowTwoPhase;
use vpc::*;

fn s(p: Permissions) -> String {
  format!("{}{}{}", if p.read { "r" } else { "" }, if p.write { "w" } else { "" }, if p.drop { "o" } else { "" })
}

// One function per use: the uses in visiting order, each `line:expected/actual` (line counted from the function's first).
const PROGS: &[(&str, &str)] = &[
  ("fn a() {\nlet mut s = String::new();\ns.push('a');\ndrop(s);\n}", "2:rw/rwo 3:ro/rwo"),
  ("fn a() {\nlet s = String::new();\ns.push('a');\n}", "2:rw/ro"),
  ("fn a() {\nlet s = String::new();\nlet t = s;\nlet u = s;\n}", "2:ro/ro 3:ro/"),
  ("fn a() {\nlet x = 1;\nlet y = x;\nlet z = x;\n}", "2:r/ro 3:r/ro"),
  ("fn a() {\nlet mut x = 1;\nlet y = &mut x;\n*y = 2;\nlet z = &x;\n}", "2:rw/rwo 3:rw/rw 4:r/rwo"),
  ("fn a() {\nlet mut x = 1;\nlet y = &x;\nx += 1;\nlet z = *y;\n}", "2:r/rwo 3:rw/r"),
  ("fn a(v: &Vec<i32>) {\nlet n = v.len();\nv.push(n as i32);\n}", "1:r/r 2:rw/r"),
  ("fn a(o: Option<String>) {\nmatch o {\nSome(_) => {}\nNone => {}\n};\nlet p = o;\n}", "1:r/ro 5:ro/ro"),
  ("fn a(s: &String) {\nlet t = *s;\n}", "1:ro/r"),
  ("fn a() {\nlet mut v = vec![1];\nlet r = &v[0];\nv.push(2);\nlet k = *r;\n}", "2:r/rwo 3:rw/r"),
];

#[test]
fn vp_c04() {
  let mut rep = Rep::new();
  let mut ck = |name: &str, got: ExpectedPermissions, want: &str| {
    rep.case("constructor", name);
    let g: Permissions = got.into();
    if s(g) != want { rep.bad("expected", name, want, &s(g)); }
  };
  ck("assignment", ExpectedPermissions::from_assignment(), "rw");
  ck("borrow shared", ExpectedPermissions::from_borrow(Mutability::Not), "r");
  ck("borrow mut", ExpectedPermissions::from_borrow(Mutability::Mut), "rw");
  ck("reborrow shared", ExpectedPermissions::from_reborrow(AutoBorrowMutability::Not), "r");
  for two in [AllowTwoPhase::Yes, AllowTwoPhase::No] {
    ck("reborrow mut", ExpectedPermissions::from_reborrow(AutoBorrowMutability::Mut { allow_two_phase_borrow: two }), "rw");
  }
  ck("move", ExpectedPermissions::from_move(), "ro");
  ck("copy", ExpectedPermissions::from_copy(), "r");
  ck("discriminant", ExpectedPermissions::from_discriminant(), "r");
  let data = PermissionsData {
    type_droppable: true, type_writeable: true, type_copyable: false, is_live: true, path_uninitialized: false, path_moved: None,
    loan_read_refined: None, loan_write_refined: None, loan_drop_refined: None,
  };
  for m in 0u32 .. 64 {
    let p = |i: u32| Permissions { read: m >> i & 1 == 1, write: m >> (i + 1) & 1 == 1, drop: m >> (i + 2) & 1 == 1 };
    let (e, a) = (p(0), p(3));
    let b = PermissionsBoundary { location: CharPos { line: 0, column: 0 }, byte_location: BytePos(0), expected: e, actual: a, data, expecting_flow: None };
    let want = (e.read & !a.read) | (e.write & !a.write) | (e.drop & !a.drop);
    let input = format!("expected {} actual {}", s(e), s(a));
    rep.case("verdict", &input);
    if b.is_violation() != want { rep.bad("verdict", &input, &format!("{want}"), &format!("{}", !want)); }
  }
  for (src, want) in PROGS {
    let mut got = String::new();
    let g = &mut got;
    vprc::each_body(src, move |tcx, body_id| {
      let an = AquascopeAnalysis::new(tcx, body_id);
      let bs = compute_permission_boundaries(&an).unwrap();
      *g = bs.iter().map(|b| format!("{}:{}/{}", b.location.line, s(b.expected), s(b.actual))).collect::<Vec<_>>().join(" ");
    });
    rep.case("program", src);
    if got != *want { rep.bad("program", src, want, &got); }
  }
  uses(&mut rep);
  rep.done();
}

// ---- the recorded uses against an independent reading of the documented rules ------------------------------------
use rustc_hir as hir;
use rustc_hir::intravisit::{self as iv, Visitor};
use rustc_middle::ty;
struct Oracle<'tcx> { tcx: TyCtxt<'tcx>, tr: &'tcx ty::TypeckResults<'tcx>, env: ty::TypingEnv<'tcx>, out: Vec<String> }
impl<'tcx> Oracle<'tcx> {
  fn kind(&self, e: &hir::Expr<'_>) -> &'static str {
    for a in self.tr.expr_adjustments(e) {
      if let ty::adjustment::Adjust::Borrow(ty::adjustment::AutoBorrow::Ref(m)) = a.kind {
        return if matches!(m, AutoBorrowMutability::Not) { "r" } else { "rw" };
      }
    }
    use rustc_utils::TyExt;
    if self.tr.expr_ty_adjusted(e).is_copyable(self.tcx, self.env) { "r" } else { "ro" }
  }
  fn add(&mut self, id: HirId, span: Span, k: &str) { self.out.push(format!("{id:?} {span:?} {k}")); }
}
fn synt(e: &hir::Expr<'_>) -> bool { e.is_syntactic_place_expr() && !e.span.from_expansion() }
fn place(e: &hir::Expr<'_>) -> bool { e.is_place_expr(|b| !matches!(b.kind, hir::ExprKind::Lit(..))) }
impl<'tcx> Visitor<'tcx> for Oracle<'tcx> {
  type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
  fn nested_visit_map(&mut self) -> Self::Map { self.tcx.hir() }
  fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
    use hir::ExprKind as K;
    if let K::Assign(l, r, _) = e.kind {
      if matches!(l.kind, K::Unary(hir::UnOp::Deref, _)) { self.add(l.hir_id, l.span.shrink_to_lo(), "rw"); }
      return self.visit_expr(r);
    }
    if let K::AssignOp(_, l, r) = e.kind {
      self.add(l.hir_id, l.span.shrink_to_lo(), "rw");
      return self.visit_expr(r);
    }
    if let K::AddrOf(_, m, i) = e.kind { if synt(i) {
      return self.add(e.hir_id, i.span.shrink_to_lo(), if m.is_mut() { "rw" } else { "r" });
    } }
    if let K::Unary(hir::UnOp::Deref, i) = e.kind { if synt(i) {
      let k = self.kind(e);
      return self.add(e.hir_id, e.span.shrink_to_lo(), k);
    } }
    if let K::Match(d, arms, _) = e.kind { if place(d) {
      self.add(d.hir_id, d.span, "r");
      for a in arms { iv::walk_arm(self, a); }
      return;
    } }
    if let K::MethodCall(_, rc, args, sp) = e.kind { if !sp.from_expansion() && place(rc) {
      let k = self.kind(rc);
      self.add(rc.hir_id, rc.span, k);
      for a in args { self.visit_expr(a); }
      return;
    } }
    if let K::Path(hir::QPath::Resolved(_, p)) = e.kind { if matches!(p.res, hir::def::Res::Local(..)) && !p.span.from_expansion() {
      let k = self.kind(e);
      return self.add(e.hir_id, p.span.shrink_to_lo(), k);
    } }
    iv::walk_expr(self, e)
  }
}

const BODIES: &str = r#"
struct P { a: i32, b: String, c: Option<Box<i32>> }
enum E { A(i32), B { s: String }, C }
impl P { fn m(&mut self, k: i32) -> i32 { self.a += k; self.a } fn own(self) -> i32 { self.a } fn r(&self) -> &String { &self.b } }
macro_rules! twice { ($e:expr) => { $e + $e }; }
macro_rules! own_let { ($v:ident) => { let hidden = $v; drop(hidden); }; }
fn f1(mut p: P, k: i32) -> i32 { p.m(k); p.m({ let z = k; z }); let q = p.r().len(); p.own() + q as i32 }
fn f2(e: E, k: i32) -> i32 { match e { E::A(x) if x > k => x, E::A(x) => -x, E::B { s } if s.len() > 2 => s.len() as i32, E::B { .. } => 0, E::C => k } }
fn f3(v: &mut Vec<i32>, i: usize) { v[i] += 1; *v = vec![]; v.push(i as i32); let r = &mut v[i]; *r += 2; let s = &*v; let n = s[i]; }
fn f4(b: Box<String>, mut c: Box<i32>) { *c = 3; *c += 1; let s = *b; let t = s; println!("{} {t} {c:?}", t); }
fn f5(x: &mut i32, y: &i32) { let mut g = |k: i32| { *x += k; *x + *y }; g(1); let h = || *y; h(); }
fn f6(o: Option<String>) -> usize { if let Some(ref s) = o { s.len() } else { 0 } + match &o { Some(s) => s.len(), None => 0 } }
fn f7(a: [i32; 3], t: (i32, String)) -> i32 { let (x, y) = t; let [p, ..] = a; drop(y); x + p + a[0] + twice!(a[1]) + twice!(x) }
fn f8(s: String) { own_let!(s); }
fn f9(mut s: String) -> String { loop { s.push('x'); if s.len() > 3 { break } else { continue } } let t = s; s = t; s }
fn f10(n: i32) -> i32 { let mut t = 0; for i in 0..n { t += i; } while t > n { t -= 1; } t }
fn f11(p: &mut P) -> Option<&mut i32> { p.c.as_mut().map(|b| &mut **b) }
fn f12(p: P) -> Result<i32, String> { let P { a, b, .. } = p; if a > 0 { Err(b)? } Ok(a) }
fn f13(a: &str, b: &str) -> bool { a == b && a < b || !(*a == *b) }
async fn f14(s: String) -> usize { let t = async { s.len() }; t.await }
fn f15(mut v: Vec<String>) { let w = &mut v; w.push(String::new()); let x = &mut *w; x.clear(); let [a, b] = [&v, &v]; a.len(); b.len(); }
fn f16(a: i32) -> i32 { const K: i32 = 3; static S: i32 = 4; let c = [a; 2]; let l: &dyn Fn(i32) -> i32 = &|z| z + a; (c[0], l(a)).1 + K + S + -a }
fn f17(r: &mut &mut i32, s: *const i32) { **r = 4; **r += 5; let t = &**r; let u = unsafe { *s }; let z = (*r, t, u); }
fn f19(mut a: [String; 2], mut b: Box<[i32]>, v: &mut Vec<i32>) -> usize { a.sort(); a.iter().count() + b.len() + { b.reverse(); v.sort(); v.iter_mut().count() } + a.len() }
fn f20(o: Option<P>) -> i32 { match o { Some(p) => { let q = p; q.own() } None => { let z = 1; z } } }
fn f21(mut p: P, k: i32) -> i32 { p.m(twice!(k)); let n = 1; p.m(twice!({ n })); match p { P { a, ref b, .. } => a + b.len() as i32 } }
fn f18(c: char, b: bool) -> i32 { let x; x = b as i32; let y: i32; if b { y = 1 } else { y = x } match (c, y) { ('a', n) => n, _ if b => x, _ => y } }
"#;

fn gen(r: &mut Rng, d: usize) -> String {
  if d == 0 { return ["1", "a", "*b", "v[0]", "p.0", "x!()"][r.below(6)].to_string(); }
  let mut g = |r: &mut Rng| gen(r, d - 1);
  let (x, y, z) = (g(r), g(r), g(r));
  match r.below(22) {
    0 => format!("({x} + {y})"),
    1 => format!("{{ a += {x}; {y} }}"),
    2 => format!("{{ *b = {x}; {y} }}"),
    3 => format!("match o {{ Some(k) if k > {x} => {y}, Some(k) => k, None => {z} }}"),
    4 => format!("if {x} > {y} {{ {y} }} else {{ {z} }}"),
    5 => format!("f({x}, {y})"),
    6 => format!("(|k: i32| k + {x})({y})"),
    7 => format!("*(&mut {x})"),
    8 => format!("({x}, {y}).1"),
    9 => format!("loop {{ break {x} }}"),
    10 => format!("{{ v.push({x}); {y} }}"),
    11 => format!("v.get(({x}) as usize).copied().unwrap_or({y})"),
    12 => format!("m!({x})"),
    13 => format!("{{ let t = {x}; let ref u = a; t + *u }}"),
    14 => format!("*(&{x})"),
    15 => format!("{{ v[({x}) as usize] += {y}; {z} }}"),
    16 => format!("a.max(m!({x}))"),
    17 => format!("{{ v.push(x!()); v.insert(m!({x}) as usize, {y}); {z} }}"),
    18 => format!("{{ let mut w = [{x}, {y}]; w.sort(); w.reverse(); w.len() as i32 + w.iter().count() as i32 }}"),
    19 => format!("{{ let mut w = Box::new({x}); *w += 1; let t = &mut w; **t = {y}; **t + s.len() as i32 }}"),
    20 => format!("match ({x}, o) {{ (1, Some(k)) => {{ v.push(k); {y} }} (_, None) if s.is_empty() => {z}, _ => a }}"),
    _ => format!("{{ take(s.clone()); -{x} }}"),
  }
}

fn uses(rep: &mut Rep) {
  let mut progs = vec![BODIES.to_string()];
  let mut r = Rng::new(4);
  for _ in 0 .. if thorough() { 60 } else { 6 } {
    let mut p = String::from("macro_rules! m { ($e:expr) => { ($e) * ($e) }; }\nfn f(a: i32, b: i32) -> i32 { a - b }\nfn take(s: String) {}\n");
    for i in 0 .. 30 {
      p += &format!("fn g{i}(mut a: i32, b: &mut i32, mut v: Vec<i32>, p: (i32, i32), o: Option<i32>, s: String) -> i32 {{ macro_rules! x {{ () => {{ p.1 }}; }} {} }}\n", gen(&mut r, 3));
    }
    progs.push(p);
  }
  for src in &progs {
    let rp = &mut *rep;
    vprc::each_body(src, move |tcx, body_id| {
      use rustc_utils::BodyExt;
      let def = tcx.hir().body_owner_def_id(body_id);
      let facts = rustc_utils::mir::borrowck_facts::get_body_with_borrowck_facts(tcx, def);
      let ctxt = crate::analysis::permissions::compute(tcx, body_id, facts);
      let got: Vec<String> = get_path_boundaries(&ctxt).unwrap().iter()
        .map(|b| format!("{:?} {:?} {}", b.hir_id, b.location, s(b.expected.0))).collect();
      let mut o = Oracle { tcx, tr: tcx.typeck_body(body_id), env: ctxt.typing_env, out: vec![] };
      o.visit_nested_body(body_id);
      let text = tcx.sess.source_map().span_to_snippet(tcx.hir().body(body_id).value.span).unwrap_or_default();
      rp.case("body", &text);
      let (mut a, mut b) = (got.clone(), o.out.clone());
      a.sort(); b.sort();
      if a != b {
        let miss: Vec<_> = b.iter().filter(|x| !a.contains(x)).collect();
        let extra: Vec<_> = a.iter().filter(|x| !b.contains(x)).collect();
        rp.bad("uses", &text, &format!("{} uses, not recorded: {miss:?}", b.len()), &format!("{} uses, not expected: {extra:?}", a.len()));
      }
    });
  }
}
