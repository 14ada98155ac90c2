// The real Difference impls against a restated table.
include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
use super::*;
use rustc_middle::mir::Local;
use vpc::*;

fn tag<A: Stepable>(s: &ValueStep<A>) -> String {
  match s {
    ValueStep::High { value } => format!("high {value:?}"),
    ValueStep::Low => "low".into(),
    ValueStep::None { value } => format!("none {value:?}"),
  }
}
fn wb(a: bool, b: bool) -> String {
  match (a, b) { (true, false) => "low".into(), (false, true) => "high true".into(), _ => format!("none {:?}", Some(a)) }
}
fn wo<A: std::fmt::Debug>(a: Option<A>, b: Option<A>) -> String {
  match (a, b) { (Some(_), None) => "low".into(), (None, Some(v)) => format!("high {v:?}"), (_, b) => format!("none {b:?}") }
}
fn mk(m: u32, k: u32) -> PermissionsData {
  let b = |i: u32| m >> i & 1 == 1;
  PermissionsData {
    type_droppable: b(0), type_writeable: b(1), type_copyable: true, is_live: b(2), path_uninitialized: b(3),
    path_moved: b(4).then_some(MoveKey(k)), loan_read_refined: b(5).then_some(LoanKey(k + 1)),
    loan_write_refined: b(6).then_some(LoanKey(k + 2)), loan_drop_refined: b(7).then_some(LoanKey(k + 3)),
  }
}
fn got(d: &PermissionsDataDiff) -> Vec<String> {
  vec![tag(&d.is_live), tag(&d.type_droppable), tag(&d.type_writeable), tag(&d.path_moved), tag(&d.path_uninitialized),
    tag(&d.loan_read_refined), tag(&d.loan_write_refined), tag(&d.loan_drop_refined),
    tag(&d.permissions.read), tag(&d.permissions.write), tag(&d.permissions.drop)]
}
fn want(a: &PermissionsData, b: &PermissionsData) -> Vec<String> {
  let (p, q) = (a.permissions(), b.permissions());
  vec![wb(a.is_live, b.is_live), wb(a.type_droppable, b.type_droppable), wb(a.type_writeable, b.type_writeable),
    wo(a.path_moved, b.path_moved), wb(a.path_uninitialized, b.path_uninitialized),
    wo(a.loan_read_refined, b.loan_read_refined), wo(a.loan_write_refined, b.loan_write_refined),
    wo(a.loan_drop_refined, b.loan_drop_refined), wb(p.read, q.read), wb(p.write, q.write), wb(p.drop, q.drop)]
}

#[test]
fn vp_c03() {
  let mut rep = Rep::new();
  for m in 0u32 .. 256 {
    for n in 0u32 .. 256 {
      for (k, l) in [(0, 0), (3, 9)] {
        let (a, b) = (mk(m, k), mk(n, l));
        rep.count("PermissionsData");
        let d = a.diff(b);
        let (g, w) = (got(&d), want(&a, &b));
        let input = format!("{a:?} -> {b:?}");
        if m % 31 == 0 && n % 29 == 0 { rep.case("sampled", &input); }
        if g != w { rep.bad("diff", &input, &format!("{w:?}"), &format!("{g:?}")); }
        let (p, q) = (a.permissions(), b.permissions());
        let same = (p.read, p.write, p.drop) == (q.read, q.write, q.drop);
        if d.is_empty() != same { rep.bad("is_empty", &input, &format!("{same}"), &format!("{}", d.is_empty())); }
        if d.permissions.is_empty() != same { rep.bad("is_empty", &input, &format!("{same}"), &format!("{}", !same)); }
        if !d.is_symmetric_diff(&b.diff(a)) { rep.bad("symmetric", &input, "symmetric", "not"); }
      }
    }
  }
  // symmetry of two arbitrary steps, over the permission bits alone
  let bits = |m: u32| Permissions { read: m & 1 == 1, write: m & 2 == 2, drop: m & 4 == 4 };
  let full = |x: Permissions| PermissionsData { is_live: true, type_droppable: true, type_writeable: true, type_copyable: true, path_uninitialized: !x.read,
    path_moved: None, loan_read_refined: None, loan_write_refined: (!x.write).then_some(LoanKey(0)), loan_drop_refined: (!x.drop).then_some(LoanKey(0)) };
  for i in 0 .. 4096u32 {
    let (a, b, c, d) = (bits(i), bits(i >> 3), bits(i >> 6), bits(i >> 9));
    if [a, b, c, d].iter().any(|x| !x.read && (x.write || x.drop)) { continue; }
    rep.count("symmetry");
    let (s, t) = (full(a).diff(full(b)), full(c).diff(full(d)));
    let sg = |x: bool, y: bool| y as i32 - x as i32;
    let w = sg(a.read, b.read) == -sg(c.read, d.read) && sg(a.write, b.write) == -sg(c.write, d.write) && sg(a.drop, b.drop) == -sg(c.drop, d.drop);
    if s.is_symmetric_diff(&t) != w { rep.bad("symmetric", &format!("{a:?}->{b:?} then {c:?}->{d:?}"), &format!("{w}"), &format!("{}", !w)); }
  }
  // whole domains
  let mut r = Rng::new(3);
  for _ in 0 .. if thorough() { 20_000 } else { 2_000 } {
    let n = r.below(5);
    let (mut a, mut b) = (HashMap::default(), HashMap::default());
    for i in 0 .. n {
      let p = Place::from(Local::from_usize(i));
      a.insert(p, mk(r.below(256) as u32, r.below(3) as u32));
      b.insert(p, mk(r.below(256) as u32, r.below(3) as u32));
    }
    let input = format!("{a:?} -> {b:?}");
    rep.case("domain", &input);
    let (da, db): (PermissionsDomain, PermissionsDomain) = (a.clone().into(), b.clone().into());
    let d = (&da).diff(&db);
    if d.len() != a.len() || !a.iter().all(|(p, x)| d.get(p).is_some_and(|d| got(d) == want(x, &b[p]))) {
      rep.bad("domain", &input, "the difference of each place", &format!("{d:?}"));
    }
  }
  rep.done();
}
