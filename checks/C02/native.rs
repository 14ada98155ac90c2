// The recorded facts against the documented rules, recomputed by plain loops, on compiled programs; and the states reported from them.
include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_rustc.rs"));
include!(concat!(env!("VP_VERIF"), "/vp/native_progs.rs"));
use super::*;
use std::collections::{BTreeMap, BTreeSet};
use rustc_borrowck::consumers::RichLocation;
use rustc_utils::{PlaceExt as _, TyExt};
use vpc::*;

fn facts(rep: &mut Rep, tcx: TyCtxt<'_>, body_id: BodyId) {
  let def = tcx.hir().body_owner_def_id(body_id);
  let bwf = rustc_utils::mir::borrowck_facts::get_body_with_borrowck_facts(tcx, def);
  let c = compute(tcx, body_id, bwf);
  let body = &bwf.body;
  let text = tcx.sess.source_map().span_to_snippet(tcx.hir().body(body_id).value.span).unwrap_or_default();
  let inp = &c.polonius_input_facts;
  let o = &c.permissions_output;
  rep.case("body", &text);

  let mut points: BTreeSet<Point> = BTreeSet::new();
  for &(a, b) in &inp.cfg_edge { points.insert(a); points.insert(b); }
  let edges: BTreeSet<(Point, Point)> = inp.cfg_edge.iter().copied().collect();
  let conflict = |a: Place<'_>, b: Place<'_>| {
    // lifetimes only: both come from this body
    let (a, b): (Place<'_>, Place<'_>) = unsafe { (std::mem::transmute(a), std::mem::transmute(b)) };
    places_conflict(tcx, body, a, b, PlaceConflictBias::Overlap)
  };
  let mpath = |m: rustc_mir_dataflow::move_paths::MovePathIndex| c.place_to_path(&c.move_data.move_paths[m].place);

  // every place known: those of the body and those that can be moved
  let mut places: Vec<Place<'_>> = body.all_places(tcx, def.to_def_id()).collect();
  places.extend(c.move_data.move_paths.iter().map(|m| m.place));
  let paths: BTreeSet<Path> = places.iter().map(|p| c.place_to_path(p)).collect();
  let place_of: BTreeMap<Path, Place<'_>> = places.iter().map(|p| (c.place_to_path(p), p.normalize(tcx, def.to_def_id()))).collect();
  for (&path, &place) in &place_of {
    if c.place_data[path] != place { rep.bad("path-place", &text, &format!("{place:?}"), &format!("{:?}", c.place_data[path])); }
  }

  // loans
  for (kind, table) in [("read", &o.loan_read_refined), ("write", &o.loan_write_refined), ("drop", &o.loan_drop_refined)] {
    for &pt in &points {
      let live: Vec<Loan> = c.polonius_output.loan_live_at.get(&pt).cloned().unwrap_or_default().into_iter()
        .filter(|l| kind != "read" || matches!(c.borrow_set[*l].kind(), rustc_middle::mir::BorrowKind::Mut { .. })).collect();
      for (&path, &place) in &place_of {
        let want: Vec<Loan> = live.iter().copied().filter(|l| {
          inp.loan_issued_at.iter().any(|(_, i, _)| i == l) && places.iter().any(|q| c.place_to_path(q) == path && conflict(c.borrow_set[*l].borrowed_place(), *q))
        }).collect();
        let got = table.get(&pt).and_then(|m| m.get(&path)).copied();
        rep.count("loan");
        if got.is_none() != want.is_empty() || got.is_some_and(|l| !want.contains(&l)) {
          rep.bad(&format!("loan-{kind}"), &format!("{text} at {pt:?} {place:?}"), &format!("one of {want:?}"), &format!("{got:?}"));
        }
      }
    }
  }

  // initialization
  let mut uninit: BTreeSet<(Path, Point)> = BTreeSet::new();
  for (p1, ms) in &c.polonius_output.path_maybe_uninitialized_on_exit {
    for m in ms { for &(a, b) in &edges { if a == *p1 { uninit.insert((mpath(*m), b)); } } }
  }
  let children: Vec<(Path, Path)> = inp.child_path.iter().map(|&(a, b)| (mpath(a), mpath(b))).collect();
  loop {
    let add: Vec<_> = uninit.iter().flat_map(|&(p, pt)| children.iter().filter(move |c| c.0 == p).map(move |c| (c.1, pt))).filter(|x| !uninit.contains(x)).collect();
    if add.is_empty() { break; }
    uninit.extend(add);
  }
  let got: BTreeSet<(Path, Point)> = o.path_maybe_uninitialized_on_entry.iter().flat_map(|(pt, ps)| ps.iter().map(move |p| (*p, *pt))).collect();
  rep.count("uninitialized");
  if got != uninit { rep.bad("uninitialized", &text, &format!("{:?} more", uninit.difference(&got).collect::<Vec<_>>()), &format!("{:?} more", got.difference(&uninit).collect::<Vec<_>>())); }

  // moves
  let mut after: BTreeSet<(u32, Point)> = BTreeSet::new();
  let loc = |l| bwf.location_table.as_ref().unwrap().start_index(l);
  for (m, mo) in c.move_data.moves.iter_enumerated() { after.insert((m.as_u32(), loc(mo.source))); }
  loop {
    let mut add = vec![];
    for &(m, p1) in &after { for &(a, p2) in &edges { if a == p1 && !after.contains(&(m, p2)) {
      let moved = c.place_data[mpath(c.move_data.moves[Move::from_u32(m)].path)];
      let assigned = inp.path_assigned_at_base.iter().any(|&(to, p)| p == p2 && conflict(c.place_data[mpath(to)], moved));
      if !assigned { add.push((m, p2)); }
    } } }
    if add.is_empty() { break; }
    after.extend(add);
  }
  let live: BTreeSet<(u32, Point)> = after.iter().flat_map(|&(m, p1)| edges.iter().filter(move |e| e.0 == p1).map(move |e| (m, e.1))).collect();
  let got: BTreeSet<(u32, Point)> = o.move_live_at.iter().flat_map(|(pt, ms)| ms.iter().map(move |m| (m.as_u32(), *pt))).collect();
  rep.count("move-live");
  if got != live { rep.bad("move-live", &text, &format!("{:?} more", live.difference(&got).collect::<Vec<_>>()), &format!("{:?} more", got.difference(&live).collect::<Vec<_>>())); }
  let mut touched: BTreeSet<(Path, u32)> = BTreeSet::new();
  for (m, mo) in c.move_data.moves.iter_enumerated() {
    let top = c.place_data[mpath(mo.path)];
    for q in top.interior_paths(tcx, body, def.to_def_id()) { touched.insert((c.place_to_path(&q), m.as_u32())); }
    let mut k = c.move_data.move_paths[mo.path].parent;
    while let Some(p) = k { touched.insert((mpath(p), m.as_u32())); k = c.move_data.move_paths[p].parent; }
  }
  for &pt in &points { for &path in &paths {
    let want: Vec<u32> = live.iter().filter(|x| x.1 == pt && touched.contains(&(path, x.0))).map(|x| x.0).collect();
    let got = o.move_refined.get(&pt).and_then(|m| m.get(&path)).map(|m| m.as_u32());
    rep.count("moved");
    if got.is_none() != want.is_empty() || got.is_some_and(|m| !want.contains(&m)) {
      rep.bad("moved", &format!("{text} at {pt:?} {:?}", c.place_data[path]), &format!("one of {want:?}"), &format!("{got:?}"));
    }
  } }

  // by type and declaration
  let ty_of = |l, proj: &[rustc_middle::mir::PlaceElem<'_>]| {
    let proj: &[rustc_middle::mir::PlaceElem<'_>] = unsafe { std::mem::transmute(proj) };
    Place::ty_from(l, proj, body, tcx).ty
  };
  let mut fixed = BTreeMap::new();
  for (&path, &place) in &place_of {
    let readonly = body.local_decls[place.local].mutability == Mutability::Not;
    let derefs: Vec<usize> = place.projection.iter().enumerate().filter(|(_, e)| matches!(e, ProjectionElem::Deref)).map(|(i, _)| i).collect();
    let mut never = derefs.is_empty() && readonly;
    for &i in &derefs {
      never |= match ty_of(place.local, &place.projection[.. i]).kind() {
        rustc_middle::ty::TyKind::Ref(_, _, m) => *m == Mutability::Not,
        _ => readonly && !place.projection[.. i].iter().any(|e| matches!(e, ProjectionElem::Deref)),
      };
    }
    let mut own = derefs.is_empty();
    for (i, e) in place.projection.iter().enumerate() {
      own &= !matches!(e, ProjectionElem::Index(_) | ProjectionElem::ConstantIndex { .. } | ProjectionElem::Subslice { .. });
      if let rustc_middle::ty::TyKind::Adt(adt, _) = ty_of(place.local, &place.projection[.. i]).kind() { own &= !(adt.has_dtor(tcx) && !adt.is_box()); }
    }
    let copy = ty_of(place.local, place.projection).is_copyable(tcx, c.typing_env);
    rep.count("type");
    if o.never_write.contains(&path) != never { rep.bad("never-write", &format!("{text} {place:?}"), &format!("{never}"), &format!("{}", !never)); }
    let mx = c.max_permissions(path);
    if (mx.read, mx.write, mx.drop) != (true, !never, own) { rep.bad("max", &format!("{text} {place:?}"), &format!("{never} {own}"), &format!("{mx:?}")); }
    fixed.insert(path, (!never, own, copy));
  }

  // what is reported
  for &pt in &points {
    let dom = c.permissions_domain_at_point(pt);
    let all: BTreeSet<_> = body.all_places(tcx, def.to_def_id()).map(|p| format!("{p:?}")).collect();
    let got: BTreeSet<_> = dom.keys().map(|p| format!("{p:?}")).collect();
    if all != got { rep.bad("domain", &text, &format!("{all:?}"), &format!("{got:?}")); }
    for (&path, &place) in &place_of {
      let d = c.permissions_data_at_point(path, pt);
      let (w, own, copy) = fixed[&path];
      let live = c.polonius_output.var_live_on_entry.get(&pt).is_some_and(|v| v.iter().any(|x| *x == place.local));
      let f = |t: &HashMap<Point, HashMap<Path, Loan>>| t.get(&pt).and_then(|m| m.get(&path)).map(|l| LoanKeyOf(l.as_u32()));
      let ok = d.type_writeable == w && d.type_droppable == own && d.type_copyable == copy && d.is_live == live
        && d.path_uninitialized == uninit.contains(&(path, pt))
        && d.path_moved.map(|m| m.0) == o.move_refined.get(&pt).and_then(|m| m.get(&path)).map(|m| m.as_u32())
        && d.loan_read_refined.map(|l| l.0) == f(&o.loan_read_refined).map(|l| l.0)
        && d.loan_write_refined.map(|l| l.0) == f(&o.loan_write_refined).map(|l| l.0)
        && d.loan_drop_refined.map(|l| l.0) == f(&o.loan_drop_refined).map(|l| l.0);
      rep.count("reported");
      if !ok { rep.bad("reported", &format!("{text} at {pt:?} {place:?}"), "the recorded facts", &format!("{d:?}")); }
      if let Some(x) = dom.iter().find(|(p, _)| c.place_to_path(p) == path) {
        if *x.1 != d { rep.bad("domain-value", &format!("{text} at {pt:?} {place:?}"), &format!("{d:?}"), &format!("{:?}", x.1)); }
      }
    }
  }
  for (place, d) in c.domain_bottom().iter() {
    rep.count("bottom");
    if d.is_live || d.type_droppable || d.type_writeable || d.type_copyable || d.path_uninitialized || d.path_moved.is_some()
      || d.loan_read_refined.is_some() || d.loan_write_refined.is_some() || d.loan_drop_refined.is_some() {
      rep.bad("bottom", &format!("{text} {place:?}"), "nothing", &format!("{d:?}"));
    }
  }
  let _ = RichLocation::Start;
}
struct LoanKeyOf(u32);

/// Parts moved out of a value whose type contains itself.
const RECURSIVE: &[&str] = &[
  "enum E { A(Box<E>), B { x: String }, C } fn f(e: E) -> usize { match e { E::A(b) => f(*b), E::B { x } => x.len(), E::C => 0 } }",
  "enum L { Nil, Cons(String, Box<L>) } fn f(l: L) -> usize { match l { L::Nil => 0, L::Cons(s, t) => { let n = *t; s.len() + f(n) } } } fn g(l: L) -> Option<Box<L>> { if let L::Cons(_, t) = l { let k = t; return Some(k); } None }",
  "struct T { l: Option<Box<T>>, v: String } fn f(t: T) -> usize { let T { l, v } = t; let n = v.len(); match l { Some(b) => { let u = *b; n + u.v.len() } None => n } } fn g(mut t: T) { let a = t.l; t.l = None; drop(a); drop(t); }",
];

#[test]
fn vp_c02() {
  let mut rep = Rep::new();
  for src in vpp::groups() {
    let r = &mut rep;
    vprc::each_body(&src, move |tcx, id| facts(r, tcx, id));
  }
  for src in RECURSIVE {
    let r = &mut rep;
    vprc::each_body(src, move |tcx, id| facts(r, tcx, id));
  }
  rep.done();
}
