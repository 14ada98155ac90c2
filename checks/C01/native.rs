// Every combination of the recorded facts, on the real code.
include!(concat!(env!("VP_VERIF"), "/vp/native_common.rs"));
use super::*;
use vpc::*;

#[test]
fn vp_c01() {
  let mut rep = Rep::new();
  for m in 0u32 .. 512 {
    let b = |i: u32| m >> i & 1 == 1;
    for key in [0u32, 1, 7] {
      let d = PermissionsData {
        type_droppable: b(0), type_writeable: b(1), type_copyable: b(2), is_live: b(3), path_uninitialized: b(4),
        path_moved: b(5).then_some(MoveKey(key)), loan_read_refined: b(6).then_some(LoanKey(key)),
        loan_write_refined: b(7).then_some(LoanKey(key)), loan_drop_refined: b(8).then_some(LoanKey(key)),
      };
      let input = format!("{d:?}");
      let read = !b(5) && !b(4) && !b(6);
      let (write, own) = (read && b(1) && !b(7), read && b(0) && !b(8));
      rep.case("ignore_liveness", &input);
      let g = d.permissions_ignore_liveness();
      if (g.read, g.write, g.drop) != (read, write, own) {
        rep.bad("rules", &input, &format!("{read} {write} {own}"), &format!("{} {} {}", g.read, g.write, g.drop));
      }
      rep.case("permissions", &input);
      let g = d.permissions();
      let w = if b(3) { (read, write, own) } else { (false, false, false) };
      if (g.read, g.write, g.drop) != w { rep.bad("rules", &input, &format!("{w:?}"), &format!("{} {} {}", g.read, g.write, g.drop)); }
    }
  }
  for (g, w) in [(Permissions::bottom(), false), (Permissions::none(), false), (Permissions::all(), true)] {
    rep.case("constants", "");
    if (g.read, g.write, g.drop) != (w, w, w) { rep.bad("constants", "bottom/none/all", &format!("{w}"), &format!("{g:?}")); }
  }
  rep.done();
}
