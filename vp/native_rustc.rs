// Runs the analyses on source text the way the plugin does: after expansion, errors tracked per body.
#[allow(dead_code)]
pub mod vprc {
  use rustc_middle::ty::TyCtxt;
  use rustc_hir::BodyId;
  use rustc_utils::source_map::find_bodies::find_bodies;
  struct Loader(String);
  impl rustc_span::source_map::FileLoader for Loader {
    fn file_exists(&self, _: &std::path::Path) -> bool { true }
    fn read_file(&self, _: &std::path::Path) -> std::io::Result<String> { Ok(self.0.clone()) }
    fn read_binary_file(&self, p: &std::path::Path) -> std::io::Result<std::sync::Arc<[u8]>> { std::fs::read(p).map(Into::into) }
  }
  struct Cb<F>(Option<F>);
  impl<F: FnMut(TyCtxt<'_>, BodyId) + Send> rustc_driver::Callbacks for Cb<F> {
    fn config(&mut self, config: &mut rustc_interface::Config) {
      config.psess_created = Some(crate::errors::silent::silent_session());
      config.override_queries = Some(rustc_utils::mir::borrowck_facts::override_queries);
    }
    fn after_expansion(&mut self, _: &rustc_interface::interface::Compiler, tcx: TyCtxt<'_>) -> rustc_driver::Compilation {
      crate::errors::initialize_error_tracking();
      let mut f = self.0.take().unwrap();
      for (_, id) in find_bodies(tcx) {
        crate::errors::track_body_diagnostics(tcx.hir().body_owner_def_id(id));
        f(tcx, id);
      }
      rustc_driver::Compilation::Stop
    }
  }
  pub fn sysroot() -> String {
    let o = std::process::Command::new("rustc").args(["--print", "sysroot"]).output().unwrap().stdout;
    String::from_utf8(o).unwrap().trim().to_string()
  }
  /// false when the compiler stopped on a fatal error outside the callback
  pub fn each_body<F: FnMut(TyCtxt<'_>, BodyId) + Send>(src: &str, f: F) -> bool {
    let args = format!("rustc {} --edition=2021 -Z identify-regions -Z mir-opt-level=0 -Z track-diagnostics=yes -Z maximal-hir-to-mir-coverage -A warnings --crate-type lib --sysroot {}",
      rustc_utils::test_utils::DUMMY_FILE_NAME, sysroot());
    let args: Vec<String> = args.split(' ').map(str::to_string).collect();
    let mut cb = Cb(Some(f));
    rustc_driver::catch_fatal_errors(std::panic::AssertUnwindSafe(|| {
      let mut c = rustc_driver::RunCompiler::new(&args, &mut cb);
      c.set_file_loader(Some(Box::new(Loader(src.to_string()))));
      c.run()
    })).is_ok()
  }
}
