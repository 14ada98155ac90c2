"""C16: a page shows, and the cache keeps, only answers of successful runs on the block's own code."""

F = "crates/mdbook-aquascope/src/preprocessor.rs"
B = "crates/mdbook-aquascope/src/block.rs"

STUBS = r"""
verus! {
#[derive(Debug)]
pub struct AnyErr;
pub type Result<T> = core::result::Result<T, AnyErr>;
macro_rules! bail { ($($t:tt)*) => { return Err(AnyErr) } }
pub trait Text { spec fn text(&self) -> Seq<char>; }
impl Text for str { open spec fn text(&self) -> Seq<char> { self@ } }
impl Text for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl<'a> Text for &'a str { open spec fn text(&self) -> Seq<char> { self@ } }
impl<'a> Text for &'a String { open spec fn text(&self) -> Seq<char> { self@ } }
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
#[verifier::external_body]
pub fn vp_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn vp_from_utf8(b: Vec<u8>) -> (r: Result<String>) ensures r is Ok <==> utf8(b@) is Some, r is Ok ==> r->Ok_0@ == utf8(b@)->Some_0 { unimplemented!() }

// ---- files and processes ----------------------------------------------------------------------------------------------
#[verifier::external_body]
pub struct PathBuf { p: u8 }
pub type Path = PathBuf;
pub uninterp spec fn join(p: Seq<char>, s: Seq<char>) -> Seq<char>;
impl Text for PathBuf { uninterp spec fn text(&self) -> Seq<char>; }
impl<'a> Text for &'a PathBuf { open spec fn text(&self) -> Seq<char> { (**self).text() } }
impl PathBuf { #[verifier::external_body] pub fn join(&self, s: &str) -> (r: PathBuf) ensures r.text() == join(self.text(), s@) { unimplemented!() } }
#[verifier::external_body]
pub struct TempDir { p: u8 }
#[verifier::external_body]
pub fn tempdir() -> Result<TempDir> { unimplemented!() }
impl TempDir { #[verifier::external_body] pub fn path(&self) -> &Path { unimplemented!() } }
/// the file holds this text
pub uninterp spec fn holds(p: Seq<char>, s: Seq<char>) -> bool;
pub mod fs { use super::*;
  #[verifier::external_body] pub fn write<P: Text, S: Text>(p: P, s: S) -> (r: Result<()>) ensures r is Ok ==> holds(p.text(), s.text()) { unimplemented!() } }
pub struct Stdio;
impl Stdio { #[verifier::external_body] pub fn null() -> Stdio { unimplemented!() } #[verifier::external_body] pub fn piped() -> Stdio { unimplemented!() } }
pub struct Duration;
impl Duration { #[verifier::external_body] pub fn from_secs(n: u64) -> Duration { unimplemented!() } }
/// A command as built so far: what is run, with which arguments, where.
pub struct Cmd { pub program: Seq<char>, pub args: Seq<Seq<char>>, pub dir: Option<Seq<char>> }
#[verifier::external_body]
pub struct Command { p: u8 }
pub open spec fn texts<T: Text>(v: Seq<T>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].text()) }
impl Command {
  pub uninterp spec fn c(&self) -> Cmd;
  #[verifier::external_body]
  pub fn new(p: &str) -> (r: Command) ensures r.c() == (Cmd { program: p@, args: Seq::empty(), dir: None }) { unimplemented!() }
  #[verifier::external_body]
  pub fn arg<T: Text>(&mut self, a: T) -> (r: &mut Command)
    ensures r.c() == (Cmd { args: old(self).c().args.push(a.text()), ..old(self).c() }), *final(self) == *final(r) { unimplemented!() }
  #[verifier::external_body]
  pub fn args<T: Text, const N: usize>(&mut self, a: [T; N]) -> (r: &mut Command)
    ensures r.c() == (Cmd { args: old(self).c().args + texts(a@), ..old(self).c() }), *final(self) == *final(r) { unimplemented!() }
  #[verifier::external_body]
  pub fn env<T: Text>(&mut self, k: &str, v: T) -> (r: &mut Command) ensures r.c() == old(self).c(), *final(self) == *final(r) { unimplemented!() }
  #[verifier::external_body]
  pub fn current_dir<T: Text>(&mut self, d: T) -> (r: &mut Command)
    ensures r.c() == (Cmd { dir: Some(d.text()), ..old(self).c() }), *final(self) == *final(r) { unimplemented!() }
  #[verifier::external_body]
  pub fn stdout(&mut self, s: Stdio) -> (r: &mut Command) ensures r.c() == old(self).c(), *final(self) == *final(r) { unimplemented!() }
  #[verifier::external_body]
  pub fn stderr(&mut self, s: Stdio) -> (r: &mut Command) ensures r.c() == old(self).c(), *final(self) == *final(r) { unimplemented!() }
  #[verifier::external_body]
  pub fn status(&mut self) -> (r: Result<ExitStatus>) ensures r is Ok && r->Ok_0.ok() ==> succeeded(old(self).c()) { unimplemented!() }
  #[verifier::external_body]
  pub fn spawn(&mut self) -> (r: Result<Child>) ensures r is Ok ==> cmd_of(r->Ok_0.run@) == old(self).c() && r->Ok_0.stdout is Some && r->Ok_0.stderr is Some && r->Ok_0.stdout->Some_0.all() == printed(r->Ok_0.run@) { unimplemented!() }
}
/// the command was run to its end and succeeded
pub uninterp spec fn succeeded(c: Cmd) -> bool;
/// One run of a command: what was run, how it ended, and all it printed.
pub struct Run { pub id: int }
pub uninterp spec fn cmd_of(r: Run) -> Cmd;
pub uninterp spec fn exit_ok(r: Run) -> bool;
pub uninterp spec fn printed(r: Run) -> Seq<u8>;
/// it ended by itself within the time given to it
pub uninterp spec fn in_time(r: Run) -> bool;
/// the command was run to its end in time, with this output
pub open spec fn outcome(c: Cmd, ok: bool, stdout: Seq<u8>) -> bool { exists|r: Run| #[trigger] cmd_of(r) == c && in_time(r) && exit_ok(r) == ok && printed(r) == stdout }
#[verifier::external_body]
pub struct ExitStatus { p: u8 }
impl ExitStatus { pub uninterp spec fn ok(&self) -> bool; #[verifier::external_body] pub fn success(&self) -> (r: bool) ensures r == self.ok() { unimplemented!() } }
pub struct Child { pub stdout: Option<Pipe>, pub stderr: Option<Pipe>, pub run: Ghost<Run> }
/// What one of the two output streams of a run will have carried when the run is over.
#[verifier::external_body]
pub struct Pipe { p: u8 }
impl Pipe { pub uninterp spec fn all(&self) -> Seq<u8>; }
pub trait Read: Sized {
  spec fn rest(&self) -> Seq<u8>;
  fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>) ensures r is Ok ==> final(buf)@ == old(buf)@ + old(self).rest();
}
impl Read for Pipe {
  open spec fn rest(&self) -> Seq<u8> { self.all() }
  #[verifier::external_body]
  fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>) { unimplemented!() }
}
pub mod io { pub use super::{Read, Result}; }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct JoinHandle<T> { p: core::marker::PhantomData<T> }
impl<T> JoinHandle<T> {
  pub uninterp spec fn may(&self, t: T) -> bool;
  #[verifier::external_body]
  pub fn join(self) -> (r: Result<T>) ensures r is Ok, self.may(r->Ok_0) { unimplemented!() }
}
pub mod thread { use super::*;
  #[verifier::external_body]
  pub fn spawn<T, F: FnOnce() -> T>(f: F) -> (h: JoinHandle<T>) requires call_requires(f, ()), ensures forall|t: T| #[trigger] h.may(t) ==> call_ensures(f, (), t) { unimplemented!() }
}
impl Child {
  #[verifier::external_body]
  pub fn wait_timeout(&mut self, d: Duration) -> (r: Result<Option<ExitStatus>>)
    ensures *final(self) == *old(self), r is Ok && r->Ok_0 is Some ==> in_time(old(self).run@) && r->Ok_0->Some_0.ok() == exit_ok(old(self).run@) { unimplemented!() }
  #[verifier::external_body]
  pub fn kill(&mut self) -> (r: Result<()>) ensures *final(self) == *old(self) { unimplemented!() }
}

// ---- JSON ---------------------------------------------------------------------------------------------------------------
pub enum J { Obj(Map<Seq<char>, Value>), Arr(Seq<Value>), Str(Seq<char>), Other }
pub uninterp spec fn json_text<T: ?Sized>(x: &T) -> Seq<char>;
pub uninterp spec fn json_parse(s: Seq<char>) -> Option<Value>;
pub uninterp spec fn trim_end(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn vp_trim_end(s: &String) -> (r: &str) ensures r@ == trim_end(s@) { unimplemented!() }
#[verifier::external_body]
pub struct Obj { p: u8 }
impl Obj {
  pub uninterp spec fn m(&self) -> Map<Seq<char>, Value>;
  #[verifier::external_body]
  pub fn get(&self, k: &str) -> (r: Option<&Value>) ensures r is Some <==> self.m().contains_key(k@), r is Some ==> *r->Some_0 == self.m()[k@] { unimplemented!() }
}
#[verifier::external_body]
pub struct Value { p: u8 }
impl Value {
  pub uninterp spec fn j(&self) -> J;
  pub open spec fn field(&self, k: Seq<char>) -> Option<Value> { match self.j() { J::Obj(m) => if m.contains_key(k) { Some(m[k]) } else { None }, _ => None } }
  #[verifier::external_body]
  pub fn as_object(&self) -> (r: Option<&Obj>) ensures r is Some <==> self.j() is Obj, r is Some ==> self.j() == J::Obj(r->Some_0.m()) { unimplemented!() }
  #[verifier::external_body]
  pub fn as_array(&self) -> (r: Option<&Vec<Value>>) ensures r is Some <==> self.j() is Arr, r is Some ==> self.j() == J::Arr(r->Some_0@) { unimplemented!() }
  #[verifier::external_body]
  pub fn as_str(&self) -> (r: Option<&str>) ensures r is Some <==> self.j() is Str, r is Some ==> self.j() == J::Str(r->Some_0@) { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, k: &str) -> (r: Option<&Value>) ensures r is Some <==> self.field(k@) is Some, r is Some ==> *r->Some_0 == self.field(k@)->Some_0 { unimplemented!() }
}
pub mod serde_json { use super::*; pub use super::Value;
  #[verifier::external_body] pub fn from_str<S: Text + ?Sized>(s: &S) -> (r: Result<Value>) ensures r is Ok <==> json_parse(s.text()) is Some, r is Ok ==> r->Ok_0 == json_parse(s.text())->Some_0 { unimplemented!() }
  #[verifier::external_body] pub fn to_string<T>(x: &T) -> (r: Result<String>) ensures r is Ok ==> r->Ok_0@ == json_text(x) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K: View, V> HashMap<K, V> {
  pub uninterp spec fn m(&self) -> Map<K::V, V>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r.m() == Map::<K::V, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K, v: V) -> Option<V> ensures final(self).m() == old(self).m().insert(k@, v) { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_any<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
  requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
  ensures r ==> exists|i: int| 0 <= i < v@.len() && call_ensures(f, (&#[trigger] v@[i],), true), !r ==> forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (&#[trigger] v@[i],), false) { unimplemented!() }
pub struct AquascopeAnnotations;
"""

SPECS = r"""
impl AquascopeBlock {
  pub open spec fn option(&self, k: Seq<char>) -> bool { exists|i: int| 0 <= i < self.config@.len() && (#[trigger] self.config@[i]).0@ == k }
  #[verifier::external_body]
  pub fn clone(&self) -> (r: AquascopeBlock) ensures r == *self { unimplemented!() }
}
pub open spec fn is_error(v: Value) -> bool {
  v.field("Err"@) is Some || (v.j() is Arr && exists|i: int| 0 <= i < v.j()->Arr_0.len() && (#[trigger] v.j()->Arr_0[i]).field("Err"@) is Some)
    || (v.field("type"@) is Some && v.field("type"@)->Some_0.j() == J::Str("BuildError"@))
}
/// the one command that answers an operation on a block whose project is in `root`
pub open spec fn command(b: AquascopeBlock, op: Seq<char>, root: Seq<char>) -> Cmd {
  Cmd { program: "cargo"@, dir: Some(join(root, "example"@)),
    args: (if b.option("shouldFail"@) { seq!["aquascope"@].push("--should-fail"@) } else { seq!["aquascope"@] }).push(op)
      + (if b.option("showFlows"@) { seq!["--show-flows"@] } else { Seq::empty() }) }
}
/// The answer is what that command printed, it succeeded, and it reports no error.
pub open spec fn answered(b: AquascopeBlock, op: Seq<char>, root: Seq<char>, v: Value) -> bool {
  !is_error(v) && exists|out: Seq<u8>| #[trigger] outcome(command(b, op, root), true, out) && utf8(out) is Some && json_parse(utf8(out)->Some_0) == Some(v)
}
pub open spec fn project(b: AquascopeBlock, root: Seq<char>) -> bool {
  holds(join(root, "example/src/main.rs"@), b.code@)
    && succeeded(Cmd { program: "cargo"@, args: seq!["new"@, "--bin"@, "example"@], dir: Some(root) })
}
pub open spec fn all_answered(b: AquascopeBlock, root: Seq<char>, m: Map<Seq<char>, Value>, n: int) -> bool {
  &&& forall|i: int| 0 <= i < n ==> m.contains_key((#[trigger] b.operations@[i])@)
  &&& forall|op: Seq<char>| #[trigger] m.contains_key(op) ==> answered(b, op, root, m[op]) && exists|i: int| 0 <= i < n && (#[trigger] b.operations@[i])@ == op
}
/// What may be shown or kept for a block: the answers to exactly its operations, each from a successful run on its code.
pub open spec fn legit(b: AquascopeBlock, text: Seq<char>) -> bool {
  exists|root: Seq<char>, m: HashMap<&String, Value>| #[trigger] project(b, root) && #[trigger] all_answered(b, root, m.m(), b.operations@.len() as int) && text == json_text(&m)
}
// ---- the cache: every entry is legitimate (the invariant every write must keep) -------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Cache<K, V> { p: core::marker::PhantomData<(K, V)> }
impl Cache<AquascopeBlock, String> {
  #[verifier::external_body]
  pub fn get(&self, k: &AquascopeBlock) -> (r: Option<&String>) ensures r is Some ==> legit(*k, r->Some_0@) { unimplemented!() }
  #[verifier::external_body]
  pub fn set(&mut self, k: AquascopeBlock, v: String) requires legit(k, v@) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLock<T> { p: core::marker::PhantomData<T> }
impl<T> RwLock<T> {
  #[verifier::external_body] pub fn read(&self) -> (r: core::result::Result<&T, AnyErr>) ensures r is Ok { unimplemented!() }
  #[verifier::external_body] pub fn write(&self) -> (r: core::result::Result<&mut T, AnyErr>) ensures r is Ok { unimplemented!() }
}
pub trait Cloned { fn vp_cloned(self) -> Option<String>; }
impl<'a> Cloned for Option<&'a String> {
  #[verifier::external_body]
  fn vp_cloned(self) -> (r: Option<String>) ensures r is Some <==> self is Some, r is Some ==> r->Some_0 == *self->Some_0 { unimplemented!() }
}
// ---- the element put into the page ------------------------------------------------------------------------------------------
#[verifier::external_body]
pub struct HtmlElementBuilder { p: u8 }
impl HtmlElementBuilder {
  pub uninterp spec fn a(&self) -> Seq<(Seq<char>, Seq<char>)>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r.a() == Seq::<(Seq<char>, Seq<char>)>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn attr(&mut self, k: &str, v: &str) -> (r: &mut Self) ensures r.a() == old(self).a().push((k@, v@)), *final(self) == *final(r) { unimplemented!() }
  #[verifier::external_body]
  pub fn data<T: Shown>(&mut self, k: &str, v: T) -> (r: Result<&mut Self>)
    ensures r is Ok ==> r->Ok_0.a() == old(self).a().push((k@, v.shown())) && *final(self) == *final(r->Ok_0) { unimplemented!() }
  #[verifier::external_body]
  pub fn finish(self) -> (r: String) ensures r@ == element(self.a()) { unimplemented!() }
}
pub uninterp spec fn element(a: Seq<(Seq<char>, Seq<char>)>) -> Seq<char>;
pub trait Shown { spec fn shown(&self) -> Seq<char>; }
impl<'a> Shown for &'a String { open spec fn shown(&self) -> Seq<char> { json_text(*self) } }
impl<'a> Shown for &'a AquascopeAnnotations { open spec fn shown(&self) -> Seq<char> { json_text(*self) } }
impl<'a> Shown for &'a Vec<String> { open spec fn shown(&self) -> Seq<char> { json_text(*self) } }
impl Shown for Value { open spec fn shown(&self) -> Seq<char> { json_text(self) } }
impl Shown for bool { open spec fn shown(&self) -> Seq<char> { json_text(self) } }
#[verifier::external_body]
pub struct Config { p: u8 }
impl Config { pub uninterp spec fn of(&self) -> Seq<(String, String)>; }
impl<'a> Shown for &'a Config { open spec fn shown(&self) -> Seq<char> { config_text(self.of()) } }
pub uninterp spec fn config_text(c: Seq<(String, String)>) -> Seq<char>;
#[verifier::external_body]
pub fn vp_config(c: &Vec<(String, String)>) -> (r: Config) ensures r.of() == c@ { unimplemented!() }
pub open spec fn shows(b: AquascopeBlock, v: Value, html: Seq<char>) -> bool {
  html == element(attrs(b, v))
}
pub open spec fn attrs(b: AquascopeBlock, v: Value) -> Seq<(Seq<char>, Seq<char>)> {
  seq![("class"@, "aquascope-embed"@), ("code"@, json_text(&b.code)), ("annotations"@, json_text(&b.annotations)), ("operations"@, json_text(&b.operations)),
    ("responses"@, json_text(&v)), ("config"@, config_text(b.config@)), ("no-interact"@, json_text(&true))]
}
"""

LITS = ["shouldFail", "showFlows", "cargo", "example", "aquascope", "--should-fail", "--show-flows", "new", "--bin", "Err", "type", "BuildError", "example/src/main.rs",
        "class", "code", "annotations", "operations", "responses", "config", "no-interact", "aquascope-embed"]


def build(ctx):
    u = ctx.unit("runs")
    u.raw(STUBS)
    u.item(B, "struct", "AquascopeBlock")
    u.raw(SPECS)
    u.item(F, "struct", "AquascopePreprocessor")
    u.fn(F, "read_all", ret="r", spec="ensures r is Ok ==> r->Ok_0@ == pipe.rest()", tail="proof { assert(buf@ =~= pipe0.rest()); }", start="    let ghost pipe0 = pipe;")
    u.impl(F, "AquascopePreprocessor", None, {
        "run_aquascope": dict(ret="r", spec="ensures r is Ok ==> legit(*block, r->Ok_0@)",
            subst=[(r"(\w+(?:\.\w+)*)\.iter\(\)\.any\(", r"vp_any(&\1, ", "slice iterator's any, by contract"), (r'\bk == "', r'vp_eq(k, "', "comparing a String with a literal, by contract"),
                   (r'(vp_eq\(k, "\w+")', r'\1)', "comparing a String with a literal, by contract"),
                   (r"String::from_utf8\(", "vp_from_utf8(", "String::from_utf8 by its contract"),
                   (r"let mut responses = HashMap::new\(\)", "let mut responses: HashMap<&String, Value> = HashMap::new()", "inferred type written out")],
            start="""    broadcast use axiom_str_ext;""",
            loops=[dict(kind="for", iter="it", inv="""      invariant
        it.seq().len() == block.operations@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == block.operations@[i],
        project(*block, root.text()),
        all_answered(*block, root.text(), responses.m(), it.index@),""",
                        start="""      let ghost n = it.index@; let ghost m0 = responses.m(); broadcast use axiom_str_ext;
      proof { assert(block.operations@[n] == *operation); }""",
                        end="""      proof {
        assert(answered(*block, operation@, root.text(), responses.m()[operation@]));
        assert forall|op: Seq<char>| #[trigger] responses.m().contains_key(op) implies answered(*block, op, root.text(), responses.m()[op]) && exists|i: int| 0 <= i < n + 1 && (#[trigger] block.operations@[i])@ == op by {
          if op == operation@ { assert(block.operations@[n]@ == op); } else { assert(m0.contains_key(op)); let i = choose|i: int| 0 <= i < n && (#[trigger] block.operations@[i])@ == op; assert(block.operations@[i]@ == op); }
        }
      }""")],
            closures=[dict(types=["&(String, String)"], ret="r: bool", spec='ensures r == (vp_c0.0@ == "shouldFail"@)'),
                      dict(types=["&(String, String)"], ret="r: bool", spec='ensures r == (vp_c0.0@ == "showFlows"@)'),
                      dict(ret="r: io::Result<Vec<u8>>", spec="ensures r is Ok ==> r->Ok_0@ == stdout.rest()"),
                      dict(ret="r: io::Result<Vec<u8>>", spec="ensures r is Ok ==> r->Ok_0@ == stderr.rest()"),
                      dict(types=["&Value"], ret="r: bool", spec='ensures r == (obj.field("Err"@) is Some)'),
                      dict(types=["&Value"], ret="r: Option<&str>", spec="ensures r is Some <==> ty.j() is Str, r is Some ==> ty.j() == J::Str(r->Some_0@)")],
            at=[(r"if should_fail", "before", """let ghost c0 = cmd.c(); proof { if should_fail { assert(block.option("shouldFail"@)); } else { assert(!block.option("shouldFail"@)); }
        assert(c0.args =~= seq!["aquascope"@]); }"""),
                (r"if show_flows", "before", """proof { if show_flows { assert(block.option("showFlows"@)); } else { assert(!block.option("showFlows"@)); } }"""),
                (r"let mut child =", "before", """let ghost c_all = cmd.c(); proof { assert(c_all.program == "cargo"@); assert(c_all.dir == Some(join(root.text(), "example"@))); assert(c_all.args =~= command(*block, operation@, root.text()).args); assert(c_all == command(*block, operation@, root.text())); }"""),
                (r"responses\s*\.insert\(", "before", """proof { assert(cmd_of(child.run@) == c_all); assert(outcome(command(*block, operation@, root.text()), true, printed(child.run@))); }"""),
                (r"fs::write\(", "before", """    proof { let a = seq!["new"@, "--bin"@, "example"@];
      assert(texts(["new", "--bin", "example"]@) =~= a); assert(Seq::<Seq<char>>::empty() + a =~= a); }"""),
                ]),
        "process_code": dict(ret="r", spec="ensures r is Ok ==> exists|s: Seq<char>| #[trigger] legit(block, s) && json_parse(trim_end(s)) is Some && shows(block, json_parse(trim_end(s))->Some_0, r->Ok_0@)",
            subst=[(r"\.cloned\(\)", ".vp_cloned()", "Option::cloned by its contract"), (r"(\w+)\.trim_end\(\)", r"vp_trim_end(&\1)", "str::trim_end by its contract"),
                   (r"(?s)block\s*\.config\s*\.iter\(\)\s*\.map\(\|\(k, v\)\| \(k, v\)\)\s*\.collect::<HashMap<_, _>>\(\)", "vp_config(&block.config)", "the options as a map"),
                   ], tail="proof { assert(legit(block, response_str@)); assert(html.a() =~= attrs(block, response)); }"),
    }, types=False)
    u.helpers()
    u.raw("} fn main() {}")
    return u


UNITS = [("runs", build)]
TRUSTED = ["std::process, wait-timeout, std::fs, serde_json and the HTML element builder by contracts", "cache entries written by earlier runs of the same code are answers too"]
ASSUMPTIONS = ["the cache file holds what an earlier run stored (C15)"]
BOUNDED = "the real preprocessor against a stand-in for cargo in a scratch directory that fails, hangs, prints garbage or answers"


def native_run(ctx):
    return ctx.native_crate("mdbook-aquascope", {F: [("vp_c16", "native.rs")]}, "vp_c16")
