"""Keys for vstd's HashMap/HashSet contracts: another crate's key type, opaque, with the usual Eq/Hash law assumed."""

USE = """use std::collections::{HashMap, HashSet};
use std::collections::hash_map::Entry;
use vstd::std_specs::hash::*;
pub type FxHashMap<K, V> = HashMap<K, V>;
pub type FxHashSet<K> = HashSet<K>;
"""


def key(name, decl=None, lifetime=False, copy=True):
    lt = "<'tcx>" if lifetime else ""
    ty = name + ("<'_>" if lifetime else "")
    decl = decl or (f"#[verifier::external_body]\n" + ("#[derive(Copy, Clone)]\n" if copy else "")
                    + f"pub struct {name}{lt} {{ x: u64, " + ("p: core::marker::PhantomData<&'tcx u8> " if lifetime else "") + "}")
    return f"""
{decl}
impl{lt} PartialEqSpecImpl for {name}{lt} {{
  open spec fn obeys_eq_spec() -> bool {{ true }}
  open spec fn eq_spec(&self, o: &{name}{lt}) -> bool {{ *self == *o }}
}}
impl{lt} PartialEq for {name}{lt} {{ #[verifier::external_body] fn eq(&self, o: &{name}{lt}) -> bool {{ unimplemented!() }} }}
impl{lt} Eq for {name}{lt} {{}}
impl{lt} std::hash::Hash for {name}{lt} {{ #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) {{ unimplemented!() }} }}
#[verifier::external]
impl{lt} std::fmt::Debug for {name}{lt} {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ unimplemented!() }} }}
pub broadcast axiom fn {name.lower()}_is_key{lt}() ensures #[trigger] obeys_key_model::<{name}{lt}>();
"""
