"""Stand-ins for other crates' types in the generated files.  Everything here is trusted and listed as such."""


def ordered(name, decl, key, eq_only=False, hash_=False):
    """A struct whose derived Eq/Ord (another crate's) is assumed to mean order of `key`, an int expression over self."""
    t = f"""
{decl}
impl {name} {{ pub open spec fn k(&self) -> int {{ {key} }} }}
impl PartialEqSpecImpl for {name} {{
  open spec fn obeys_eq_spec() -> bool {{ true }}
  open spec fn eq_spec(&self, o: &{name}) -> bool {{ self.k() == o.k() }}
}}
impl PartialEq for {name} {{ #[verifier::external_body] fn eq(&self, o: &{name}) -> bool {{ unimplemented!() }} }}
impl Eq for {name} {{}}
"""
    if not eq_only:
        cmp = "if self.k() < o.k() { std::cmp::Ordering::Less } else if self.k() > o.k() { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }"
        t += f"""
impl PartialOrdSpecImpl for {name} {{
  open spec fn obeys_partial_cmp_spec() -> bool {{ true }}
  open spec fn partial_cmp_spec(&self, o: &{name}) -> Option<std::cmp::Ordering> {{ Some({cmp}) }}
}}
impl PartialOrd for {name} {{
  #[verifier::external_body]
  fn partial_cmp(&self, o: &{name}) -> Option<std::cmp::Ordering> {{ unimplemented!() }}
}}
impl OrdSpecImpl for {name} {{
  open spec fn obeys_cmp_spec() -> bool {{ true }}
  open spec fn cmp_spec(&self, o: &{name}) -> std::cmp::Ordering {{ {cmp} }}
}}
impl Ord for {name} {{ #[verifier::external_body] fn cmp(&self, o: &{name}) -> std::cmp::Ordering {{ unimplemented!() }} }}
"""
    return t
