// texts compare by their characters, whatever holds them
use vstd::std_specs::cmp::PartialEqSpec;
pub broadcast axiom fn axiom_eq_string<'a>(a: String) ensures #![trigger a@] <String as PartialEqSpec<&'a str>>::obeys_eq_spec() && <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn axiom_eq_str<'a>(a: &'a str) ensures #![trigger a@] <&'a str as PartialEqSpec<String>>::obeys_eq_spec() && <str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn axiom_eq_string_ref<'a>(a: String, b: &'a str) ensures #![trigger <String as PartialEqSpec<&'a str>>::eq_spec(&a, &b)] <String as PartialEqSpec<&'a str>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn axiom_eq_string_str(a: String, b: &str) ensures #![trigger <String as PartialEqSpec<str>>::eq_spec(&a, b)] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@);
pub broadcast axiom fn axiom_eq_ref_string<'a>(a: &'a str, b: String) ensures #![trigger <&'a str as PartialEqSpec<String>>::eq_spec(&a, &b)] <&'a str as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn axiom_eq_str_string(a: &str, b: String) ensures #![trigger <str as PartialEqSpec<String>>::eq_spec(a, &b)] <str as PartialEqSpec<String>>::eq_spec(a, &b) == (a@ == b@);
broadcast use {axiom_eq_string, axiom_eq_str, axiom_eq_string_ref, axiom_eq_string_str, axiom_eq_ref_string, axiom_eq_str_string};
