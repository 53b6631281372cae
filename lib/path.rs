// A file's path; an owned path and a path are the same here.
#[verifier::external_body] pub struct PathBuf { x: u8 }
pub type Path = PathBuf;
impl PartialEq for PathBuf { #[verifier::external_body] fn eq(&self, o: &PathBuf) -> (b: bool) { unimplemented!() } }
impl<'a> PartialEq<&'a PathBuf> for PathBuf { #[verifier::external_body] fn eq(&self, o: &&'a PathBuf) -> (b: bool) { unimplemented!() } }
pub broadcast axiom fn axiom_eq_path(a: PathBuf, b: PathBuf) ensures #![trigger <PathBuf as vstd::std_specs::cmp::PartialEqSpec<PathBuf>>::eq_spec(&a, &b)] <PathBuf as vstd::std_specs::cmp::PartialEqSpec<PathBuf>>::eq_spec(&a, &b) <== (a == b);
pub broadcast axiom fn axiom_eq_path_ref<'a>(a: PathBuf, b: &'a PathBuf) ensures #![trigger <PathBuf as vstd::std_specs::cmp::PartialEqSpec<&'a PathBuf>>::eq_spec(&a, &b)] <PathBuf as vstd::std_specs::cmp::PartialEqSpec<&'a PathBuf>>::eq_spec(&a, &b) <== (a == *b);
pub broadcast axiom fn axiom_path_obeys<'a>() ensures #![trigger <PathBuf as vstd::std_specs::cmp::PartialEqSpec<PathBuf>>::obeys_eq_spec()] <PathBuf as vstd::std_specs::cmp::PartialEqSpec<PathBuf>>::obeys_eq_spec();
pub broadcast axiom fn axiom_path_obeys_ref<'a>() ensures #![trigger <PathBuf as vstd::std_specs::cmp::PartialEqSpec<&'a PathBuf>>::obeys_eq_spec()] <PathBuf as vstd::std_specs::cmp::PartialEqSpec<&'a PathBuf>>::obeys_eq_spec();
broadcast use {axiom_eq_path, axiom_eq_path_ref, axiom_path_obeys, axiom_path_obeys_ref};
