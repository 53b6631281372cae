@crate brack /repo/src/lib.rs
@crate brack_main /repo/src/main.rs
@include ../lib/base.rs
@include ../lib/streq.rs
@thread env::var .load_brack_toml .download_plugins_using_config .build .run add_plugin run_compile new_project
@print
@prelude
use crate::brack::sub_commands::SubCommands;
use crate::brack_main::Args;
// what is done, and whether it succeeds
pub enum Did { Load(Seq<char>), Download(Seq<Did>), Build(Seq<Did>), Compile(SubCommands), Serve, New(Seq<char>), Add(Seq<char>), Print(Seq<char>) }
pub struct VIo { pub log: Ghost<Seq<(Did, bool)>> }
pub open spec fn did(a: VIo, b: VIo, d: Did, ok: bool) -> bool { b.log@ == a.log@.push((d, ok)) }
#[verifier::external_body] pub fn vx_println(s: String, io: &mut VIo) ensures did(*old(io), *final(io), Did::Print(s@), true) { unimplemented!() }
pub uninterp spec fn variable(n: Seq<char>) -> Option<Seq<char>>;
pub mod env { use super::*; #[verifier::external_body] pub fn var(n: &str, io: &mut VIo) -> (r: Result<String>) ensures *final(io) == *old(io), match r { Ok(s) => variable(n@) == Some(s@), Err(_) => variable(n@) is None } { unimplemented!() } }
// the command line, as clap reads it
pub uninterp spec fn command() -> SubCommands;
impl Args { #[verifier::external_body] pub fn parse() -> (r: Args) ensures r.subcommand == command() { unimplemented!() } }
pub mod brack_project_manager {
  pub mod project { use super::super::*;
    // a project, and what was done with it
    pub struct Project { pub at: Ghost<Seq<char>>, pub so_far: Ghost<Seq<Did>> }
    impl Project {
      #[verifier::external_body] pub fn new(p: &str) -> (r: Project) ensures r.at@ == p@, r.so_far@ == Seq::<Did>::empty() { unimplemented!() }
      #[verifier::external_body] pub fn load_brack_toml(&mut self, io: &mut VIo) -> (r: Result<()>) ensures did(*old(io), *final(io), Did::Load(old(self).at@), r is Ok), final(self).at@ == old(self).at@, final(self).so_far@ == old(self).so_far@.push(Did::Load(old(self).at@)) { unimplemented!() }
      #[verifier::external_body] pub fn download_plugins_using_config(&mut self, io: &mut VIo) -> (r: Result<()>) ensures did(*old(io), *final(io), Did::Download(old(self).so_far@), r is Ok), final(self).at@ == old(self).at@, final(self).so_far@ == old(self).so_far@.push(Did::Download(old(self).so_far@)) { unimplemented!() }
      #[verifier::external_body] pub fn build(&self, io: &mut VIo) -> (r: Result<()>) ensures did(*old(io), *final(io), Did::Build(self.so_far@), r is Ok) { unimplemented!() }
    }
  }
  pub mod plugin { use super::super::*; #[verifier::external_body] pub fn add_plugin(s: &String, io: &mut VIo) -> (r: Result<()>) ensures did(*old(io), *final(io), Did::Add(s@), r is Ok) { unimplemented!() } }
}
pub mod brack_language_server { pub mod server { use super::super::*;
  pub struct Server { pub x: u8 }
  impl Server { #[verifier::external_body] pub fn default() -> Server { unimplemented!() } #[verifier::external_body] pub fn run(&mut self, io: &mut VIo) -> (r: Result<()>) ensures did(*old(io), *final(io), Did::Serve, r is Ok) { unimplemented!() } } } }
// what a command stands for
pub open spec fn loaded() -> Seq<Did> { seq![Did::Load("."@)] }
pub open spec fn fetched() -> Seq<Did> { loaded().push(Did::Download(loaded())) }
pub open spec fn plan(c: SubCommands) -> Seq<Did> { match c {
  SubCommands::Build => fetched().push(Did::Build(fetched())),
  SubCommands::LanguageServer => seq![Did::Serve],
  SubCommands::New { name } => seq![Did::New(name@)],
  SubCommands::Add { schema } => seq![Did::Add(schema@)],
  SubCommands::Version => seq![Did::Print("Brack "@ + (match variable("APP_VERSION"@) { Some(v) => v, None => "0.2.0"@ }))],
  _ => seq![Did::Compile(c)],
} }
// all of it was done, or what comes first, up to what fails
pub open spec fn done(p: Seq<Did>, l: Seq<(Did, bool)>, ok: bool) -> bool { l.len() <= p.len() && (ok ==> l.len() == p.len()) && (!ok ==> l.len() > 0) && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0 == p[i] && l[i].1 == (ok || i < l.len() - 1) }
@fn brack_main::run_compile external io
  ensures did(*old(vx_io), *final(vx_io), Did::Compile($0), r is Ok)
@fn brack_main::new_project external io
  ensures did(*old(vx_io), *final(vx_io), Did::New($0@), r is Ok)
@fn brack_main::main io
  requires old(vx_io).log@ == Seq::<(Did, bool)>::empty()
  ensures done(plan(command()), final(vx_io).log@, r is Ok)
