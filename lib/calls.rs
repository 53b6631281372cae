// What becomes of the registry and of the output when code is generated.
pub open spec fn aid(a: AST) -> Seq<char> { match a { AST::Document(n) => n.id@, AST::Stmt(n) => n.id@, AST::Expr(n) => n.id@, AST::Angle(n) => n.id@, AST::Square(n) => n.id@, AST::Curly(n) => n.id@,
  AST::Ident(n) => n.id@, AST::Module(n) => n.id@, AST::Text(n) => n.id@, AST::Invalid(n) => n.id@, AST::Ignored(n) => n.id@ } }
pub proof fn lemma_asmall(a: AST, i: int) requires ainner(a), 0 <= i < akids(a).len() ensures decreases_to!(a => akids(a)[i]) { lemma_asmaller(a); }
// Done: this; Fail: an error; Open: nothing is said
pub enum Res { Done(Seq<char>), Fail, Open }
pub struct R { pub w: W, pub r: Res }
// the calls made so far are some of the first that w makes
#[verifier::opaque] pub open spec fn part(a: W, w: W) -> bool {
  a.hooks == w.hooks && a.plugins.dom() == w.plugins.dom() && (forall|k: Seq<char>| #[trigger] w.plugins.contains_key(k) ==> a.plugins[k].wasm == w.plugins[k].wasm && a.plugins[k].table == w.plugins[k].table && a.plugins[k].log.is_prefix_of(w.plugins[k].log))
}
pub broadcast proof fn lemma_part_self(w: W) ensures #[trigger] part(w, w) { reveal(part); }
pub open spec fn as_said(g: R, w: W, r: Result<String>) -> bool { match g.r { Res::Done(t) => r is Ok && r->Ok_0@ == t && w == g.w, Res::Fail => r is Err && part(w, g.w), Res::Open => true } }
broadcast use {lemma_part_self};
