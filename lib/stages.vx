// The compiler's stages, from a file to its text.
@prelude
use crate::brack_parser::cst::CST;
use crate::brack_transformer::error::TransformError;
// the compiler's stages
pub uninterp spec fn tokens_of(t: Seq<char>) -> Option<Seq<Token>>;
pub uninterp spec fn parsed(ts: Seq<Token>) -> Option<CST>;
pub uninterp spec fn tree(c: CST) -> AST;
pub uninterp spec fn faults(c: CST) -> Seq<TransformError>;
pub uninterp spec fn expanded(a: AST, w: W) -> Option<AST>;
pub uninterp spec fn expanding(a: AST, w: W) -> W;
pub uninterp spec fn generated(a: AST, w: W) -> Option<Seq<char>>;
pub uninterp spec fn generating(a: AST, w: W) -> W;
pub open spec fn tokenized(p: PathBuf) -> Option<Seq<Token>> { match filetext(p) { Some(t) => tokens_of(t), None => None } }
pub open spec fn syntax(p: PathBuf) -> Option<AST> { match tokenized(p) { Some(ts) => match parsed(ts) { Some(c) => Some(tree(c)), None => None }, None => None } }
// what compiling a file yields with a registry, and what becomes of the registry
pub open spec fn compiled(p: PathBuf, w: W) -> Option<Seq<char>> { match syntax(p) { Some(a) => match expanded(a, w) { Some(b) => generated(b, expanding(a, w)), None => None }, None => None } }
pub open spec fn compiling(p: PathBuf, w: W) -> W { match syntax(p) { Some(a) => match expanded(a, w) { Some(b) => generating(b, expanding(a, w)), None => expanding(a, w) }, None => w } }
@fn brack_tokenizer::tokenize::tokenize_str external
  ensures match r { Ok(v) => tokens_of($0@) == Some(v@), Err(_) => tokens_of($0@) is None }
@fn brack_tokenizer::tokenize::tokenize
  ensures match r { Ok(v) => tokenized(pathname($0)) == Some(v@), Err(_) => tokenized(pathname($0)) is None }
@fn brack_parser::parse::parse external
  ensures match r { Ok(c) => parsed($0@) == Some(c), Err(_) => parsed($0@) is None }
@fn brack_transformer::transform::transform external
  ensures r.0 == tree(*$0), r.1@ == faults(*$0)
@fn brack_expander::expand::expander external
  ensures world(*final($1)) == expanding(*$0, world(*old($1))), match r { Ok(a) => expanded(*$0, world(*old($1))) == Some(a), Err(_) => expanded(*$0, world(*old($1))) is None }
@fn brack_codegen::generate::generate external
  ensures world(*final($1)) == generating(*$0, world(*old($1))), match r { Ok(s) => generated(*$0, world(*old($1))) == Some(s@), Err(_) => generated(*$0, world(*old($1))) is None }
