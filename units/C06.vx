@crate brack_tokenizer /repo/crates/brack-tokenizer/src/lib.rs
@crate brack_parser /repo/crates/brack-parser/src/lib.rs
@include ../lib/base.rs
@include ../lib/tokens.rs
@include ../lib/cst.rs
@include ../lib/leaf.rs
@include ../lib/parsefns.vx
@prelude
pub open spec fn closer(n: N) -> bool { n is AngleClose || n is CurlyClose || n is SquareClose }
pub open spec fn opener(n: N) -> bool { n is AngleOpen || n is CurlyOpen || n is SquareOpen }
pub open spec fn close_of(n: N) -> N { if n is AngleOpen { N::AngleClose } else if n is CurlyOpen { N::CurlyClose } else { N::SquareClose } }
pub open spec fn escapable(n: N) -> bool { opener(n) || closer(n) || n is BackSlash || n is Dot || n is Comma }
// the innermost open command that c closes, and how many commands enclose it
pub open spec fn closes(s: Seq<N>, c: N) -> Option<nat> decreases s.len() { if s.len() == 0 { None } else if s.last() == c { Some((s.len() - 1) as nat) } else { closes(s.drop_last(), c) } }
// where the text of a line stops: at a newline or a closing bracket outside every command, or at the end;
// s: the closing brackets of the commands that are open
pub open spec fn line_end(ts: Seq<Token>, s: Seq<N>) -> Seq<Token> decreases ts.len() {
  if ts.len() == 0 { ts } else {
    let k = tk(ts[0]); let rest = ts.skip(1);
    if k is End { ts }
    else if k is BackSlash { if rest.len() > 0 && escapable(tk(rest[0])) { line_end(rest.skip(1), s) } else { line_end(rest, s) } }
    else if opener(k) { line_end(rest, s.push(close_of(k))) }
    else if closer(k) { match closes(s, k) { Some(n) => line_end(rest, s.take(n as int)), None => ts } }
    else if k is NewLine && s.len() == 0 { ts }
    else { line_end(rest, s) }
  }
}
pub open spec fn blank(ts: Seq<Token>) -> bool decreases ts.len() { ts.len() > 0 && (tk(ts[0]) is End || tk(ts[0]) is NewLine && blank(ts.skip(1))) }
pub open spec fn ends(ts: Seq<Token>) -> bool { tk(ts[0]) is NewLine || tk(ts[0]) is End }
// a line is either text without stray closing brackets, or one closing bracket
pub open spec fn item_end(ts: Seq<Token>) -> Seq<Token> { if closer(tk(ts[0])) { ts.skip(1) } else { line_end(ts, Seq::empty()) } }
pub open spec fn lines_ok(ts: Seq<Token>) -> bool decreases ts.len() {
  if ts.len() == 0 { false } else if tk(ts[0]) is End { true } else if tk(ts[0]) is NewLine { lines_ok(ts.skip(1)) }
  else { let e = item_end(ts); e.len() < ts.len() && ends(e) && lines_ok(e) }
}
// the documents that are accepted: a blank first line only if nothing follows
pub open spec fn accepted(ts: Seq<Token>) -> bool { if tk(ts[0]) is NewLine { blank(ts) } else { lines_ok(ts) } }

// the statement: lines without a blank line between them
pub open spec fn next_line(e: Seq<Token>) -> bool { e.len() > 1 && tk(e[0]) is NewLine && !ends(e.skip(1)) }
pub open spec fn stmt_end(ts: Seq<Token>) -> Seq<Token> decreases ts.len() { let e = item_end(ts); if e.len() < ts.len() && next_line(e) { stmt_end(e.skip(1)) } else { e } }
pub open spec fn onward(e: Seq<Token>) -> Seq<Token> { if next_line(e) { stmt_end(e.skip(1)) } else { e } }
#[verifier::opaque] pub open spec fn same(a: Seq<Token>, b: Seq<Token>) -> bool { forall|s: Seq<N>| #![trigger line_end(a, s)] #![trigger line_end(b, s)] line_end(a, s) == line_end(b, s) }
#[verifier::opaque] pub open spec fn within(a: Seq<Token>, k: N, b: Seq<Token>) -> bool { forall|s: Seq<N>| #![trigger line_end(a, s)] #![trigger s.push(k)] line_end(a, s) == line_end(b, s.push(k)) }
pub broadcast proof fn same_self(a: Seq<Token>) ensures #[trigger] same(a, a) { reveal(same); }
pub broadcast proof fn same_same(a: Seq<Token>, b: Seq<Token>, c: Seq<Token>) requires #[trigger] same(a, b), #[trigger] same(b, c) ensures same(a, c) { reveal(same); assert forall|s: Seq<N>| line_end(a, s) == line_end(c, s) by { assert(line_end(a, s) == line_end(b, s)); } }
pub broadcast proof fn same_leaf(a: Seq<Token>) requires a.len() > 0, !(tk(a[0]) is End || tk(a[0]) is BackSlash || tk(a[0]) is NewLine || opener(tk(a[0])) || closer(tk(a[0]))) ensures same(a, #[trigger] a.skip(1)) { reveal(same); }
pub broadcast proof fn same_escape(a: Seq<Token>) requires a.len() > 1, tk(a[0]) is BackSlash, escapable(tk(a[1])) ensures same(a, #[trigger] a.skip(1).skip(1)) { reveal(same); assert(a.skip(1)[0] == a[1]); }
pub broadcast proof fn same_backslash(a: Seq<Token>) requires a.len() > 1, tk(a[0]) is BackSlash, !escapable(tk(a[1])) ensures same(a, #[trigger] a.skip(1)) { reveal(same); assert(a.skip(1)[0] == a[1]); }
pub broadcast proof fn within_open(a: Seq<Token>) requires a.len() > 0, opener(tk(a[0])) ensures within(a, close_of(tk(a[0])), #[trigger] a.skip(1)) { reveal(within); }
pub broadcast proof fn within_same(a: Seq<Token>, k: N, b: Seq<Token>, c: Seq<Token>) requires #[trigger] within(a, k, b), #[trigger] same(b, c) ensures within(a, k, c) { reveal(within); reveal(same); }
pub broadcast proof fn within_newline(a: Seq<Token>, k: N, b: Seq<Token>) requires #[trigger] within(a, k, b), b.len() > 0, tk(b[0]) is NewLine ensures within(a, k, #[trigger] b.skip(1)) { reveal(within); }
pub broadcast proof fn within_close(a: Seq<Token>, k: N, b: Seq<Token>) requires #[trigger] within(a, k, b), b.len() > 0, closer(tk(b[0])), tk(b[0]) == k ensures same(a, #[trigger] b.skip(1))
{ reveal(within); reveal(same); assert forall|s: Seq<N>| #[trigger] line_end(a, s) == line_end(b.skip(1), s) by { assert(s.push(k).take(s.len() as int) =~= s); assert(line_end(a, s) == line_end(b, s.push(k))); } }
pub broadcast proof fn within_stop(a: Seq<Token>, k: N, b: Seq<Token>) requires #[trigger] within(a, k, b), b.len() > 0, tk(b[0]) is End || closer(tk(b[0])) && tk(b[0]) != k ensures same(a, b)
{ reveal(within); reveal(same); assert forall|s: Seq<N>| line_end(a, s) == line_end(b, s) by { assert(line_end(a, s) == line_end(b, s.push(k))); assert(s.push(k).drop_last() =~= s); lemma_closes(s, tk(b[0])); if closes(s, tk(b[0])) is Some { let n = closes(s, tk(b[0]))->0 as int; assert(s.push(k).take(n) =~= s.take(n)); } } }
pub proof fn lemma_closes(s: Seq<N>, c: N) ensures closes(s, c) is Some ==> closes(s, c)->0 < s.len() decreases s.len() { if s.len() > 0 && s.last() != c { lemma_closes(s.drop_last(), c); } }
pub open spec fn stop(ts: Seq<Token>) -> bool { ends(ts) || closer(tk(ts[0])) }
pub proof fn lemma_stop(a: Seq<Token>, b: Seq<Token>) requires same(a, b), b.len() > 0, stop(b) ensures line_end(a, Seq::empty()) == b { reveal(same); assert(line_end(a, Seq::empty()) == line_end(b, Seq::empty())); }
pub broadcast proof fn lemma_line(a: Seq<Token>, b: Seq<Token>) requires #[trigger] same(a, b), b.len() > 0, stop(b), !closer(tk(a[0])) ensures item_end(a) == b { lemma_stop(a, b); }
// contracts
pub open spec fn leaf(c: CST, n: N, val: Option<Seq<char>>, at: Location) -> bool { true }
pub open spec fn made(c: CST, t: Token) -> bool { true }
pub open spec fn fresh(c: CST, n: N) -> bool { nk(c) == n && kids(c).len() == 0 }
pub open spec fn fresh_at(c: CST, n: N, at: Location) -> bool { true }
pub open spec fn added(old: CST, x: CST, new: CST) -> bool { nk(new) == nk(old) && kids(new).len() == kids(old).len() + 1 }
pub open spec fn relocated(old: CST, at: Location, new: CST) -> bool { true }
pub open spec fn merged(a: Location, b: Location, r: Location) -> bool { true }
pub open spec fn scanned(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { same(ts, r->Ok_0.1@) && tail(ts, r->Ok_0.1@) && r->Ok_0.1@.len() < ts.len() }
pub open spec fn escape_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { ((r is Ok) == (tk(ts[0]) is BackSlash)) && (r is Ok ==> scanned(ts, r)) }
pub open spec fn expr_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { ((r is Ok) == !stop(ts)) && (r is Ok ==> scanned(ts, r) && stop(r->Ok_0.1@)) }
pub open spec fn bracket_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { ((r is Ok) == opener(tk(ts[0]))) && (r is Ok ==> scanned(ts, r)) }
pub open spec fn one_bracket_p(ts: Seq<Token>, open: N, r: Result<(CST, &[Token])>) -> bool { ((r is Ok) == (tk(ts[0]) == open)) && (r is Ok ==> scanned(ts, r)) }
pub open spec fn close_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { ((r is Ok) == closer(tk(ts[0]))) && (r is Ok ==> r->Ok_0.1@ == ts.skip(1)) }
pub open spec fn until(ts: Seq<Token>, e: Seq<Token>) -> bool { e == item_end(ts) && tail(ts, e) && e.len() < ts.len() }
pub open spec fn item_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { ((r is Err) == ends(ts)) && (r is Ok ==> until(ts, r->Ok_0.1@)) }
pub open spec fn stmt_p(ts: Seq<Token>, r: Result<(CST, &[Token])>) -> bool { ((r is Err) == ends(ts)) && (r is Ok ==> r->Ok_0.1@ == stmt_end(ts) && tail(ts, r->Ok_0.1@) && r->Ok_0.1@.len() < ts.len()) }
pub open spec fn expr_inv(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { nk(c) is Expr && same(ts, rest) && tail(ts, rest) && (if kids(c).len() == 0 { rest == ts } else { rest.len() < ts.len() && !stop(ts) }) }
pub open spec fn expr_done(rest: Seq<Token>) -> bool { stop(rest) }
pub open spec fn node_of(open: N) -> N { if open is AngleOpen { N::Angle } else if open is CurlyOpen { N::Curly } else { N::Square } }
pub open spec fn bracket_inv(ts: Seq<Token>, open: N, c: CST, rest: Seq<Token>) -> bool { nk(c) == node_of(open) && tk(ts[0]) == open && within(ts, close_of(open), rest) && tail(ts, rest) && rest.len() < ts.len() }
pub open spec fn bracket_done(rest: Seq<Token>) -> bool { closer(tk(rest[0])) || tk(rest[0]) is End }
pub open spec fn bracket_end(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { true }
pub open spec fn stmt_inv(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { nk(c) is Stmt && !ends(ts) && stmt_end(ts) == onward(rest) && tail(ts, rest) && rest.len() < ts.len() }
pub open spec fn stmt_done(rest: Seq<Token>) -> bool { !next_line(rest) }
pub open spec fn doc_inv(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { nk(c) is Document && tail(ts, rest) && (rest == ts || !(tk(rest[0]) is NewLine) && accepted(ts) == lines_ok(rest)) }
pub open spec fn doc_done(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { ends(rest) || !(tk(stmt_end(rest)[0]) is NewLine) }
pub open spec fn doc_end(ts: Seq<Token>, c: CST, rest: Seq<Token>) -> bool { nk(c) is Document && tail(ts, rest) && accepted(ts) == blank(rest) }
pub open spec fn nls_inv(ts: Seq<Token>, v: Seq<CST>, rest: Seq<Token>) -> bool { lines_ok(ts) == lines_ok(rest) && !ends(ts) && tail(ts, rest) && rest.len() < ts.len() }
pub open spec fn doc_adding(ts0: Seq<Token>, ts: Seq<Token>, old: CST, v: Seq<CST>, n: int, c: CST) -> bool { nk(c) is Document && 0 <= n <= v.len() }
pub open spec fn whole(ts: Seq<Token>, r: Result<CST>) -> bool { (r is Ok) == accepted(ts) }
// a statement is good when its lines are, and what follows it too
pub proof fn lemma_stmt(ts: Seq<Token>) requires given(ts), !ends(ts) ensures tail(ts, stmt_end(ts)), lines_ok(ts) == (ends(stmt_end(ts)) && lines_ok(stmt_end(ts))) decreases ts.len()
{
  lemma_given_first(ts); lemma_item(ts); let e = item_end(ts); lemma_given_tail(ts, e); lemma_given_first(e);
  if next_line(e) { lemma_given(e); lemma_given_first(e.skip(1)); lemma_stmt(e.skip(1)); lemma_tail_tail(ts, e, e.skip(1)); lemma_tail_tail(ts, e.skip(1), stmt_end(e.skip(1))); assert(stmt_end(ts) == stmt_end(e.skip(1))); assert(lines_ok(e) == lines_ok(e.skip(1))); }
  else { assert(stmt_end(ts) == e); }
}
pub proof fn lemma_item(ts: Seq<Token>) requires given(ts), !ends(ts) ensures tail(ts, item_end(ts)), item_end(ts).len() < ts.len()
{ lemma_given_first(ts); if !closer(tk(ts[0])) { lemma_line_end(ts, Seq::empty()); } else { lemma_given(ts); } }
pub proof fn lemma_line_end(ts: Seq<Token>, s: Seq<N>) requires given(ts) ensures tail(ts, line_end(ts, s)), !stop(ts) ==> line_end(ts, s).len() < ts.len() decreases ts.len()
{
  let k = tk(ts[0]);
  lemma_given_first(ts); lemma_tail_self(ts);
  if !(k is End) {
    let rest = ts.skip(1);
    lemma_given(ts); lemma_given_tail(ts, rest); lemma_given_first(rest);
    if k is BackSlash && escapable(tk(rest[0])) { lemma_given(rest); lemma_given_first(rest.skip(1)); lemma_tail_tail(ts, rest, rest.skip(1)); lemma_line_end(rest.skip(1), s); lemma_tail_tail(ts, rest.skip(1), line_end(rest.skip(1), s)); }
    else if opener(k) { let s1 = s.push(close_of(k)); lemma_line_end(rest, s1); lemma_tail_tail(ts, rest, line_end(rest, s1)); }
    else if closer(k) { match closes(s, k) { Some(n) => { let s1 = s.take(n as int); lemma_line_end(rest, s1); lemma_tail_tail(ts, rest, line_end(rest, s1)); }, None => {} } }
    else if k is NewLine && s.len() == 0 { }
    else { lemma_line_end(rest, s); lemma_tail_tail(ts, rest, line_end(rest, s)); }
  }
}
pub broadcast proof fn lemma_stmt_end(ts: Seq<Token>) requires given(ts), !ends(ts) ensures #![trigger stmt_end(ts)] lines_ok(ts) == (ends(stmt_end(ts)) && lines_ok(stmt_end(ts))) { lemma_stmt(ts); }
broadcast use {same_self, same_same, same_leaf, same_escape, same_backslash, within_open, within_same, within_newline, within_close, within_stop, lemma_line, lemma_stmt_end};
