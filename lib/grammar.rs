// The concrete grammar (docs/brack.ebnf, brack.cst.ebnf).
pub open spec fn closer(n: N) -> bool { n is AngleClose || n is CurlyClose || n is SquareClose }
pub open spec fn part(n: N) -> bool { n is BackSlash || n is Module || n is Ident || n is Angle || n is Curly || n is Square || n is Dot || n is Comma || n is Space || n is Text }
pub open spec fn item(n: N) -> bool { n is Expr || closer(n) }
pub open spec fn open_of(n: N) -> N { if n is Angle { N::AngleOpen } else if n is Curly { N::CurlyOpen } else { N::SquareOpen } }
pub open spec fn close_of(n: N) -> N { if n is Angle { N::AngleClose } else if n is Curly { N::CurlyClose } else { N::SquareClose } }
// docs/brack.ebnf, one automaton over the children of each kind of node: from state q, child k; 9 is failure
pub open spec fn step(n: N, q: int, k: N) -> int {
  match n {
    // (stmt newline newline+)* stmt? newline* EOF
    N::Document => match k { N::Stmt => if q == 0 || q == 3 { 1 } else { 9 }, N::NewLine => if q == 0 || q == 4 { 4 } else if q == 1 { 2 } else if q == 2 || q == 3 { 3 } else { 9 }, N::End => if 0 <= q <= 4 { 5 } else { 9 }, _ => 9 },
    // expr_or_close (newline expr_or_close)*
    N::Stmt => if item(k) && (q == 0 || q == 2) { 1 } else if k is NewLine && q == 1 { 2 } else { 9 },
    // (escaped | module | ident | bracket | dot | comma | whitespace | text)+
    N::Expr => if part(k) && (q == 0 || q == 1) { 1 } else { 9 },
    // backslash character?
    N::BackSlash => if q == 0 && k is Text { 1 } else { 9 },
    // open (expr | newline)* close?, an expression being as long as it can
    _ => if q == 0 && k == open_of(n) { 1 } else if q == 1 && k is Expr { 2 } else if (q == 1 || q == 2) && k is NewLine { 1 } else if (q == 1 || q == 2) && k == close_of(n) { 3 } else { 9 },
  }
}
pub open spec fn accepts(n: N, q: int) -> bool { match n { N::Document => q == 5, N::Stmt => q == 1, N::Expr => q == 1, N::BackSlash => q == 0 || q == 1, _ => 1 <= q <= 3 } }
// the state after the first m children
pub open spec fn fold(n: N, q: int, v: Seq<CST>, m: nat) -> int decreases m { if m == 0 || m > v.len() { q } else { step(n, fold(n, q, v, (m - 1) as nat), nk(v[m - 1])) } }
pub open spec fn at(c: CST) -> int { fold(nk(c), 0, kids(c), kids(c).len()) }
pub open spec fn conforms(c: CST) -> bool decreases c, 0nat via conforms_dec { inner(c) ==> accepts(nk(c), fold(nk(c), 0, kids(c), kids(c).len())) && upto(kids(c), kids(c).len()) }
pub open spec fn upto(v: Seq<CST>, m: nat) -> bool decreases v, m { m == 0 || m > v.len() || upto(v, (m - 1) as nat) && conforms(v[m - 1]) }
#[via_fn] proof fn conforms_dec(c: CST) { if inner(c) { lemma_smaller_kids(c); } }
pub open spec fn good(v: Seq<CST>) -> bool { upto(v, v.len()) }
pub proof fn lemma_upto(v: Seq<CST>, x: CST, n: nat) requires n <= v.len() ensures upto(v.push(x), n) == upto(v, n) decreases n { if n > 0 { lemma_upto(v, x, (n - 1) as nat); } }
pub broadcast proof fn lemma_good(v: Seq<CST>, x: CST) ensures #![trigger good(v.push(x))] good(v.push(x)) == (good(v) && conforms(x)) { lemma_upto(v, x, v.len()); assert(upto(v.push(x), v.push(x).len()) == (upto(v.push(x), v.len()) && conforms(x))); }
pub broadcast proof fn lemma_conforms(c: CST) ensures #[trigger] conforms(c) == (inner(c) ==> accepts(nk(c), at(c)) && good(kids(c))) { }
pub proof fn lemma_fold_upto(n: N, q: int, v: Seq<CST>, x: CST, m: nat) requires m <= v.len() ensures fold(n, q, v.push(x), m) == fold(n, q, v, m) decreases m { if m > 0 { lemma_fold_upto(n, q, v, x, (m - 1) as nat); } }
pub broadcast proof fn lemma_fold(n: N, q: int, v: Seq<CST>, x: CST) ensures #![trigger fold(n, q, v.push(x), v.push(x).len())] fold(n, q, v.push(x), v.push(x).len()) == step(n, fold(n, q, v, v.len()), nk(x)) { lemma_fold_upto(n, q, v, x, v.len()); }
pub proof fn lemma_at(v: Seq<CST>, i: int, m: nat) requires upto(v, m), 0 <= i < m <= v.len() ensures conforms(v[i]) decreases m { if i < m - 1 { lemma_at(v, i, (m - 1) as nat); } }
pub broadcast proof fn lemma_good_at(v: Seq<CST>, i: int) requires #[trigger] good(v), 0 <= i < v.len() ensures conforms(#[trigger] v[i]) { lemma_at(v, i, v.len()); }
// a failed automaton stays failed
pub proof fn lemma_fold_ok(n: N, v: Seq<CST>, m: nat)
  requires m <= v.len(), fold(n, 0, v, v.len()) != 9
  ensures fold(n, 0, v, m) != 9
  decreases v.len() - m
{ if m < v.len() { lemma_fold_ok(n, v, m + 1); assert(fold(n, 0, v, m + 1) == step(n, fold(n, 0, v, m), nk(v[m as int]))); } }
pub open spec fn command(n: N) -> bool { n is Angle || n is Curly || n is Square }
// what may be the m-th child of a conforming node, and the state after it
pub proof fn lemma_child(c: CST, m: int)
  requires conforms(c), inner(c), 0 <= m < kids(c).len()
  ensures conforms(kids(c)[m]),
    ({ let k = nk(kids(c)[m]); match nk(c) { N::Document => k is Stmt || k is NewLine || k is End, N::Stmt => item(k) || k is NewLine, N::Expr => part(k), N::BackSlash => k is Text,
       n => if m == 0 { k == open_of(n) } else { k is Expr || k is NewLine || m == kids(c).len() - 1 && k == close_of(n) } } }),
    nk(c) is BackSlash ==> kids(c).len() == 1,
{
  let v = kids(c); let n = nk(c);
  lemma_at(v, m, v.len());
  lemma_fold_ok(n, v, m as nat); lemma_fold_ok(n, v, (m + 1) as nat);
  assert(fold(n, 0, v, (m + 1) as nat) == step(n, fold(n, 0, v, m as nat), nk(v[m])));
  if command(n) && m == 0 { assert(fold(n, 0, v, 0) == 0); }
  if command(n) && m > 0 { lemma_fold_ok(n, v, 1); assert(fold(n, 0, v, 0) == 0); assert(fold(n, 0, v, 1) == step(n, 0, nk(v[0]))); lemma_started(n, v, m as nat);
    if m < v.len() - 1 { lemma_fold_ok(n, v, (m + 2) as nat); assert(fold(n, 0, v, (m + 2) as nat) == step(n, fold(n, 0, v, (m + 1) as nat), nk(v[m + 1]))); } }
  if n is BackSlash { lemma_fold_ok(n, v, 1); assert(fold(n, 0, v, 0) == 0); assert(fold(n, 0, v, 1) == step(n, 0, nk(v[0]))); if v.len() > 1 { lemma_fold_ok(n, v, 2); assert(fold(n, 0, v, 2) == step(n, fold(n, 0, v, 1), nk(v[1]))); } }
}
pub proof fn lemma_started(n: N, v: Seq<CST>, m: nat)
  requires command(n), 0 < m <= v.len(), fold(n, 0, v, m) != 9
  ensures fold(n, 0, v, m) != 0
  decreases m
{ assert(fold(n, 0, v, m) == step(n, fold(n, 0, v, (m - 1) as nat), nk(v[m - 1]))); if m == 1 { assert(fold(n, 0, v, 0) == 0); } }
pub proof fn lemma_command(c: CST) requires conforms(c), command(nk(c)) ensures kids(c).len() > 0 { assert(fold(nk(c), 0, kids(c), 0) == 0); }
