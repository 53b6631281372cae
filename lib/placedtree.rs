// Abstract trees with the place of each node, without identities.
pub enum T { Node(N, Location, Seq<T>), Leaf(N, Location, Option<Seq<char>>) }
pub open spec fn aloc(a: AST) -> Location { match a { AST::Document(n) => n.location, AST::Stmt(n) => n.location, AST::Expr(n) => n.location, AST::Angle(n) => n.location, AST::Square(n) => n.location, AST::Curly(n) => n.location,
  AST::Ident(n) => n.location, AST::Module(n) => n.location, AST::Text(n) => n.location, AST::Invalid(n) => n.location, AST::Ignored(n) => n.location } }
pub open spec fn tree(a: AST) -> T decreases a, 0nat via tree_dec { if ainner(a) { T::Node(ak(a), aloc(a), trees(akids(a), akids(a).len())) } else { T::Leaf(ak(a), aloc(a), aval(a)) } }
pub open spec fn trees(v: Seq<AST>, m: nat) -> Seq<T> decreases v, m { if m == 0 || m > v.len() { Seq::empty() } else { trees(v, (m - 1) as nat).push(tree(v[m - 1])) } }
#[via_fn] proof fn tree_dec(a: AST) { if ainner(a) { lemma_asmaller(a); } }
pub open spec fn treesv(v: Seq<AST>) -> Seq<T> { trees(v, v.len()) }
pub proof fn lemma_trees_prefix(v: Seq<AST>, x: AST, m: nat) requires m <= v.len() ensures trees(v.push(x), m) == trees(v, m) decreases m { if m > 0 { lemma_trees_prefix(v, x, (m - 1) as nat); } }
pub broadcast proof fn lemma_trees(v: Seq<AST>, x: AST) ensures #![trigger treesv(v.push(x))] treesv(v.push(x)) == treesv(v).push(tree(x)) { lemma_trees_prefix(v, x, v.len()); assert(trees(v.push(x), v.push(x).len()) == trees(v.push(x), v.len()).push(tree(x))); }
pub broadcast proof fn lemma_tree(a: AST) requires ainner(a) ensures #[trigger] tree(a) == T::Node(ak(a), aloc(a), treesv(akids(a))) { }
broadcast use {lemma_trees, lemma_tree};
