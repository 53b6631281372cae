//! C27: looking a node up in a tree and adding one, against a plain tree. The text is read as instructions that build the tree.
use crate::total;
use brack_tokenizer::tokens::{Location, LocationData};
use brack_transformer::ast::{InnerNode, LeafNode, AST};

type Pos = (usize, usize);
#[derive(Clone, Debug, PartialEq)]
struct Node {
    kind: usize, // below 6: inner
    id: String,
    value: Option<String>,
    from: Pos,
    to: Pos,
    kids: Vec<Node>,
}

fn loc(n: &Node) -> Location {
    let p = |x: Pos| LocationData { line: x.0, character: x.1 };
    Location { start: p(n.from), end: p(n.to) }
}

fn made(n: &Node) -> AST {
    let inner = || InnerNode { id: n.id.clone(), children: n.kids.iter().map(made).collect(), location: loc(n) };
    let leaf = || LeafNode { id: n.id.clone(), value: n.value.clone(), location: loc(n) };
    match n.kind {
        0 => AST::Document(inner()),
        1 => AST::Stmt(inner()),
        2 => AST::Expr(inner()),
        3 => AST::Angle(inner()),
        4 => AST::Square(inner()),
        5 => AST::Curly(inner()),
        6 => AST::Ident(leaf()),
        7 => AST::Module(leaf()),
        8 => AST::Text(leaf()),
        9 => AST::Invalid(leaf()),
        _ => AST::Ignored(leaf()),
    }
}

fn read(a: &AST) -> Node {
    let p = |x: &LocationData| (x.line, x.character);
    let inner = |kind, n: &InnerNode| Node { kind, id: n.id.clone(), value: None, from: p(&n.location.start), to: p(&n.location.end), kids: n.children.iter().map(read).collect() };
    let leaf = |kind, n: &LeafNode| Node { kind, id: n.id.clone(), value: n.value.clone(), from: p(&n.location.start), to: p(&n.location.end), kids: vec![] };
    match a {
        AST::Document(n) => inner(0, n),
        AST::Stmt(n) => inner(1, n),
        AST::Expr(n) => inner(2, n),
        AST::Angle(n) => inner(3, n),
        AST::Square(n) => inner(4, n),
        AST::Curly(n) => inner(5, n),
        AST::Ident(n) => leaf(6, n),
        AST::Module(n) => leaf(7, n),
        AST::Text(n) => leaf(8, n),
        AST::Invalid(n) => leaf(9, n),
        AST::Ignored(n) => leaf(10, n),
    }
}

fn order<'a>(n: &'a Node, out: &mut Vec<&'a Node>) {
    out.push(n);
    for k in &n.kids {
        order(k, out);
    }
}

/// open a node, add a leaf or close the current node, as the characters say
fn built(src: &str, real: &mut Vec<AST>) -> Result<Node, String> {
    let mut h = 7u64;
    let mut stack: Vec<Node> = vec![];
    let node = |kind: usize, c: char, h: &mut u64| {
        *h = h.wrapping_mul(6364136223846793005).wrapping_add(c as u64 + 1442695040888963407);
        let n = |s: u32, m: u64| ((*h >> s) % m) as usize;
        // identities repeat, and one may be the start of another
        let id = match n(20, 4) {
            0 => format!("{c}"),
            1 => format!("n{}", n(24, 5)),
            2 => format!("n{}{}", n(24, 3), n(28, 3)),
            _ => String::new(),
        };
        let value = if kind < 6 || n(30, 7) == 0 { None } else { Some(c.to_string()) };
        Node { kind, id, value, from: (n(33, 4), n(36, 4)), to: (n(39, 4), n(42, 4)), kids: vec![] }
    };
    stack.push(node(0, 'D', &mut h));
    real.push(made(&stack[0]));
    let close = |stack: &mut Vec<Node>, real: &mut Vec<AST>| -> Result<(), String> {
        let (k, a) = (stack.pop().unwrap(), real.pop().unwrap());
        add(stack, real, k, a)
    };
    for c in src.chars() {
        let kind = match c {
            '<' => 3,
            '[' => 4,
            '{' => 5,
            '\n' => 1,
            '.' => 2,
            '>' | ']' | '}' => {
                if stack.len() > 1 {
                    close(&mut stack, real)?;
                }
                continue;
            }
            '\\' => 9,
            ',' => 10,
            ' ' => 8,
            c if (c as u32) % 3 == 0 => 6,
            c if (c as u32) % 3 == 1 => 7,
            _ => 8,
        };
        let n = node(kind, c, &mut h);
        let a = made(&n);
        if kind < 6 && stack.len() < 40 {
            stack.push(n);
            real.push(a);
        } else {
            add(&mut stack, real, n, a)?;
        }
    }
    while stack.len() > 1 {
        close(&mut stack, real)?;
    }
    Ok(stack.pop().unwrap())
}

fn add(stack: &mut [Node], real: &mut [AST], k: Node, a: AST) -> Result<(), String> {
    let (n, r) = (stack.last_mut().unwrap(), real.last_mut().unwrap());
    n.from = n.from.min(k.from);
    n.to = n.to.max(k.to);
    n.kids.push(k);
    r.add(a);
    if *n != read(r) {
        return Err(format!("after adding a child the node should be {n:?}, is {:?}", read(r)));
    }
    Ok(())
}

fn show(n: &Node, d: usize, out: &mut String) {
    let k = ["Document", "Stmt", "Expr", "Angle", "Square", "Curly", "Ident", "Module", "Text", "Invalid", "Ignored"][n.kind];
    out.push_str(&"  ".repeat(d));
    out.push_str(k);
    if (6..9).contains(&n.kind) {
        out.push_str(": ");
        out.push_str(n.value.as_deref().unwrap_or(""));
    }
    out.push('\n');
    for x in &n.kids {
        show(x, d + 1, out);
    }
}

pub fn c27(src: &str) -> Result<bool, String> {
    let mut real = vec![];
    let want = built(src, &mut real)?;
    let tree = real.pop().unwrap();
    let mut all = vec![];
    order(&want, &mut all);
    let mut ids: Vec<String> = all.iter().map(|n| n.id.clone()).chain(["n", "n00", "zz"].map(String::from)).collect();
    ids.sort();
    ids.dedup();
    for id in &ids {
        let w = all.iter().find(|n| n.id == *id);
        let g = tree.get(id).map(read);
        if w.cloned().cloned() != g {
            return Err(format!("looking up {id:?} should yield {w:?}, yields {g:?}"));
        }
    }
    let shown = total(|| tree.to_string()).map_err(|e| format!("a tree cannot be shown: {e}"))?;
    let mut lines = String::new();
    show(&want, 0, &mut lines);
    if shown != lines {
        return Err(format!("the tree is shown as {shown:?}, should be {lines:?}"));
    }
    let mut asts = vec![];
    fn each<'a>(a: &'a AST, out: &mut Vec<&'a AST>) {
        out.push(a);
        let k: &[AST] = match a {
            AST::Document(n) | AST::Stmt(n) | AST::Expr(n) | AST::Angle(n) | AST::Square(n) | AST::Curly(n) => &n.children,
            _ => &[],
        };
        for k in k {
            each(k, out);
        }
    }
    each(&tree, &mut asts);
    for (n, a) in all.iter().zip(&asts) {
        let kids = if n.kind < 6 { a.children().iter().map(read).collect() } else { vec![] };
        let value = if (6..9).contains(&n.kind) { a.value() } else { None };
        if a.id() != n.id || kids != n.kids || (6..9).contains(&n.kind) && value != n.value {
            return Err(format!("{n:?} has identity {:?}, children {kids:?} and text {value:?}", a.id()));
        }
    }
    Ok(all.len() > 2)
}
