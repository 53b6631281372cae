//! plug-harness: the real registry, expander and code generator against a reference, on a stand-in plugin host.
mod world;
use brack_plugin::{feature_flag::FeatureFlag, plugin::Plugin, plugins::Plugins, types::Type, value::Value as Arg};
use brack_transformer::ast::{InnerNode, LeafNode, AST};
use common::{drive, total, Gen, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use world::*;

fn location(n: usize) -> brack_tokenizer::tokens::Location {
    let mut l = brack_tokenizer::tokens::mock_location();
    l.start.line = n;
    l.end.line = n;
    l.end.character = n + 1;
    l
}
/// the real tree of a case; identities n0, n1, .. in document order
pub fn to_ast(t: &Node, n: &mut usize) -> AST {
    let k = *n;
    *n += 1;
    match t {
        Node::Leaf(kind, v) => leaf(kind, v, k),
        Node::Inner(kind, c) => {
            let children = c.iter().map(|x| to_ast(x, n)).collect();
            node(kind, children, k)
        }
    }
}
/// the node numbered k
pub fn leaf(kind: &str, v: &Option<String>, k: usize) -> AST {
    let l = LeafNode { id: format!("n{k}"), value: v.clone(), location: location(k) };
    match kind {
        "Ident" => AST::Ident(l),
        "Module" => AST::Module(l),
        "Text" => AST::Text(l),
        "Invalid" => AST::Invalid(l),
        _ => AST::Ignored(l),
    }
}
pub fn node(kind: &str, children: Vec<AST>, k: usize) -> AST {
    let i = InnerNode { id: format!("n{k}"), children, location: location(k) };
    match kind {
        "Document" => AST::Document(i),
        "Stmt" => AST::Stmt(i),
        "Expr" => AST::Expr(i),
        "Angle" => AST::Angle(i),
        "Square" => AST::Square(i),
        _ => AST::Curly(i),
    }
}
/// every node with one identity and one place, as a macro may return them
fn alike(t: &Node) -> AST {
    match t {
        Node::Leaf(kind, v) => leaf(kind, v, 0),
        Node::Inner(kind, c) => node(kind, c.iter().map(alike).collect(), 0),
    }
}
pub fn of_ast(a: &AST) -> Node {
    let inner = |k: &str, n: &InnerNode| Node::Inner(k.into(), n.children.iter().map(of_ast).collect());
    let leaf = |k: &str, n: &LeafNode| Node::Leaf(k.into(), n.value.clone());
    match a {
        AST::Document(n) => inner("Document", n),
        AST::Stmt(n) => inner("Stmt", n),
        AST::Expr(n) => inner("Expr", n),
        AST::Angle(n) => inner("Angle", n),
        AST::Square(n) => inner("Square", n),
        AST::Curly(n) => inner("Curly", n),
        AST::Ident(n) => leaf("Ident", n),
        AST::Module(n) => leaf("Module", n),
        AST::Text(n) => leaf("Text", n),
        AST::Invalid(n) => leaf("Invalid", n),
        AST::Ignored(n) => leaf("Ignored", n),
    }
}
fn real_type(t: &Ty) -> Type {
    match t {
        Ty::Inline => Type::TInline,
        Ty::Block => Type::TBlock,
        Ty::Ast => Type::TAST,
        Ty::Opt(t) => Type::TOption(Box::new(real_type(t))),
        Ty::Arr(t) => Type::TArray(Box::new(real_type(t))),
        Ty::InlineCmd(s) => Type::TInlineCmd(s.clone()),
        Ty::BlockCmd(s) => Type::TBlockCmd(s.clone()),
    }
}
fn type_json(t: &Ty) -> Value {
    match t {
        Ty::Inline => json!("TInline"),
        Ty::Block => json!("TBlock"),
        Ty::Ast => json!("TAST"),
        Ty::Opt(t) => json!({ "TOption": type_json(t) }),
        Ty::Arr(t) => json!({ "TArray": type_json(t) }),
        Ty::InlineCmd(s) => json!({ "TInlineCmd": s }),
        Ty::BlockCmd(s) => json!({ "TBlockCmd": s }),
    }
}

/// loads the plugins through Plugin::new; the host answers as the world says
fn load(case: &Case, log: &Log, blind: bool) -> Result<Vec<Plugin>, String> {
    let w = case.clone();
    let log = Rc::clone(log);
    let counts: RefCell<Vec<usize>> = RefCell::new(vec![0; case.plugins.len()]);
    extism::install(Box::new(move |wasm, name, input| {
        let i: usize = std::str::from_utf8(wasm).map_err(|e| e.to_string())?.parse().map_err(|_| "not a plugin".to_string())?;
        let p = &w.plugins[i];
        if name == "get_metadata" && !p.commands.iter().any(|c| c.call == "get_metadata") {
            let m: Vec<Value> = p
                .commands
                .iter()
                .map(|c| json!({"command_name": c.name, "call_name": c.call, "argument_types": c.args.iter().enumerate().map(|(i, t)| json!([format!("x{i}"), type_json(t)])).collect::<Vec<_>>(), "return_type": type_json(&c.ret)}))
                .collect();
            return Ok(serde_json::to_vec(&m).unwrap());
        }
        let k = counts.borrow()[i];
        counts.borrow_mut()[i] += 1;
        let v: Value = if blind && !is_hook(name) { Value::Null } else { serde_json::from_slice(input).unwrap_or(Value::Null) };
        log.borrow_mut().push((i, name.to_string(), v.clone()));
        match answer(&w, i, name, k, &v) {
            None => Err("the plugin fails".into()),
            Some(Ans::Text(t)) => Ok(t.into_bytes()),
            Some(Ans::Tree(t)) => Ok(serde_json::to_vec(&to_ast(&t, &mut 1000)).unwrap()),
        }
    }));
    let dir = std::env::temp_dir();
    let mut out = vec![];
    for (i, p) in case.plugins.iter().enumerate() {
        let path = dir.join(format!("plugin{i}"));
        if std::fs::read_to_string(&path).map_or(true, |s| s != i.to_string()) {
            std::fs::write(&path, i.to_string()).map_err(|e| e.to_string())?;
        }
        let f = FeatureFlag { document_hook: p.flags[0], stmt_hook: p.flags[1], expr_hook: p.flags[2], text_hook: p.flags[3] };
        out.push(Plugin::new(&p.name, &path, f).map_err(|e| e.to_string())?);
    }
    Ok(out)
}
pub type Log = Rc<RefCell<Vec<(usize, String, Value)>>>;

/// the calls of each plugin, in order
fn by_plugin(l: &[(usize, String, Value)], n: usize) -> Vec<Vec<(String, Value)>> {
    let mut v = vec![vec![]; n];
    for (i, c, x) in l {
        v[*i].push((c.clone(), x.clone()));
    }
    v
}
fn same_log(want: &[(usize, String, Value)], got: &[(usize, String, Value)], n: usize, prefix: bool) -> Result<(), String> {
    let (w, g) = (by_plugin(want, n), by_plugin(got, n));
    for i in 0..n {
        for j in 0..w[i].len().max(g[i].len()) {
            if prefix && j >= g[i].len() {
                break;
            }
            if w[i].get(j) != g[i].get(j) {
                return Err(format!("call {j} of plugin {i} should be {:?}, is {:?}", w[i].get(j), g[i].get(j)));
            }
        }
    }
    Ok(())
}

/// an expression with several parts in an argument
fn wide(t: &Node, arg: bool) -> bool {
    match t {
        Node::Inner(k, v) => k == "Expr" && arg && v.len() > 1 || v.iter().any(|x| wide(x, arg || k == "Square" || k == "Curly")),
        _ => false,
    }
}
fn narrow(t: &mut Node, arg: bool) {
    if let Node::Inner(k, v) = t {
        let inside = arg || k == "Square" || k == "Curly";
        if k == "Expr" && arg {
            v.truncate(1);
        }
        for x in v {
            narrow(x, inside);
        }
    }
}

fn check(prop: &str, v: &Value) -> Result<bool, String> {
    let case = match Case::of(v) {
        Some(c) => c,
        None => return Ok(false),
    };
    // C12 looks at hooks only, C13 at commands only
    if prop == "C12" && case.plugins.iter().any(|p| p.commands.iter().any(|c| is_hook(&c.call) != HOOKS.iter().enumerate().any(|(i, (n, t))| p.flags[i] && c.name == *n && c.ret == *t)))
        || prop == "C13" && (case.plugins.iter().any(|p| p.flags.contains(&true)) || wide(&case.ast, false))
    {
        return Ok(false);
    }
    let log: Log = Default::default();
    let n = case.plugins.len();
    let loadable = case.plugins.iter().all(|p| p.loads());
    let loaded = total(|| load(&case, &log, prop == "C12")).map_err(|p| format!("loading the plugins fails: {p}"))?;
    if prop == "C14" && loadable != loaded.is_ok() {
        return Err(format!("loading the plugins should {}, and {}", if loadable { "succeed" } else { "fail" }, loaded.err().unwrap_or("succeeds".into())));
    }
    let list = match loaded {
        Ok(l) if loadable => l,
        _ => return Ok(prop == "C14"),
    };
    let unambiguous = (0..4).all(|i| case.plugins.iter().filter(|p| p.flags[i]).count() <= 1);
    let mut reg = match total(|| Plugins::new(list)).map_err(|p| format!("building the registry fails: {p}"))? {
        Ok(r) if unambiguous => r,
        Ok(_) if prop == "C14" => return Err("the registry is built although two plugins claim the same hook".into()),
        Err(e) if unambiguous && prop == "C14" => return Err(format!("the registry is refused: {e}")),
        _ => return Ok(prop == "C14"),
    };
    let mut w = World::new(&case);
    w.blind = prop == "C12";
    match prop {
        "C11" => {
            let ast = to_ast(&case.ast, &mut 0);
            let want = w.expand(&case.ast, &serde_json::to_value(&ast).unwrap());
            let got = total(|| brack_expander::expand::expander(&ast, &mut reg)).map_err(|p| format!("expansion fails: {p}"))?;
            match (want, got) {
                (Ok(t), Ok(a)) => {
                    let (x, y) = (of_ast(&t), of_ast(&a));
                    if x != y {
                        return Err(format!("the expanded tree should be {x:?}, is {y:?}"));
                    }
                    let (x, y) = (serde_json::to_value(&t).unwrap(), serde_json::to_value(&a).unwrap());
                    if x != y {
                        return Err(format!("the nodes of the expanded tree should be {x}, are {y}"));
                    }
                    same_log(&w.log, &log.borrow(), n, false)?;
                    Ok(!w.log.is_empty())
                }
                (Ok(_), Err(e)) => Err(format!("the expansion fails: {e}")),
                (Err(Stop::Error(e)), Ok(a)) => Err(format!("the expansion should fail ({e}), yields {:?}", of_ast(&a))),
                _ => Ok(false),
            }
        }
        "C12" | "C13" => {
            let ast = if case.alike { alike(&case.ast) } else { to_ast(&case.ast, &mut 0) };
            let want = w.generate(&case.ast);
            let got = match (&want, total(|| brack_codegen::generate::generate(&ast, &mut reg))) {
                (Err(Stop::Open), Err(_)) => return Ok(false),
                (_, g) => g.map_err(|p| format!("code generation fails: {p}"))?,
            };
            match (want, got) {
                (Ok(t), Ok(g)) => {
                    same_log(&w.log, &log.borrow(), n, false)?;
                    if g != t {
                        return Err(format!("the output should be {t:?}, is {g:?}"));
                    }
                    Ok(true)
                }
                (Ok(_), Err(e)) => Err(format!("code generation fails: {e}")),
                (Err(Stop::Error(e)), Ok(a)) => Err(format!("code generation should fail ({e}), yields {a:?}")),
                (Err(Stop::Error(e)), Err(_)) => {
                    if prop == "C13" {
                        same_log(&w.log, &log.borrow(), n, true).map_err(|x| format!("code generation should fail ({e}) without further calls: {x}"))?;
                    }
                    Ok(prop == "C13")
                }
                _ => Ok(false),
            }
        }
        "C14" => {
            for q in &case.queries {
                let at = w.log.len();
                let want = w.query(q, &case.ast);
                let ast = to_ast(&case.ast, &mut 0);
                let (m, c) = (q.module.as_str(), q.command.as_str());
                let args = vec![Arg::Text("t".into()), Arg::TextOption(None), Arg::TextArray(vec!["u".into()])];
                let got = total(|| match q.op.as_str() {
                    "types" => reg.argument_types(m, c, real_type(&q.ty)).map(|v| Got::Types(v.into_iter().map(|(a, t)| (a, t)).collect())).map_err(|e| e.to_string()),
                    "inline" => reg.call_inline_command(m, c, args).map(Got::Text).map_err(|e| e.to_string()),
                    "block" => reg.call_block_command(m, c, args).map(Got::Text).map_err(|e| e.to_string()),
                    "macro" => reg.call_macro_command(m, c, ast, "i".into()).map(|a| Got::Tree(of_ast(&a))).map_err(|e| e.to_string()),
                    "document" => reg.call_document_hook(args).map(Got::Hook).map_err(|e| e.to_string()),
                    "stmt" => reg.call_stmt_hook(args).map(Got::Hook).map_err(|e| e.to_string()),
                    "expr" => reg.call_expr_hook(args).map(Got::Hook).map_err(|e| e.to_string()),
                    _ => reg.call_text_hook(args).map(Got::Hook).map_err(|e| e.to_string()),
                })
                .map_err(|p| format!("{q:?}: {p}"))?;
                let got = got.map(|g| match g {
                    Got::Types(v) => json!(v.iter().map(|(a, t)| json!([a, serde_json::to_value(t).unwrap()])).collect::<Vec<_>>()),
                    Got::Text(t) => json!(t),
                    Got::Tree(t) => t.json(),
                    Got::Hook(t) => json!({ "hook": t }),
                });
                match (&want, &got) {
                    (Ok(a), Ok(b)) if a == b => {}
                    (Err(_), Err(_)) => {}
                    _ => return Err(format!("{q:?} should yield {want:?}, yields {got:?}")),
                }
                let l = log.borrow();
                if l[..] != w.log[..] {
                    return Err(format!("{q:?} should call {:?}, calls {:?}", &w.log[at..], &l[at.min(l.len())..]));
                }
            }
            Ok(true)
        }
        _ => Err("unknown property".into()),
    }
}
enum Got {
    Types(Vec<(String, Type)>),
    Text(String),
    Tree(Node),
    Hook(Option<String>),
}

// ---------------------------------------------------------------- cases
const NAMES: &[&str] = &["a", "b", "std", "m", "", "é"];
const CMDS: &[&str] = &["f", "g", "text", "expr", "stmt", "document", ""];
const TEXTS: &[&str] = &["", "x", "hello", " ", "é🇯🇵", "a\"b\\", "1", ",", ".", "x\0", "\0", "\n", " x ", "\t"];

fn ty(r: &mut Rng, d: usize) -> Ty {
    match r.below(if d > 1 { 3 } else { 9 }) {
        0 => Ty::Inline,
        1 => Ty::Block,
        2 => Ty::Ast,
        3 | 4 => Ty::Opt(Box::new(ty(r, d + 1))),
        5 | 6 => Ty::Arr(Box::new(ty(r, d + 1))),
        7 => Ty::InlineCmd("f".into()),
        _ => Ty::BlockCmd("f".into()),
    }
}
fn plugins(r: &mut Rng, hooks: usize) -> Vec<Plug> {
    let mut out: Vec<Plug> = vec![];
    for _ in 0..1 + r.below(4) {
        let mut name = (*r.pick(NAMES)).to_string();
        while out.iter().any(|p| p.name == name) {
            name.push('x');
        }
        let mut p = Plug { name, flags: [false; 4], commands: vec![] };
        for _ in 0..r.below(6) {
            let n = (*r.pick(CMDS)).to_string();
            let ret = match r.below(8) {
                0..=2 => Ty::Inline,
                3..=4 => Ty::Block,
                5..=6 => Ty::Ast,
                _ => ty(r, 0),
            };
            if p.commands.iter().any(|c| c.name == n && c.ret == ret) {
                continue;
            }
            let call = if r.chance(70) { format!("c{}", p.commands.len()) } else { (*r.pick(&["same", "f", "text", "h"])).to_string() };
            let args = (0..r.below(4)).map(|_| ty(r, 0)).collect();
            p.commands.push(Cmd { name: n, call, args, ret });
        }
        for (i, (n, t)) in HOOKS.iter().enumerate() {
            let has = p.commands.iter().any(|c| c.name == *n && c.ret == *t) && p.commands.iter().all(|c| c.name != *n || c.ret == *t);
            if has && r.chance(hooks) || r.chance(2) {
                p.flags[i] = true;
            } else if r.chance(hooks / 4) {
                p.commands.retain(|c| c.name != *n);
                p.commands.push(Cmd { name: n.to_string(), call: format!("hook{i}"), args: vec![], ret: t.clone() });
                p.flags[i] = true;
            }
        }
        out.push(p);
    }
    // most registries are unambiguous
    if r.chance(80) {
        for i in 0..4 {
            let mut seen = false;
            for p in &mut out {
                if p.flags[i] && seen {
                    p.flags[i] = false;
                }
                seen = seen || p.flags[i];
            }
        }
    }
    out
}
fn text(r: &mut Rng) -> String {
    (*r.pick(TEXTS)).to_string()
}
/// a command call that mostly fits
fn command(r: &mut Rng, ps: &[Plug], kind: &str, d: usize) -> Node {
    let ret = match kind {
        "Square" => Ty::Inline,
        "Curly" => Ty::Block,
        _ => Ty::Ast,
    };
    let all: Vec<(&Plug, &Cmd)> = ps.iter().flat_map(|p| p.commands.iter().map(move |c| (p, c))).filter(|(_, c)| c.ret == ret).collect();
    let mut kids = vec![];
    let mut n = r.below(4);
    if all.is_empty() || r.chance(6) {
        let p = r.pick(ps);
        kids.push(Node::Leaf("Module".into(), Some(if r.chance(50) { p.name.clone() } else { "nope".into() })));
        kids.push(Node::Leaf("Ident".into(), Some((*r.pick(CMDS)).to_string())));
    } else {
        let (p, c) = all[r.below(all.len())];
        kids.push(Node::Leaf("Module".into(), Some(p.name.clone())));
        kids.push(Node::Leaf("Ident".into(), Some(c.name.clone())));
        if r.chance(80) {
            n = c.args.iter().map(|t| match t { Ty::Opt(_) => r.below(2), Ty::Arr(_) => r.below(3), _ => 1 }).sum();
        }
    }
    for _ in 0..n {
        kids.push(if r.chance(80) { inner(r, ps, "Expr", d + 1) } else { part(r, ps, d + 1) });
    }
    Node::Inner(kind.into(), kids)
}
fn part(r: &mut Rng, ps: &[Plug], d: usize) -> Node {
    match r.below(if d > 4 { 2 } else { 8 }) {
        0..=2 => Node::Leaf("Text".into(), Some(text(r))),
        3 | 4 => command(r, ps, "Square", d),
        5 => command(r, ps, "Curly", d),
        6 => if ANGLES.with(|a| *a.borrow()) { command(r, ps, "Angle", d) } else { command(r, ps, "Square", d) },
        _ => inner(r, ps, "Expr", d + 1),
    }
}
thread_local! { static ANGLES: RefCell<bool> = const { RefCell::new(true) }; }
fn inner(r: &mut Rng, ps: &[Plug], kind: &str, d: usize) -> Node {
    let n = r.below(if d < 2 { 5 } else { 4 });
    let mut kids: Vec<Node> = vec![];
    for _ in 0..n {
        // the same part once more
        if !kids.is_empty() && r.chance(8) {
            kids.push(r.pick(&kids).clone());
            continue;
        }
        kids.push(match kind {
            "Document" if r.chance(85) => inner(r, ps, "Stmt", d + 1),
            "Stmt" if r.chance(85) => inner(r, ps, "Expr", d + 1),
            _ => part(r, ps, d + 1),
        });
    }
    Node::Inner(kind.into(), kids)
}
/// a tree of any shape
fn wild(r: &mut Rng, ps: &[Plug], d: usize) -> Node {
    match r.below(if d > 3 { 5 } else { 12 }) {
        0 | 1 => Node::Leaf("Text".into(), if r.chance(95) { Some(text(r)) } else { None }),
        2 => Node::Leaf("Module".into(), if r.chance(90) { Some(r.pick(ps).name.clone()) } else { None }),
        3 => Node::Leaf("Ident".into(), if r.chance(90) { Some((*r.pick(CMDS)).to_string()) } else { None }),
        4 => Node::Leaf((*r.pick(&["Invalid", "Ignored"])).into(), None),
        5 => command(r, ps, "Angle", d),
        6 => command(r, ps, "Square", d),
        k => Node::Inner(["Document", "Stmt", "Expr", "Curly", "Square"][k - 7].into(), (0..r.below(4)).map(|_| wild(r, ps, d + 1)).collect()),
    }
}

fn next(g: &mut Gen) -> Value {
    let r = &mut g.rng;
    let mut c = Case { plugins: vec![], ast: Node::Inner("Document".into(), vec![]), fails: vec![], trees: vec![], queries: vec![], alike: g.n % 3 == 0 };
    match g.prop {
        "C13" => {
            // every signature of up to three kinds of parameter, every number of arguments up to five, both brackets
            let kinds = [Ty::Inline, Ty::Opt(Box::new(Ty::Inline)), Ty::Arr(Box::new(Ty::Block)), Ty::Block, Ty::Ast, Ty::InlineCmd("f".into()), Ty::BlockCmd("f".into())];
            let mut n = g.n;
            let (sq, _) = (n % 2 == 0, n /= 2);
            let (count, _) = (n % 6, n /= 6);
            let mut len = 0;
            let mut size = 1;
            while n >= size && len <= 3 {
                n -= size;
                size *= kinds.len();
                len += 1;
            }
            if len <= 3 {
                let mut args = vec![];
                for _ in 0..len {
                    args.push(kinds[n % kinds.len()].clone());
                    n /= kinds.len();
                }
                let mine = if sq { Ty::Inline } else { Ty::Block };
                let other = if sq { Ty::Block } else { Ty::Inline };
                c.plugins.push(Plug { name: "a".into(), flags: [false; 4], commands: vec![
                    Cmd { name: "f".into(), call: "other".into(), args: vec![Ty::Arr(Box::new(Ty::Inline))], ret: other },
                    Cmd { name: "f".into(), call: "mine".into(), args, ret: mine },
                    Cmd { name: "f".into(), call: "macro".into(), args: vec![], ret: Ty::Ast },
                ] });
                let mut kids = vec![Node::Leaf("Module".into(), Some("a".into())), Node::Leaf("Ident".into(), Some("f".into()))];
                for i in 0..count {
                    kids.push(Node::Inner("Expr".into(), vec![Node::Leaf("Text".into(), Some(format!("arg{i}")))]));
                }
                c.ast = Node::Inner("Document".into(), vec![Node::Inner("Stmt".into(), vec![Node::Inner("Expr".into(), vec![Node::Inner(if sq { "Square" } else { "Curly" }.into(), kids)])])]);
                return c.json();
            }
            c.plugins = plugins(r, 10);
            for p in &mut c.plugins {
                p.flags = [false; 4];
            }
            ANGLES.with(|a| *a.borrow_mut() = false);
            c.ast = inner(r, &c.plugins, "Document", 0);
            narrow(&mut c.ast, false);
        }
        "C12" => {
            c.plugins = plugins(r, 60);
            for p in &mut c.plugins {
                for c in &mut p.commands {
                    match HOOKS.iter().position(|(n, t)| c.name == *n && c.ret == *t) {
                        Some(i) if p.flags[i] => c.call = format!("hook{i}"),
                        _ if is_hook(&c.call) => c.call = "plain".into(),
                        _ => {}
                    }
                }
            }
            ANGLES.with(|a| *a.borrow_mut() = r.chance(5));
            c.ast = if r.chance(95) { inner(r, &c.plugins, "Document", 0) } else { wild(r, &c.plugins, 0) };
        }
        "C11" => {
            c.plugins = plugins(r, 10);
            ANGLES.with(|a| *a.borrow_mut() = true);
            c.ast = if r.chance(60) { inner(r, &c.plugins, "Document", 0) } else { Node::Inner("Document".into(), (0..1 + r.below(4)).map(|_| wild(r, &c.plugins, 0)).collect()) };
        }
        _ => {
            c.plugins = plugins(r, 60);
            for _ in 0..1 + r.below(6) {
                let p = r.pick(&c.plugins);
                let (name, rt) = if p.commands.is_empty() || r.chance(20) { ((*r.pick(CMDS)).to_string(), ty(r, 0)) } else { let k = r.pick(&p.commands); (k.name.clone(), k.ret.clone()) };
                let fit = match rt { Ty::Inline => "inline", Ty::Block => "block", _ => "macro" };
                c.queries.push(Query {
                    op: if r.chance(50) { fit.into() } else { (*r.pick(&["types", "inline", "block", "macro", "document", "stmt", "expr", "text"])).into() },
                    module: if r.chance(90) { p.name.clone() } else { (*r.pick(NAMES)).into() },
                    command: name,
                    ty: rt,
                });
            }
        }
    }
    if r.chance(25) {
        let calls: Vec<String> = c.plugins.iter().flat_map(|p| p.commands.iter().map(|c| c.call.clone())).collect();
        if !calls.is_empty() {
            c.fails.push(r.pick(&calls).clone());
        }
    }
    for _ in 0..1 + r.below(3) {
        let ps = c.plugins.clone();
        c.trees.push(wild(r, &ps, 2));
    }
    c.json()
}

fn main() {
    drive(check, next);
}
