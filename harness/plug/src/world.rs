//! Cases, and the reference.
use brack_transformer::ast::AST;
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Inner(String, Vec<Node>),
    Leaf(String, Option<String>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Inline,
    Block,
    Ast,
    Opt(Box<Ty>),
    Arr(Box<Ty>),
    InlineCmd(String),
    BlockCmd(String),
}
#[derive(Clone, Debug)]
pub struct Cmd {
    pub name: String,
    pub call: String,
    pub args: Vec<Ty>,
    pub ret: Ty,
}
#[derive(Clone, Debug)]
pub struct Plug {
    pub name: String,
    pub flags: [bool; 4],
    pub commands: Vec<Cmd>,
}
#[derive(Clone, Debug)]
pub struct Query {
    pub op: String,
    pub module: String,
    pub command: String,
    pub ty: Ty,
}
#[derive(Clone, Debug)]
pub struct Case {
    pub plugins: Vec<Plug>,
    pub ast: Node,
    pub fails: Vec<String>,
    pub trees: Vec<Node>,
    pub queries: Vec<Query>,
    pub alike: bool,
}
pub const HOOKS: [(&str, Ty); 4] = [("document", Ty::Block), ("stmt", Ty::Block), ("expr", Ty::Inline), ("text", Ty::Inline)];

impl Node {
    pub fn json(&self) -> Value {
        match self {
            Node::Inner(k, v) => {
                let mut a = vec![json!(k)];
                a.extend(v.iter().map(|x| x.json()));
                Value::Array(a)
            }
            Node::Leaf(k, v) => json!({ k: v }),
        }
    }
    fn of(v: &Value) -> Option<Node> {
        match v {
            Value::Array(a) => {
                let k = a.first()?.as_str()?;
                if !["Document", "Stmt", "Expr", "Angle", "Square", "Curly"].contains(&k) {
                    return None;
                }
                Some(Node::Inner(k.into(), a[1..].iter().map(Node::of).collect::<Option<_>>()?))
            }
            Value::Object(o) => {
                let (k, v) = o.iter().next()?;
                if !["Ident", "Module", "Text", "Invalid", "Ignored"].contains(&k.as_str()) {
                    return None;
                }
                Some(Node::Leaf(k.clone(), v.as_str().map(|s| s.to_string())))
            }
            _ => None,
        }
    }
}
impl Ty {
    fn json(&self) -> Value {
        match self {
            Ty::Inline => json!("I"),
            Ty::Block => json!("B"),
            Ty::Ast => json!("A"),
            Ty::Opt(t) => json!({ "O": t.json() }),
            Ty::Arr(t) => json!({ "R": t.json() }),
            Ty::InlineCmd(s) => json!({ "IC": s }),
            Ty::BlockCmd(s) => json!({ "BC": s }),
        }
    }
    fn of(v: &Value) -> Option<Ty> {
        match v {
            Value::String(s) if s == "I" => Some(Ty::Inline),
            Value::String(s) if s == "B" => Some(Ty::Block),
            Value::String(s) if s == "A" => Some(Ty::Ast),
            Value::Object(o) => {
                let (k, v) = o.iter().next()?;
                Some(match k.as_str() {
                    "O" => Ty::Opt(Box::new(Ty::of(v)?)),
                    "R" => Ty::Arr(Box::new(Ty::of(v)?)),
                    "IC" => Ty::InlineCmd(v.as_str()?.into()),
                    "BC" => Ty::BlockCmd(v.as_str()?.into()),
                    _ => return None,
                })
            }
            _ => None,
        }
    }
}
impl Plug {
    /// every hook it claims is a command of its table, and no command of that name is of another kind
    pub fn loads(&self) -> bool {
        HOOKS.iter().enumerate().all(|(i, (n, t))| !self.flags[i] || self.commands.iter().any(|c| c.name == *n) && self.commands.iter().all(|c| c.name != *n || c.ret == *t))
    }
}
impl Case {
    pub fn json(&self) -> Value {
        json!({
            "alike": self.alike, "plugins": self.plugins.iter().map(|p| json!({"name": p.name, "hooks": p.flags, "commands": p.commands.iter().map(|c| json!({"name": c.name, "call": c.call, "args": c.args.iter().map(Ty::json).collect::<Vec<_>>(), "ret": c.ret.json()})).collect::<Vec<_>>()})).collect::<Vec<_>>(),
            "ast": self.ast.json(), "fails": self.fails, "trees": self.trees.iter().map(|t| t.json()).collect::<Vec<_>>(),
            "queries": self.queries.iter().map(|q| json!({"op": q.op, "module": q.module, "command": q.command, "ty": q.ty.json()})).collect::<Vec<_>>(),
        })
    }
    pub fn of(v: &Value) -> Option<Case> {
        let arr = |v: &Value| v.as_array().cloned();
        let st = |v: &Value| v.as_str().map(|s| s.to_string());
        let mut plugins: Vec<Plug> = vec![];
        for p in arr(&v["plugins"])? {
            let mut commands: Vec<Cmd> = vec![];
            for c in arr(&p["commands"])? {
                let c = Cmd { name: st(&c["name"])?, call: st(&c["call"])?, args: arr(&c["args"])?.iter().map(Ty::of).collect::<Option<_>>()?, ret: Ty::of(&c["ret"])? };
                if c.call == "get_metadata" || commands.iter().any(|d| d.name == c.name && d.ret == c.ret) {
                    return None;
                }
                commands.push(c);
            }
            let f = arr(&p["hooks"])?;
            let name = st(&p["name"])?;
            if f.len() != 4 || plugins.iter().any(|q| q.name == name) {
                return None;
            }
            plugins.push(Plug { name, flags: [f[0].as_bool()?, f[1].as_bool()?, f[2].as_bool()?, f[3].as_bool()?], commands });
        }
        let ast = Node::of(&v["ast"])?;
        if matches!(&ast, Node::Inner(k, _) if k == "Angle") {
            return None;
        }
        Some(Case {
            alike: v["alike"] == true,
            plugins,
            ast,
            fails: arr(&v["fails"])?.iter().map(st).collect::<Option<_>>()?,
            trees: arr(&v["trees"])?.iter().map(Node::of).collect::<Option<_>>()?,
            queries: arr(&v["queries"])?.iter().map(|q| Some(Query { op: st(&q["op"])?, module: st(&q["module"])?, command: st(&q["command"])?, ty: Ty::of(&q["ty"])? })).collect::<Option<_>>()?,
        })
    }
}

pub enum Ans {
    Text(String),
    Tree(Node),
}
fn hash(v: &Value) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.to_string().hash(&mut h);
    h.finish()
}
/// what the k-th call of a plugin yields; the input of a macro is a tree and an identity
pub fn answer(c: &Case, plugin: usize, call: &str, k: usize, input: &Value) -> Option<Ans> {
    if c.fails.iter().any(|f| f == call) {
        return None;
    }
    if input.as_array().map_or(false, |a| a.len() == 2 && a[1].is_string()) {
        if c.trees.is_empty() || (hash(&json!([plugin, call, k])) % 5) == 0 {
            return Some(Ans::Tree(Node::Leaf("Text".into(), Some(format!("macro {plugin}.{call} {k}")))));
        }
        return Some(Ans::Tree(c.trees[(k + plugin) % c.trees.len()].clone()));
    }
    Some(Ans::Text(format!("«{plugin}.{call} {k} {:x}»", hash(input) & 0xffffff)))
}

#[derive(Debug)]
pub enum Stop {
    /// must fail
    Error(String),
    /// nothing is said about it
    Open,
}
pub struct World<'a> {
    case: &'a Case,
    pub log: Vec<(usize, String, Value)>,
    counts: Vec<usize>,
    /// C12: what a command is handed is not looked at
    pub blind: bool,
}
pub fn is_hook(call: &str) -> bool {
    call.starts_with("hook")
}
type R<T> = Result<T, Stop>;
impl<'a> World<'a> {
    pub fn new(case: &'a Case) -> Self {
        World { case, log: vec![], counts: vec![0; case.plugins.len()], blind: false }
    }
    fn find(&self, module: &str, command: &str, ty: &Ty) -> R<(usize, &'a Cmd)> {
        let i = self.case.plugins.iter().position(|p| p.name == module).ok_or_else(|| Stop::Error(format!("no module {module:?}")))?;
        let c = self.case.plugins[i].commands.iter().find(|c| c.name == command && c.ret == *ty).ok_or_else(|| Stop::Error(format!("no command {command:?} of this kind")))?;
        Ok((i, c))
    }
    fn call(&mut self, module: &str, command: &str, ty: &Ty, input: Value) -> R<Ans> {
        let (i, c) = self.find(module, command, ty)?;
        let input = if self.blind && !is_hook(&c.call) { Value::Null } else { input };
        let k = self.counts[i];
        self.counts[i] += 1;
        self.log.push((i, c.call.clone(), input.clone()));
        answer(self.case, i, &c.call, k, &input).ok_or_else(|| Stop::Error("the plugin fails".into()))
    }
    fn text(&mut self, module: &str, command: &str, ty: &Ty, input: Value) -> R<String> {
        match self.call(module, command, ty, input)? {
            Ans::Text(t) => Ok(t),
            _ => Err(Stop::Open),
        }
    }
    fn hook(&mut self, i: usize, input: Value) -> R<Option<String>> {
        let case = self.case;
        match case.plugins.iter().find(|p| p.flags[i]) {
            None => Ok(None),
            Some(p) => Ok(Some(self.text(&p.name, HOOKS[i].0, &HOOKS[i].1, input)?)),
        }
    }

    // ---- C11
    pub fn expand(&mut self, t: &Node, all: &Value) -> R<AST> {
        self.expand_at(t, all, &mut 0)
    }
    fn expand_at(&mut self, t: &Node, all: &Value, n: &mut usize) -> R<AST> {
        let id = *n;
        *n += 1;
        match t {
            Node::Leaf(k, v) => Ok(crate::leaf(k, v, id)),
            Node::Inner(k, v) if k == "Angle" => {
                let pick = |kind: &str| {
                    let all: Vec<&Option<String>> = v.iter().filter_map(|x| match x { Node::Leaf(k, v) if k == kind => Some(v), _ => None }).collect();
                    // a command has one module and one name
                    if all.len() == 1 { all[0].clone().ok_or(Stop::Open) } else { Err(Stop::Open) }
                };
                let (m, c) = (pick("Module")?, pick("Ident")?);
                *n += v.iter().map(size).sum::<usize>();
                match self.call(&m, &c, &Ty::Ast, json!([all, format!("n{id}")]))? {
                    Ans::Tree(t) => Ok(crate::to_ast(&t, &mut 1000)),
                    _ => Err(Stop::Open),
                }
            }
            Node::Inner(k, v) => {
                let mut c = vec![];
                for x in v {
                    c.push(self.expand_at(x, all, n)?);
                }
                Ok(crate::node(k, c, id))
            }
        }
    }

    // ---- C12, C13
    pub fn generate(&mut self, t: &Node) -> R<String> {
        match t {
            Node::Inner(k, _) if k == "Document" => self.gen(t),
            _ => Err(Stop::Open),
        }
    }
    fn gen(&mut self, t: &Node) -> R<String> {
        let input = |s: &str| json!([{ "Text": s }]);
        match t {
            Node::Leaf(k, Some(v)) if k == "Text" => Ok(self.hook(3, input(v))?.unwrap_or(v.clone())),
            Node::Leaf(..) => Err(Stop::Open),
            Node::Inner(k, v) => {
                let h = match k.as_str() {
                    "Document" => 0,
                    "Stmt" => 1,
                    "Expr" => 2,
                    "Square" => return self.command(v, Ty::Inline),
                    "Curly" => return self.command(v, Ty::Block),
                    _ => return Err(Stop::Open),
                };
                let mut out = String::new();
                for x in v {
                    match x {
                        Node::Inner(c, _) if c == "Document" || c == "Stmt" && h != 0 || c == "Angle" => return Err(Stop::Open),
                        _ => {}
                    }
                    out += &self.gen(x)?;
                }
                Ok(self.hook(h, input(&out))?.unwrap_or(out))
            }
        }
    }
    fn command(&mut self, v: &[Node], ret: Ty) -> R<String> {
        let (m, c) = match v {
            [Node::Leaf(a, Some(m)), Node::Leaf(b, Some(c)), ..] if a == "Module" && b == "Ident" => (m, c),
            _ => return Err(Stop::Open),
        };
        let mut vals = vec![];
        for x in &v[2..] {
            match x {
                Node::Inner(c, _) if ["Document", "Stmt", "Angle"].contains(&c.as_str()) => return Err(Stop::Open),
                _ => vals.push(self.gen(x)?),
            }
        }
        let (_, cmd) = self.find(m, c, &ret)?;
        if self.blind && (is_hook(&cmd.call) || bind(&cmd.args, &vals).is_err()) {
            return Err(Stop::Open);
        }
        let bound = bind(&cmd.args, &vals).map_err(Stop::Error)?;
        self.text(m, c, &ret, Value::Array(bound))
    }

    // ---- C14
    pub fn query(&mut self, q: &Query, tree: &Node) -> Result<Value, String> {
        let args = json!([{"Text": "t"}, {"TextOption": null}, {"TextArray": ["u"]}]);
        let r = match q.op.as_str() {
            "types" => self.find(&q.module, &q.command, &q.ty).map(|(_, c)| json!(c.args.iter().enumerate().map(|(i, t)| json!([format!("x{i}"), crate::type_json(t)])).collect::<Vec<_>>())),
            "inline" => self.text(&q.module, &q.command, &Ty::Inline, args).map(|t| json!(t)),
            "block" => self.text(&q.module, &q.command, &Ty::Block, args).map(|t| json!(t)),
            "macro" => {
                let a = serde_json::to_value(crate::to_ast(tree, &mut 0)).unwrap();
                self.call(&q.module, &q.command, &Ty::Ast, json!([a, "i"])).map(|a| match a { Ans::Tree(t) => t.json(), Ans::Text(t) => json!(t) })
            }
            h => {
                let i = HOOKS.iter().position(|x| x.0 == h).unwrap_or(3);
                self.hook(i, args).map(|t| json!({ "hook": t }))
            }
        };
        r.map_err(|e| format!("{e:?}"))
    }
}
fn size(t: &Node) -> usize {
    match t {
        Node::Leaf(..) => 1,
        Node::Inner(_, v) => 1 + v.iter().map(size).sum::<usize>(),
    }
}
/// the i-th parameter takes the i-th argument; an array takes it and all that follow
pub fn bind(params: &[Ty], args: &[String]) -> Result<Vec<Value>, String> {
    if args.len() > params.len() && !params.iter().any(|t| matches!(t, Ty::Arr(_))) {
        return Err("too many arguments".into());
    }
    params
        .iter()
        .enumerate()
        .map(|(i, t)| match t {
            Ty::Opt(_) => Ok(json!({ "TextOption": args.get(i) })),
            Ty::Arr(_) => Ok(json!({ "TextArray": args.get(i..).unwrap_or(&[]) })),
            _ => args.get(i).map(|a| json!({ "Text": a })).ok_or("too few arguments".to_string()),
        })
        .collect()
}
