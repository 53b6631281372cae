//! Reference for the tree properties (C04-C10).
use crate::lexref::{loc, text_of};
use brack_parser::cst::CST;
use brack_tokenizer::tokens::{Location, Token};
use brack_transformer::ast::AST;

type L = ((usize, usize), (usize, usize));
fn l(x: &Location) -> L {
    ((x.start.line, x.start.character), (x.end.line, x.end.character))
}

pub enum Shape<'a> {
    Inner(&'static str, &'a Vec<CST>, L),
    Leaf(&'static str, &'a Option<String>, L),
}

pub fn shape(c: &CST) -> Shape<'_> {
    use Shape::*;
    match c {
        CST::Document(n) => Inner("Document", &n.children, l(&n.location)),
        CST::Stmt(n) => Inner("Stmt", &n.children, l(&n.location)),
        CST::Expr(n) => Inner("Expr", &n.children, l(&n.location)),
        CST::Angle(n) => Inner("<", &n.children, l(&n.location)),
        CST::Curly(n) => Inner("{", &n.children, l(&n.location)),
        CST::Square(n) => Inner("[", &n.children, l(&n.location)),
        CST::BackSlash(n) => Inner("\\", &n.children, l(&n.location)),
        CST::AngleBracketOpen(n) => Leaf("<", &n.value, l(&n.location)),
        CST::AngleBracketClose(n) => Leaf(">", &n.value, l(&n.location)),
        CST::SquareBracketOpen(n) => Leaf("[", &n.value, l(&n.location)),
        CST::SquareBracketClose(n) => Leaf("]", &n.value, l(&n.location)),
        CST::CurlyBracketOpen(n) => Leaf("{", &n.value, l(&n.location)),
        CST::CurlyBracketClose(n) => Leaf("}", &n.value, l(&n.location)),
        CST::Module(n) => Leaf("module", &n.value, l(&n.location)),
        CST::Ident(n) => Leaf("ident", &n.value, l(&n.location)),
        CST::Text(n) => Leaf("text", &n.value, l(&n.location)),
        CST::Whitespace(n) => Leaf(" ", &n.value, l(&n.location)),
        CST::Newline(n) => Leaf("\n", &n.value, l(&n.location)),
        CST::Dot(n) => Leaf(".", &n.value, l(&n.location)),
        CST::Comma(n) => Leaf(",", &n.value, l(&n.location)),
        CST::EOF(n) => Leaf("eof", &n.value, l(&n.location)),
        CST::Invalid(n) => Leaf("invalid", &n.value, l(&n.location)),
    }
}
fn kind(c: &CST) -> &'static str {
    match shape(c) {
        Shape::Inner(k, _, _) => match k {
            "<" => "<>",
            "{" => "{}",
            "[" => "[]",
            k => k,
        },
        Shape::Leaf(k, _, _) => k,
    }
}
fn kids(c: &CST) -> &[CST] {
    match shape(c) {
        Shape::Inner(_, v, _) => v,
        _ => &[],
    }
}
fn at(c: &CST) -> L {
    match shape(c) {
        Shape::Inner(_, _, p) | Shape::Leaf(_, _, p) => p,
    }
}

// ---- C04
/// the leaves, in order: (name as in the token list, span)
fn leaves(c: &CST, out: &mut Vec<(String, L)>) {
    match shape(c) {
        Shape::Inner(k, v, p) => {
            if k == "\\" {
                out.push(("'\\'".into(), p));
                for x in v {
                    if let Shape::Leaf("text", Some(s), p) = shape(x) {
                        out.push((format!("'{s}'"), p));
                    } else {
                        leaves(x, out);
                    }
                }
            } else {
                for x in v {
                    leaves(x, out);
                }
            }
        }
        Shape::Leaf(k, v, p) => {
            let n = match k {
                "module" => format!("Module({:?})", v.clone().unwrap_or_default()),
                "ident" => format!("Ident({:?})", v.clone().unwrap_or_default()),
                "text" => format!("Text({:?})", v.clone().unwrap_or_default()),
                "eof" => "EOF".into(),
                k => format!("'{}'", k.replace('\n', "\\n")),
            };
            out.push((n, p));
        }
    }
}

pub fn c04(ts: &[Token], r: &Result<CST, String>) -> Result<bool, String> {
    let c = match r {
        Ok(c) => c,
        Err(_) => return Ok(false),
    };
    let mut got = vec![];
    leaves(c, &mut got);
    for i in 0..got.len().max(ts.len()) {
        let g = got.get(i).map(|x| x.0.clone());
        let w = ts.get(i).map(crate::lexref::name_of);
        if g != w {
            return Err(format!("leaf {i} of the syntax tree is {g:?}, the token there is {w:?}"));
        }
    }
    Ok(true)
}

// ---- C05
fn conforms(c: &CST) -> Result<(), String> {
    let v = kids(c);
    let ks: Vec<&str> = v.iter().map(kind).collect();
    let bad = |why: &str| Err(format!("{} {why}: {ks:?}", kind(c)));
    match kind(c) {
        "Document" => {
            // (stmt newline newline+)* stmt? newline* EOF
            let n = ks.len();
            if n == 0 || ks[n - 1] != "eof" {
                return bad("does not end with end-of-file");
            }
            let mut i = 0;
            while i < n - 1 && ks[i] == "Stmt" {
                let mut j = i + 1;
                while j < n - 1 && ks[j] == "\n" {
                    j += 1;
                }
                if j < n - 1 && j - i - 1 < 2 {
                    return bad("has paragraphs not separated by a blank line");
                }
                i = j;
            }
            while i < n - 1 && ks[i] == "\n" {
                i += 1;
            }
            if i != n - 1 {
                return bad("is not (stmt newline newline+)* stmt? newline* EOF");
            }
        }
        "Stmt" => {
            if ks.len() % 2 == 0 {
                return bad("is not expr_or_close (newline expr_or_close)*");
            }
            for (i, k) in ks.iter().enumerate() {
                if !(if i % 2 == 1 { *k == "\n" } else { matches!(*k, "Expr" | ">" | "}" | "]") }) {
                    return bad("is not expr_or_close (newline expr_or_close)*");
                }
            }
        }
        "Expr" => {
            if ks.is_empty() || !ks.iter().all(|k| matches!(*k, "\\" | "module" | "ident" | "<>" | "{}" | "[]" | "." | "," | " " | "text")) {
                return bad("is not a sequence of expression parts");
            }
        }
        "<>" | "{}" | "[]" => {
            let (o, cl) = match kind(c) {
                "<>" => ("<", ">"),
                "{}" => ("{", "}"),
                _ => ("[", "]"),
            };
            if ks.is_empty() || ks[0] != o {
                return bad("does not start with its bracket");
            }
            let mut body = &ks[1..];
            if body.last() == Some(&cl) {
                body = &body[..body.len() - 1];
            }
            if !body.iter().all(|k| matches!(*k, "Expr" | "\n")) {
                return bad("contains something other than expressions and newlines");
            }
            if body.windows(2).any(|w| w == ["Expr", "Expr"]) {
                return bad("has an expression split in two");
            }
        }
        "\\" => {
            if ks.len() > 1 || ks.first().map_or(false, |k| *k != "text") {
                return bad("is not backslash (escaped character)?");
            }
        }
        _ => return Ok(()),
    }
    for x in v {
        conforms(x)?;
    }
    Ok(())
}
pub fn c05(r: &Result<CST, String>) -> Result<bool, String> {
    match r {
        Ok(c) => {
            if kind(c) != "Document" {
                return Err(format!("the root is {}", kind(c)));
            }
            conforms(c).map(|_| true)
        }
        Err(_) => Ok(false),
    }
}

// ---- C06
pub fn rejected(ts: &[Token]) -> bool {
    let mut stack: Vec<char> = vec![];
    let mut fresh = true; // at the start of a line outside every command
    let mut started = false;
    let name = |i: usize| ts.get(i).map(text_of).unwrap_or_default();
    let mut i = 0;
    while i < ts.len() {
        match &ts[i] {
            Token::EOF(_) => return false,
            Token::NewLine(_) => {
                if stack.is_empty() {
                    fresh = true;
                    if !started && ts[i..].iter().any(|t| !matches!(t, Token::NewLine(_) | Token::EOF(_))) {
                        return true; // a blank first line
                    }
                }
            }
            Token::BackSlash(_) => {
                if !matches!(ts.get(i + 1), Some(Token::Text(..) | Token::Module(..) | Token::Ident(..))) && matches!(name(i + 1).as_str(), "\\" | "<" | ">" | "{" | "}" | "[" | "]" | "." | ",") {
                    i += 1;
                }
                fresh = false;
            }
            Token::AngleBracketOpen(_) => (stack.push('>'), fresh = false).1,
            Token::CurlyBracketOpen(_) => (stack.push('}'), fresh = false).1,
            Token::SquareBracketOpen(_) => (stack.push(']'), fresh = false).1,
            t @ (Token::AngleBracketClose(_) | Token::CurlyBracketClose(_) | Token::SquareBracketClose(_)) => {
                let c = text_of(t).chars().next().unwrap();
                match stack.iter().rposition(|x| *x == c) {
                    Some(p) => stack.truncate(p),
                    None => {
                        stack.clear();
                        if !fresh || !matches!(ts.get(i + 1), Some(Token::NewLine(_) | Token::EOF(_))) {
                            return true;
                        }
                    }
                }
                fresh = false;
            }
            _ => fresh = false,
        }
        started = true;
        i += 1;
    }
    true
}
pub fn c06(ts: &[Token], r: &Result<CST, String>) -> Result<bool, String> {
    match (rejected(ts), r) {
        (true, Ok(_)) => Err("the document is accepted, although a stray closing bracket shares its line or the first line is blank".into()),
        (false, Err(e)) => Err(format!("the document is rejected: {e}")),
        _ => Ok(true),
    }
}

// ---- C07
fn spans(c: &CST, leaf: &mut usize, all: &[L]) -> Result<L, String> {
    let here = at(c);
    let err = |what: &str, want: L| Err(format!("{} {what} should span {want:?}, spans {here:?}", kind(c)));
    let first = *leaf;
    let get = |i: usize| all.get(i).copied().unwrap_or(((9999, 9999), (9999, 9999)));
    match shape(c) {
        Shape::Leaf(..) => {
            *leaf += 1;
            if here != get(first) {
                return err("leaf", get(first));
            }
        }
        Shape::Inner("\\", v, _) => {
            *leaf += 1;
            if here != get(first) {
                return err("", get(first));
            }
            for x in v {
                spans(x, leaf, all)?;
            }
        }
        Shape::Inner(k, v, _) => {
            let mut first_start = None;
            let mut end = (0, 0);
            for x in v {
                let p = spans(x, leaf, all)?;
                first_start.get_or_insert(p.0);
                end = p.1;
            }
            let mut want = (first_start.unwrap_or((0, 0)), end);
            let closer = match k {
                "<" => ">",
                "{" => "}",
                "[" => "]",
                _ => "",
            };
            if !closer.is_empty() && v.last().map(kind) != Some(closer) {
                want.1 = get(*leaf).1; // an unclosed command reaches to the end of the token that stopped it
            }
            if here != want {
                return err("node", want);
            }
        }
    }
    Ok(here)
}
pub fn c07(ts: &[Token], r: &Result<CST, String>) -> Result<bool, String> {
    match r {
        Ok(c) => {
            let all: Vec<L> = ts.iter().map(|t| l(&loc(t))).collect();
            let mut n = 0;
            spans(c, &mut n, &all)?;
            Ok(true)
        }
        Err(_) => Ok(false),
    }
}

// ---- C08-C10: the flat content of a command
fn flat(c: &CST) -> Vec<&CST> {
    let mut out = vec![];
    for x in kids(c) {
        if kind(x) == "Expr" {
            out.extend(kids(x).iter());
        } else {
            out.push(x);
        }
    }
    out
}
fn is_command(k: &str) -> bool {
    matches!(k, "<>" | "{}" | "[]")
}
fn closed(c: &CST) -> bool {
    let last = kids(c).last().map(kind);
    last == Some(match kind(c) {
        "<>" => ">",
        "{}" => "}",
        _ => "]",
    })
}

/// every command is well-formed, every backslash escapes something, no closing bracket is stray
pub fn well_formed(c: &CST) -> bool {
    let k = kind(c);
    if k == "\\" {
        return kids(c).len() == 1;
    }
    if k == "Stmt" && kids(c).iter().any(|x| matches!(kind(x), ">" | "}" | "]")) {
        return false;
    }
    if is_command(k) {
        if !closed(c) {
            return false;
        }
        let f: Vec<&str> = flat(c).iter().map(|x| kind(x)).collect();
        if f.len() < 5 || !matches!(f[1], "module" | "<>") || f[2] != "." || !matches!(f[3], "ident" | "<>") {
            return false;
        }
        let args = &f[4..f.len() - 1];
        if args.contains(&".") {
            return false;
        }
        if args.contains(&",") && args.split(|k| *k == ",").any(|a| a.iter().all(|k| matches!(*k, " " | "\n"))) {
            return false;
        }
    }
    kids(c).iter().all(well_formed)
}

#[derive(PartialEq, Debug, Clone)]
pub enum T {
    Node(&'static str, Vec<T>),
    Leaf(&'static str, Option<String>),
}
fn part(c: &CST) -> T {
    match kind(c) {
        "module" | "ident" | "text" => match shape(c) {
            Shape::Leaf(k, v, _) => T::Leaf(k, v.clone()),
            _ => unreachable!(),
        },
        " " => T::Leaf("text", Some(" ".into())),
        "." => T::Leaf("text", Some(".".into())),
        "," => T::Leaf("text", Some(",".into())),
        "\\" => kids(c).first().map(part).unwrap_or(T::Leaf("invalid", None)),
        "Expr" => T::Node("Expr", kids(c).iter().map(part).collect()),
        "Stmt" => T::Node("Stmt", kids(c).iter().filter(|x| kind(x) == "Expr").map(part).collect()),
        "Document" => T::Node("Document", kids(c).iter().filter(|x| kind(x) == "Stmt").map(part).collect()),
        k => {
            let f = flat(c);
            let mut out = vec![part(f[1]), part(f[3])];
            let args = &f[4..f.len() - 1];
            for a in args.split(|x| kind(x) == ",") {
                let mut a: Vec<&CST> = a.iter().filter(|x| kind(x) != "\n").copied().collect();
                while a.first().map_or(false, |x| kind(x) == " ") {
                    a.remove(0);
                }
                while a.last().map_or(false, |x| kind(x) == " ") {
                    a.pop();
                }
                if !a.is_empty() {
                    out.push(T::Node("Expr", a.into_iter().map(part).collect()));
                }
            }
            T::Node(k, out)
        }
    }
}
pub fn ast_tree(a: &AST) -> T {
    let kids = |n: &brack_transformer::ast::InnerNode| n.children.iter().map(ast_tree).collect::<Vec<T>>();
    match a {
        AST::Document(n) => T::Node("Document", kids(n)),
        AST::Stmt(n) => T::Node("Stmt", kids(n)),
        AST::Expr(n) => T::Node("Expr", kids(n)),
        AST::Angle(n) => T::Node("<>", kids(n)),
        AST::Curly(n) => T::Node("{}", kids(n)),
        AST::Square(n) => T::Node("[]", kids(n)),
        AST::Ident(n) => T::Leaf("ident", n.value.clone()),
        AST::Module(n) => T::Leaf("module", n.value.clone()),
        AST::Text(n) => T::Leaf("text", n.value.clone()),
        AST::Invalid(_) => T::Leaf("invalid", None),
        AST::Ignored(_) => T::Leaf("ignored", None),
    }
}
pub type Errs = Vec<(String, L)>;
pub fn c08(c: &CST, r: &(AST, Errs)) -> Result<bool, String> {
    if !well_formed(c) {
        return Ok(false);
    }
    let want = part(c);
    let got = ast_tree(&r.0);
    if got != want {
        return Err(format!("the tree should be {want:?}, is {got:?}"));
    }
    Ok(true)
}

/// the diagnostics a document deserves
fn diagnostics(c: &CST, out: &mut Errs) {
    let k = kind(c);
    for x in kids(c) {
        if k == "Stmt" {
            match kind(x) {
                ">" => out.push(("AngleNotOpened".into(), at(x))),
                "}" => out.push(("CurlyNotOpened".into(), at(x))),
                "]" => out.push(("SquareNotOpened".into(), at(x))),
                _ => {}
            }
        }
        diagnostics(x, out);
    }
    if k == "\\" && kids(c).is_empty() {
        out.push(("InvalidBackslash".into(), at(c)));
    }
    if is_command(k) {
        let f = flat(c);
        // an escaped character stands at its own place
        let pos = |x: &CST| if kind(x) == "\\" && !kids(x).is_empty() { at(&kids(x)[0]) } else { at(x) };
        if !closed(c) {
            let n = match k {
                "<>" => "AngleNotClosed",
                "{}" => "CurlyNotClosed",
                _ => "SquareNotClosed",
            };
            let (a, b) = (pos(f[0]), pos(f[f.len() - 1]));
            out.push((n.into(), (a.0.min(b.0), a.1.max(b.1))));
        }
        let header: [(&str, &[&str]); 3] = [("ModuleNotFound", &["module", "<>"]), ("DotNotFound", &["."]), ("IdentifierNotFound", &["ident", "<>"])];
        for (i, (e, ks)) in header.iter().enumerate() {
            if let Some(x) = f.get(i + 1) {
                if !ks.contains(&kind(x)) {
                    out.push((e.to_string(), pos(x)));
                }
            }
        }
        for x in f.iter().skip(3) {
            if kind(x) == "." {
                out.push(("UnexpectedDot".into(), at(x)));
            }
        }
        // arguments: what follows the first four elements that are not blanks
        let g: Vec<&&CST> = f.iter().filter(|x| !matches!(kind(x), " " | "\n")).collect();
        let mut empty = true;
        let mut after_comma = false;
        for i in 4..g.len() {
            match kind(g[i]) {
                "," => {
                    if empty {
                        out.push(("UnexpectedComma".into(), at(g[i])));
                    } else {
                        empty = true;
                        after_comma = true;
                    }
                }
                ">" | "}" | "]" => {
                    if empty && after_comma {
                        out.push(("UnexpectedComma".into(), pos(g[i - 1])));
                    }
                }
                "." => out.push(("UnexpectedDot".into(), at(g[i]))),
                _ => {
                    empty = false;
                    after_comma = false;
                }
            }
        }
    }
}
pub fn c09(c: &CST, r: &(AST, Errs)) -> Result<bool, String> {
    let wf = well_formed(c);
    if wf && !r.1.is_empty() {
        return Err(format!("a well-formed document is reported: {:?}", r.1));
    }
    if !wf && r.1.is_empty() {
        return Err("an ill-formed document is not reported".into());
    }
    let mut want = vec![];
    diagnostics(c, &mut want);
    let set = |v: &Errs| v.iter().map(|x| x.0.clone()).collect::<std::collections::BTreeSet<_>>();
    if set(&want) != set(&r.1) {
        return Err(format!("the kinds of mistakes are {:?}, reported {:?}", set(&want), set(&r.1)));
    }
    Ok(!wf)
}
pub fn c10(c: &CST, r: &(AST, Errs)) -> Result<bool, String> {
    let mut want = vec![];
    diagnostics(c, &mut want);
    let set = |v: &Errs| v.iter().cloned().collect::<std::collections::BTreeSet<_>>();
    let (w, g) = (set(&want), set(&r.1));
    if let Some(x) = g.difference(&w).next() {
        return Err(format!("{} is reported at {:?}, where there is no such mistake", x.0, x.1));
    }
    if let Some(x) = w.difference(&g).next() {
        return Err(format!("{} at {:?} is not reported", x.0, x.1));
    }
    Ok(!w.is_empty())
}

// ---- C29: places
#[derive(PartialEq, Debug, Clone)]
pub enum P {
    Node(&'static str, L, Vec<P>),
    Leaf(&'static str, L, Option<String>),
}
fn place(p: &P) -> L {
    match p {
        P::Node(_, l, _) | P::Leaf(_, l, _) => *l,
    }
}
fn placed(c: &CST) -> P {
    let l = at(c);
    match kind(c) {
        "module" | "ident" | "text" => match shape(c) {
            Shape::Leaf(k, v, _) => P::Leaf(k, l, v.clone()),
            _ => unreachable!(),
        },
        " " => P::Leaf("text", l, Some(" ".into())),
        "." => P::Leaf("text", l, Some(".".into())),
        "," => P::Leaf("text", l, Some(",".into())),
        "\\" => kids(c).first().map(placed).unwrap_or(P::Leaf("invalid", l, None)),
        "Expr" => P::Node("Expr", l, kids(c).iter().map(placed).collect()),
        "Stmt" => P::Node("Stmt", l, kids(c).iter().filter(|x| kind(x) == "Expr").map(placed).collect()),
        "Document" => P::Node("Document", l, kids(c).iter().filter(|x| kind(x) == "Stmt").map(placed).collect()),
        k => {
            let f = flat(c);
            let mut out = vec![placed(f[1]), placed(f[3])];
            for a in f[4..f.len() - 1].split(|x| kind(x) == ",") {
                let a: Vec<&CST> = a.iter().filter(|x| kind(x) != "\n").copied().collect();
                let from = a.iter().position(|x| kind(x) != " ");
                let to = a.iter().rposition(|x| kind(x) != " ");
                if let (Some(i), Some(j)) = (from, to) {
                    let v: Vec<P> = a[i..=j].iter().map(|x| placed(x)).collect();
                    let span = (v.iter().map(|x| place(x).0).min().unwrap(), v.iter().map(|x| place(x).1).max().unwrap());
                    out.push(P::Node("Expr", span, v));
                }
            }
            P::Node(k, l, out)
        }
    }
}
fn ast_placed(a: &AST) -> P {
    let l = |l: &brack_tokenizer::tokens::Location| ((l.start.line, l.start.character), (l.end.line, l.end.character));
    let n = |k: &'static str, n: &brack_transformer::ast::InnerNode| P::Node(k, l(&n.location), n.children.iter().map(ast_placed).collect());
    let f = |k: &'static str, n: &brack_transformer::ast::LeafNode| P::Leaf(k, l(&n.location), n.value.clone());
    match a {
        AST::Document(x) => n("Document", x),
        AST::Stmt(x) => n("Stmt", x),
        AST::Expr(x) => n("Expr", x),
        AST::Angle(x) => n("<>", x),
        AST::Curly(x) => n("{}", x),
        AST::Square(x) => n("[]", x),
        AST::Ident(x) => f("ident", x),
        AST::Module(x) => f("module", x),
        AST::Text(x) => f("text", x),
        AST::Invalid(x) => f("invalid", x),
        AST::Ignored(x) => f("ignored", x),
    }
}
fn differ(w: &P, g: &P) -> Option<String> {
    match (w, g) {
        (P::Node(a, l, v), P::Node(b, m, u)) if a == b && v.len() == u.len() => {
            if l != m {
                return Some(format!("the place of {a} should be {l:?}, is {m:?}"));
            }
            v.iter().zip(u).find_map(|(x, y)| differ(x, y))
        }
        _ if w == g => None,
        _ => Some(format!("should be {w:?}, is {g:?}")),
    }
}
pub fn c29(c: &CST, r: &(AST, Errs)) -> Result<bool, String> {
    if !well_formed(c) {
        return Ok(false);
    }
    match differ(&placed(c), &ast_placed(&r.0)) {
        Some(e) => Err(e),
        None => Ok(true),
    }
}

// ---- C30: the published abstract grammar, names outside the head of a command being text
fn grammatical(a: &AST) -> Result<(), String> {
    let k = |a: &AST| match a {
        AST::Document(_) => "Document",
        AST::Stmt(_) => "Stmt",
        AST::Expr(_) => "Expr",
        AST::Angle(_) => "<>",
        AST::Curly(_) => "{}",
        AST::Square(_) => "[]",
        AST::Ident(_) => "ident",
        AST::Module(_) => "module",
        AST::Text(_) => "text",
        AST::Invalid(_) => "invalid",
        AST::Ignored(_) => "ignored",
    };
    let v = match a {
        AST::Document(n) | AST::Stmt(n) | AST::Expr(n) | AST::Angle(n) | AST::Curly(n) | AST::Square(n) => &n.children,
        AST::Ident(_) | AST::Module(_) | AST::Text(_) => return Ok(()),
        _ => return Err(format!("a node of kind {}", k(a))),
    };
    let ks: Vec<&str> = v.iter().map(|x| k(x)).collect();
    let ok = match k(a) {
        "Document" => ks.iter().all(|x| *x == "Stmt"),
        "Stmt" => !ks.is_empty() && ks.iter().all(|x| *x == "Expr"),
        "Expr" => !ks.is_empty() && ks.iter().all(|x| matches!(*x, "text" | "module" | "ident" | "<>" | "{}" | "[]")),
        _ => ks.len() >= 2 && matches!(ks[0], "module" | "<>") && matches!(ks[1], "ident" | "<>") && ks[2..].iter().all(|x| *x == "Expr"),
    };
    if !ok {
        return Err(format!("a {} of {ks:?}", k(a)));
    }
    v.iter().try_for_each(grammatical)
}
pub fn c30(c: &CST, r: &(AST, Errs)) -> Result<bool, String> {
    if !r.1.is_empty() {
        return Ok(false);
    }
    grammatical(&r.0).map_err(|e| format!("there is no diagnostic, but the abstract tree has {e}"))?;
    Ok(kids(c).len() > 1)
}
