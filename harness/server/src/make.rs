//! Cases.
use crate::gen;
use crate::rng::Rng;
use common::Gen;
use serde_json::{json, Value};

fn rng(g: &mut Gen) -> (Rng, gen::Dict) {
    (Rng(g.rng.next()), gen::Dict { words: g.dict.words.clone(), ints: g.dict.ints.iter().copied().filter(|n| *n < 2000).collect() })
}
pub fn next(g: &mut Gen) -> Value {
    let (mut r, d) = rng(g);
    let r = &mut r;
    match g.prop {
        "C15" => {
            // short documents first
            let mut k = g.n;
            for len in 0..4 {
                let n = gen::ALPHA.len().pow(len as u32);
                if k < n {
                    return json!({"text": gen::nth(k, len, gen::ALPHA.len())});
                }
                k -= n;
            }
            json!({"text": gen::random(r, &d)})
        }
        "C16" | "C17" => {
            let n = 1 + r.below(6);
            let msgs: Vec<Value> = (0..n).map(|_| msg(r, &d)).collect();
            let cuts: Vec<usize> = match r.below(6) {
                0 => vec![],
                1 => vec![1],
                2 => vec![1 + r.below(8)],
                3 => vec![1000 + r.below(60)],
                _ => (0..1 + r.below(6)).map(|_| if r.chance(50) { 1 + r.below(5) } else { 1 + r.below(120) }).collect(),
            };
            if g.prop == "C16" {
                json!({"msgs": msgs, "cuts": cuts})
            } else {
                json!({"msgs": msgs, "short": if r.chance(50) { 0 } else { 1 + r.below(50) }})
            }
        }
        "C18" => {
            let n = 1 + r.below(4);
            let saves: Vec<Value> = (0..n)
                .map(|_| {
                    let t = if r.chance(15) { "[a.b c]".to_string() } else { gen::random(r, &d) };
                    let t: String = if r.chance(98) { t.chars().take(250).collect() } else { t };
                    json!([*r.pick(&["a.[]", "b.[]", "a b.[]", "é.[]", "x%20y.[]", "c#.[]", "q?.[]", "main.[]"]), t])
                })
                .collect();
            json!({"caps": !r.chance(8), "saves": saves})
        }
        "C19" => {
            let t = *r.pick(&["[", "[", "{", "{", "<", "<", " ", ".", "(", "", "]", "[[", "é"]);
            let trigger = if r.chance(6) { Value::Null } else { json!(t) };
            let hooks = r.chance(30);
            let mut ps = plugins(r, &d, hooks);
            if r.chance(4) && !ps.is_empty() {
                // many commands
                let n = 40 + r.below(90);
                let k = *r.pick(&["TInline", "TBlock", "TAST"]);
                for i in 0..n {
                    ps[0]["commands"].as_array_mut().unwrap().push(json!({"name": format!("n{i}"), "args": [], "ret": k, "call": "c"}));
                }
            }
            json!({"plugins": ps, "project": !r.chance(6), "trigger": trigger})
        }
        "C20" => {
            if r.chance(45) {
                entry(r, &d)
            } else {
                config(r, &d)
            }
        }
        _ => project(r, &d),
    }
}

fn id(r: &mut Rng) -> Value {
    match r.below(12) {
        0 => json!(0),
        1 => json!(-1),
        2 => json!("a"),
        3 => json!(""),
        4 => json!("é\r\n"),
        5 => json!(i64::MAX),
        6 => json!(u64::MAX),
        7 => json!(2.5),
        _ => json!(1 + r.below(1000)),
    }
}
fn msg(r: &mut Rng, d: &gen::Dict) -> Value {
    let u = || -> &'static str { "@URI@" };
    let file = *r.pick(&["good.[]", "odd.[]", "bad.[]", "none.[]"]);
    let uri = format!("{}{file}", u());
    let uri = if r.chance(6) { (*r.pick(&["untitled:x", "http://x/y", "no uri", ""])).to_string() } else { uri };
    let doc = json!({"textDocument": {"uri": uri}});
    let content = match r.below(22) {
        0 => json!({"jsonrpc": "2.0", "id": id(r), "method": "initialize", "params": {"processId": null, "rootUri": null, "capabilities": {"textDocument": {"publishDiagnostics": {}}}}}),
        1 => json!({"jsonrpc": "2.0", "id": id(r), "method": "initialize", "params": *r.pick(&[5, 6])}),
        2 => json!({"jsonrpc": "2.0", "id": id(r), "method": "initialize"}),
        3 | 4 => json!({"jsonrpc": "2.0", "id": id(r), "method": "textDocument/semanticTokens/full", "params": doc}),
        5 => json!({"jsonrpc": "2.0", "id": id(r), "method": "textDocument/completion", "params": {"textDocument": {"uri": uri}, "position": {"line": 0, "character": 0}, "context": {"triggerKind": 2, "triggerCharacter": "["}}}),
        6 => json!({"jsonrpc": "2.0", "id": id(r), "method": "textDocument/completion", "params": null}),
        7 => json!({"jsonrpc": "2.0", "id": id(r), "method": *r.pick(&["shutdown", "é/🇯🇵", "", "initialized", "textDocument/didSave", "textDocument/hover"]), "params": {"x": gen::word(r, d)}}),
        8 => json!({"jsonrpc": "2.0", "id": id(r), "method": gen::word(r, d)}),
        9 => json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}),
        10 => json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "languageId": "brack", "version": 1, "text": "é"}}}),
        11 => json!({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": uri, "version": 2}, "contentChanges": [{"text": "日本"}]}}),
        12 | 13 => json!({"jsonrpc": "2.0", "method": "textDocument/didSave", "params": doc}),
        14 => json!({"jsonrpc": "2.0", "method": *r.pick(&["textDocument/didSave", "textDocument/didOpen", "exit", "$/cancelRequest", "é", "textDocument/completion", "initialize"]), "params": {"id": id(r)}}),
        15 => json!({"jsonrpc": "2.0", "id": id(r), "result": null}),
        16 => {
            let c = (*r.pick(&["{", "", "nonsense", "{\"id\":1,}", "\u{feff}{}", "🇯🇵", "[1,", "\"a", "\r\n\r\n", "Content-Length: 3\r\n\r\n{}"])).to_string();
            return with_headers(r, c);
        }
        17 => json!(*r.pick(&[5, 0])),
        18 => json!([{"jsonrpc": "2.0", "id": 1, "method": "x"}]),
        19 => json!({}),
        20 => json!({"jsonrpc": "2.0", "id": id(r), "method": "shutdown", "params": "Content-Length: 2\r\n\r\n{}".repeat(1 + r.below(80))}),
        _ => json!({"jsonrpc": "2.0", "id": id(r), "method": "x", "params": "é🇯🇵".repeat(r.below(400))}),
    };
    let mut s = content.to_string();
    if r.chance(15) {
        // white space between the tokens of the message
        let w = *r.pick(&["\r\n\r\n", "\n", "  ", "\t"]);
        s = format!("{w}{s}{w}");
        if s.contains(",\"") {
            s = s.replacen(",\"", &format!(",{w}\""), 1);
        }
    }
    with_headers(r, s)
}
fn with_headers(r: &mut Rng, s: String) -> Value {
    if r.chance(80) {
        return json!(s);
    }
    let h = |r: &mut Rng| -> Vec<&'static str> { (0..r.below(3)).map(|_| *r.pick(&["Content-Type: application/vscode-jsonrpc; charset=utf-8", "X: Content-Length: 3", "Y", "Content-Type: é"])).collect() };
    json!([s, h(r), h(r)])
}
fn kind(r: &mut Rng) -> Value {
    match r.below(9) {
        0..=2 => json!("TInline"),
        3..=4 => json!("TBlock"),
        5..=6 => json!("TAST"),
        7 => json!({"TInlineCmd": "x"}),
        _ => json!({ *r.pick(&["TOption", "TArray"]): *r.pick(&["TInline", "TBlock"]) }),
    }
}
const NAMES: [&str; 14] = ["a", "b", "std", "em", "x1", "é", "A", "a_b", "a-b", "日本", "document", "stmt", "expr", "text"];
fn plugins(r: &mut Rng, d: &gen::Dict, hooks: bool) -> Vec<Value> {
    let n = r.below(4);
    let mut out: Vec<Value> = vec![];
    let mut names: Vec<String> = vec![];
    for _ in 0..n {
        let name = if r.chance(85) { (*r.pick(&NAMES[..10])).to_string() } else { gen::word(r, d).chars().filter(|c| c.is_alphanumeric()).take(6).collect() };
        if name.is_empty() || names.contains(&name) {
            continue;
        }
        names.push(name.clone());
        let mut cs: Vec<Value> = vec![];
        let mut seen: Vec<(String, String)> = vec![];
        for _ in 0..r.below(6) {
            let c = if r.chance(90) { (*r.pick(&NAMES)).to_string() } else { gen::word(r, d).chars().filter(|c| c.is_alphanumeric()).take(6).collect() };
            let k = kind(r);
            if c.is_empty() || seen.contains(&(c.clone(), k.to_string())) {
                continue;
            }
            seen.push((c.clone(), k.to_string()));
            let args: Vec<Value> = (0..r.below(3)).map(|_| kind_arg(r)).collect();
            let call = if r.chance(4) { format!("fail_{c}") } else { format!("call_{c}_{}", k.as_str().unwrap_or("o")) };
            cs.push(json!({"name": c, "args": args, "ret": k, "call": call}));
        }
        let mut hs: Vec<Value> = (0..4).map(|_| match r.below(3) { 0 => Value::Null, 1 => json!(false), _ => Value::Null }).collect();
        if hooks && r.chance(50) {
            let i = r.below(4);
            hs[i] = json!(true);
            if r.chance(90) {
                let (c, k) = [("document", "TBlock"), ("stmt", "TBlock"), ("expr", "TInline"), ("text", "TInline")][i];
                cs.retain(|x| x["name"] != json!(c));
                cs.push(json!({"name": c, "args": ["TInline"], "ret": k, "call": format!("hook_{c}")}));
            }
        }
        out.push(json!({"name": name, "version": *r.pick(&["v1", "v2", "1.0.0"]), "hooks": hs, "commands": cs}));
    }
    out
}
fn kind_arg(r: &mut Rng) -> Value {
    match r.below(8) {
        0..=5 => json!("TInline"),
        6 => json!({"TOption": "TInline"}),
        _ => json!({"TArray": "TInline"}),
    }
}
fn text(r: &mut Rng, d: &gen::Dict) -> String {
    let n = r.below(4);
    (0..n).map(|_| gen::word(r, d)).collect::<Vec<_>>().join(*r.pick(&["", " ", "/", "\"", "\\", "\n"]))
}
fn config(r: &mut Rng, d: &gen::Dict) -> Value {
    let mut m = serde_json::Map::new();
    for _ in 0..r.below(4) {
        let h: Vec<Value> = (0..4).map(|_| match r.below(3) { 0 => Value::Null, 1 => json!(false), _ => json!(true) }).collect();
        let k = if r.chance(60) { (*r.pick(&["p", "q.html", "std", "a b", ""])).to_string() } else { text(r, d) };
        m.insert(k, json!({"owner": text(r, d), "repo": text(r, d), "version": text(r, d), "hooks": h}));
    }
    let p = if r.chance(12) { Value::Null } else { Value::Object(m) };
    let authors: Vec<String> = (0..r.below(3)).map(|_| text(r, d)).collect();
    json!({"document": {"name": text(r, d), "version": text(r, d), "backend": text(r, d), "authors": authors}, "plugins": p})
}
fn entry(r: &mut Rng, d: &gen::Dict) -> Value {
    let mut f: Vec<Value> = vec![];
    for k in ["schema", "owner", "repo", "version"] {
        if !r.chance(6) {
            let v = if k == "schema" { if r.chance(92) { json!("github") } else { json!(*r.pick(&["GitHub", "gitlab", "git", "", "github "])) } } else { json!(text(r, d)) };
            f.push(json!([k, if r.chance(3) { json!(5) } else { v }]));
        }
    }
    for k in ["expr_hook", "stmt_hook", "document_hook", "text_hook"] {
        if r.chance(45) {
            f.push(json!([k, if r.chance(4) { json!("true") } else { json!(r.chance(50)) }]));
        }
    }
    if r.chance(18) {
        let k = if r.chance(40) { gen::word(r, d) } else { (*r.pick(&["hook", "branch", "Owner", "", "expr_hook ", "document", "url", "schemas"])).to_string() };
        f.push(json!([k, "x"]));
    }
    if r.chance(18) && !f.is_empty() {
        let x = f[r.below(f.len())].clone();
        f.push(x);
    }
    for i in (1..f.len()).rev() {
        f.swap(i, r.below(i + 1));
    }
    json!({ "entry": f })
}
fn project(r: &mut Rng, d: &gen::Dict) -> Value {
    let ps = plugins(r, d, true);
    let names: Vec<String> = ps.iter().map(|p| p["name"].as_str().unwrap().to_string()).collect();
    let rounds: Vec<Value> = (0..1 + r.below(2))
        .map(|_| {
            let docs: Vec<Value> = (0..r.below(4))
                .map(|_| {
                    let n = *r.pick(&["a.[]", "b.[]", "main.[]", "a.b.[]", "x.txt", "a", ".[]", "é.[]", "a b.[]", "a.[].bak", "a[]", "c.html", "a..[]", "..[]", "...[]", "_a.[]", "-.[]", "a .[]", " .[]", "[].[]", "a.[].[]"]);
                    let t = if r.chance(55) { doc(r, &ps) } else if r.chance(30) { gen::random(r, d) } else { "plain é text\n\nmore".to_string() };
                    json!([n, t])
                })
                .collect();
            json!(docs)
        })
        .collect();
    let gone: Vec<&String> = if r.chance(6) { names.iter().take(1).collect() } else { vec![] };
    json!({"plugins": ps, "backend": *r.pick(&["html", "html", "latex", "x.y", "md"]), "gone": gone, "made": r.chance(50), "rounds": rounds})
}
/// a document that calls the plugins' commands as they are meant
fn doc(r: &mut Rng, ps: &[Value]) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(4) {
        s.push_str(*r.pick(&["", "a ", "b. ", "\n\n", "\n", "é"]));
        let all: Vec<(String, &Value)> = ps.iter().flat_map(|p| p["commands"].as_array().unwrap().iter().map(move |c| (p["name"].as_str().unwrap().to_string(), c))).collect();
        if all.is_empty() {
            s.push_str("text");
            continue;
        }
        let (m, c) = r.pick(&all).clone();
        let (o, e) = match c["ret"].as_str() {
            Some("TInline") => ("[", "]"),
            Some("TBlock") => ("{", "}"),
            Some("TAST") => ("<", ">"),
            _ => continue,
        };
        let args: Vec<String> = c["args"].as_array().unwrap().iter().map(|_| (*r.pick(&["x", "y z", "w"])).to_string()).collect();
        let mut t = format!("{m}.{}", c["name"].as_str().unwrap());
        if o == "<" {
            t.push_str(" q");
        } else if !args.is_empty() {
            t.push(' ');
            t.push_str(&args.join(", "));
        }
        s.push_str(&format!("{o}{t}{e}"));
    }
    s
}
