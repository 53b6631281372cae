//! C28: which project the server serves and what the client can do, after every message of a session.
use crate::root;
use crate::wire::{frames, framed, initialize, note, put, ran, request, responses, run, uri, Chunk};
use common::Gen;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::Arc;

const DIRS: [&str; 5] = ["", "p0", "p é#", "p0/docs", "q%20"];
/// a version without a release
const GONE: &str = "9";

/// a configuration: null (no file), a string (unreadable), or {backend, plugins: [[name, version]...]}
#[derive(Clone)]
enum Cfg {
    Bad(String),
    Good(String, Vec<(String, String)>),
}
fn plain(s: &str) -> bool {
    !s.is_empty() && s.len() < 9 && s.chars().all(|c| c.is_ascii_alphanumeric())
}
fn cfg(v: &Value) -> Option<Option<Cfg>> {
    match v {
        Value::Null => Some(None),
        Value::String(s) => s.starts_with("= ").then(|| Some(Cfg::Bad(s.clone()))),
        _ => {
            let b = v["backend"].as_str().filter(|b| plain(b))?;
            let mut ps: Vec<(String, String)> = vec![];
            for p in v["plugins"].as_array()? {
                let (n, w) = (p[0].as_str().filter(|b| plain(b))?, p[1].as_str().filter(|b| plain(b))?);
                if ps.iter().any(|(m, _)| m == n) {
                    return None;
                }
                ps.push((n.into(), w.into()));
            }
            Some(Some(Cfg::Good(b.into(), ps)))
        }
    }
}
impl Cfg {
    fn text(&self) -> String {
        match self {
            Cfg::Bad(s) => s.clone(),
            Cfg::Good(b, ps) => {
                let mut s = format!("[document]\nname = \"n\"\nversion = \"0.1.0\"\nbackend = \"{b}\"\nauthors = []\n");
                for (n, v) in ps {
                    s.push_str(&format!("[plugins.\"{n}\"]\nschema = \"github\"\nowner = \"o\"\nrepo = \"r\"\nversion = \"{v}\"\n"));
                }
                s
            }
        }
    }
    /// what a client is offered if this is the project
    fn offers(&self) -> Option<BTreeSet<String>> {
        match self {
            Cfg::Bad(_) => None,
            Cfg::Good(_, ps) if ps.iter().any(|(_, v)| v == GONE) => None,
            Cfg::Good(b, ps) => Some(ps.iter().map(|(n, v)| format!("{n}.c{v}{b}")).collect()),
        }
    }
}
/// releases and plugins: VERSION/NAME.BACKEND.wasm has the one command cVERSIONBACKEND
fn serve() {
    reqwest::install(Arc::new(|u| {
        let r = u.strip_prefix("https://github.com/o/r/releases/download/").and_then(|r| r.strip_suffix(".wasm"));
        Some(match r.and_then(|r| r.split_once('/')).and_then(|(v, n)| n.split_once('.').map(|(n, b)| (v, n, b))) {
            Some((v, n, b)) if v != GONE => (200, format!("{n} c{v}{b}").into_bytes()),
            _ => (404, b"not found".to_vec()),
        })
    }));
    extism::install(Box::new(|wasm, name, _| {
        let t = String::from_utf8_lossy(wasm).into_owned();
        let c = t.split_once(' ').ok_or("not a plugin")?.1.to_string();
        match name {
            "get_metadata" => Ok(json!([{"command_name": c, "call_name": "f", "argument_types": [], "return_type": "TInline"}]).to_string().into_bytes()),
            _ => Err("not called".into()),
        }
    }));
}
/// the folder two above a path below the scratch directory, and nothing for one outside it
fn home(path: &str) -> Option<String> {
    Path::new(path).parent()?.parent()?.to_str().map(|s| s.to_string())
}
fn accepts(caps: &Value) -> bool {
    caps["textDocument"]["publishDiagnostics"].is_object()
}

pub fn session(v: &Value) -> Result<bool, String> {
    let _ = std::fs::remove_dir_all("plugins");
    for d in DIRS {
        let _ = std::fs::remove_file(Path::new(root()).join(d).join("Brack.toml"));
    }
    put("docs/probe.[]", "[a b]");
    let mut cfgs: BTreeMap<String, Cfg> = BTreeMap::new();
    let mut project: Option<BTreeSet<String>> = None;
    let mut caps = false;
    let mut steps: Vec<Chunk> = vec![];
    let mut want: Vec<(String, Option<BTreeSet<String>>, bool)> = vec![];
    let mut writes: Vec<(String, Option<String>)> = vec![];
    let mut shown = false;
    for (i, s) in v["steps"].as_array().unwrap_or(&vec![]).iter().enumerate() {
        let path = s[1].as_str().unwrap_or("");
        if path.contains('\0') || path.split('/').any(|c| c == ".." || c == ".") || path.contains("//") {
            return Ok(false);
        }
        let doc = |u: &str| json!({"textDocument": {"uri": u, "languageId": "brack", "version": 1, "text": "x"}});
        let m = match s[0].as_str() {
            Some("write") => {
                if !DIRS.contains(&path) {
                    return Ok(false);
                }
                match cfg(&s[2]) {
                    Some(Some(c)) => {
                        writes.push((path.into(), Some(c.text())));
                        cfgs.insert(path.into(), c);
                    }
                    Some(None) => {
                        writes.push((path.into(), None));
                        cfgs.remove(path);
                    }
                    None => return Ok(false),
                }
                continue;
            }
            Some("open") => {
                if let Some(o) = home(path).and_then(|h| cfgs.get(&h)).and_then(|c| c.offers()) {
                    shown |= project.as_ref() != Some(&o);
                    project = Some(o);
                }
                note("textDocument/didOpen", doc(&uri(path)))
            }
            // no notification, no file, or no document
            Some("ask") => request(json!(7), "textDocument/didOpen", doc(&uri(path))),
            Some("remote") => note("textDocument/didOpen", doc(&format!("http://x.y/{}", path.len()))),
            Some("odd") => note("textDocument/didOpen", json!({"textDocument": {"uri": uri(path)}})),
            Some("change") => note("textDocument/didChange", json!({"textDocument": {"uri": uri(path), "version": 2}, "contentChanges": []})),
            Some("close") => note("textDocument/didClose", json!({"textDocument": {"uri": uri(path)}})),
            Some("save") => note("textDocument/didSave", json!({"textDocument": {"uri": uri(path)}})),
            Some("tokens") => request(json!("t"), "textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri(path)}})),
            Some("init") => {
                let c = s[2].clone();
                if !c.is_object() {
                    return Ok(false);
                }
                shown |= caps != accepts(&c);
                caps = accepts(&c);
                initialize(5, c)
            }
            Some("badinit") => request(json!(6), "initialize", json!({"capabilities": 1})),
            Some("noinit") => note("initialize", json!({"processId": null, "rootUri": null, "capabilities": {"textDocument": {"publishDiagnostics": {}}}})),
            Some("initialized") => note("initialized", json!({})),
            Some("shutdown") => request(json!(8), "shutdown", Value::Null),
            Some("answer") => json!({"jsonrpc": "2.0", "id": 1, "result": {"capabilities": {}}}).to_string(),
            Some("junk") => "{]".into(),
            _ => return Ok(false),
        };
        let w = std::mem::take(&mut writes);
        steps.push((
            Some(Box::new(move || {
                for (d, t) in &w {
                    let at = if d.is_empty() { "Brack.toml".to_string() } else { format!("{d}/Brack.toml") };
                    match t {
                        Some(t) => put(&at, t),
                        None => {
                            let _ = std::fs::remove_file(Path::new(root()).join(&at));
                        }
                    }
                }
            })),
            framed(&m),
        ));
        let probe = json!({"textDocument": {"uri": uri("docs/probe.[]")}, "position": {"line": 0, "character": 0}, "context": {"triggerKind": 2, "triggerCharacter": "["}});
        steps.push((None, framed(&request(json!(1000 + i), "textDocument/completion", probe))));
        steps.push((None, framed(&note("textDocument/didSave", json!({"textDocument": {"uri": uri("docs/probe.[]")}})))));
        want.push((format!("{s}"), project.clone(), caps));
    }
    serve();
    let r = run(steps, 0)?;
    ran(&r)?;
    for (i, (s, p, c)) in want.iter().enumerate() {
        let part = |k: usize| frames(r.parts.get(3 * i + k).map(|p| p.as_slice()).unwrap_or(&[]));
        let a = responses(&part(1)?);
        let a = a.first().ok_or("the completion is not answered")?;
        if let Some(e) = a.get("error") {
            return Err(format!("after step {i}, {s}, the completion fails: {e}"));
        }
        let got: Option<BTreeSet<String>> = a["result"].as_array().map(|x| x.iter().map(|i| i["label"].as_str().unwrap_or("").to_string()).collect());
        if got != *p {
            return Err(format!("after step {i}, {s}, the commands of the project are {got:?}, should be {p:?}"));
        }
        let n = part(2)?.iter().filter(|m| m["method"] == json!("textDocument/publishDiagnostics")).count();
        if n != *c as usize {
            return Err(format!("after step {i}, {s}, a save is followed by {n} publications, should be {}", *c as usize));
        }
    }
    Ok(shown)
}

pub fn next(g: &mut Gen) -> Value {
    let r = &mut g.rng;
    let mut pick = |n: usize| r.below(n);
    let caps = [json!({}), json!({"textDocument": {"publishDiagnostics": {}}}), json!({"textDocument": {}}), json!({"workspace": {}, "textDocument": {"publishDiagnostics": {"relatedInformation": true}}})];
    let n = 1 + pick(7);
    let mut steps = vec![];
    for _ in 0..n {
        let d = DIRS[pick(DIRS.len())];
        if pick(3) > 0 {
            let c = match pick(8) {
                0 => Value::Null,
                1 => json!("= 1"),
                _ => {
                    let mut ps: Vec<Value> = vec![];
                    for name in ["a", "b", "ab"] {
                        if pick(2) == 0 {
                            ps.push(json!([name, (["1", "2", "2", "1", GONE][pick(5)])]));
                        }
                    }
                    json!({"backend": (["html", "tex"][pick(2)]), "plugins": ps})
                }
            };
            steps.push(json!(["write", d, c]));
        }
        let f = ["docs/a.[]", "docs/b é#%.[]", "x/c.[]", "docs/sub/d.[]", "e.[]", "docs/main.[]"][pick(6)];
        let f = if d.is_empty() { f.to_string() } else { format!("{d}/{f}") };
        steps.push(match pick(20) {
            0..=9 => json!(["open", f]),
            10 => json!([(["ask", "remote", "odd", "noinit"][pick(4)]), f]),
            11 => json!(["badinit", f]),
            12 => json!([(["change", "close", "save", "tokens"][pick(4)]), f]),
            13 => json!([(["initialized", "shutdown", "answer", "junk"][pick(4)]), f]),
            _ => json!(["init", "", (caps[pick(4)])]),
        });
    }
    json!({"steps": steps})
}
