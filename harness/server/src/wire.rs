//! Driving the server, and the references for C15 to C19.
use crate::proj::{serve, Plug};
use crate::root;
use brack_language_server::server::Server;
use brack_tokenizer::tokens::Token;
use common::total;
use serde_json::{json, Value};

pub struct Run {
    pub result: Result<(), String>,
    /// what was written before each chunk was asked for, then at the end
    pub parts: Vec<Vec<u8>>,
    pub all: Vec<u8>,
}
pub type Chunk = (Option<tokio::io::Before>, Vec<u8>);

pub fn run(chunks: Vec<Chunk>, short: usize) -> Result<Run, String> {
    tokio::io::script(chunks, short);
    let result = total(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async {
            let mut s = Server::default();
            s.run().await.map_err(|e| e.to_string())
        })
    })
    .map_err(|p| format!("the server stops: {p}"))?;
    let (all, marks) = tokio::io::written();
    let mut parts = vec![];
    let mut at = 0;
    for m in marks.iter().skip(1) {
        parts.push(all[at..*m].to_vec());
        at = *m;
    }
    parts.push(all[at..].to_vec());
    Ok(Run { result, parts, all })
}
pub fn framed(s: &str) -> Vec<u8> {
    format!("Content-Length: {}\r\n\r\n{}", s.len(), s).into_bytes()
}
/// the frames of the output; Err when it is not a sequence of well-framed messages
pub fn frames(b: &[u8]) -> Result<Vec<Value>, String> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let rest = &b[i..];
        let show = || String::from_utf8_lossy(&rest[..rest.len().min(200)]).into_owned();
        let h = rest.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| format!("an answer has no header: {:?}", show()))?;
        let head = std::str::from_utf8(&rest[..h]).map_err(|_| format!("an answer's header is no text: {:?}", show()))?;
        let mut n = None;
        for l in head.split("\r\n") {
            let (k, x) = l.split_once(": ").ok_or_else(|| format!("a header line of an answer is malformed: {l:?}"))?;
            if k.eq_ignore_ascii_case("content-length") {
                n = x.parse::<usize>().ok();
            }
        }
        let n = n.ok_or_else(|| format!("an answer's header gives no length: {head:?}"))?;
        if rest.len() < h + 4 + n {
            return Err(format!("an answer is shorter than the {n} bytes its header gives: {:?}", show()));
        }
        let body = &rest[h + 4..h + 4 + n];
        let m: Value = serde_json::from_slice(body).map_err(|e| format!("an answer is no JSON of {n} bytes ({e}): {:?}", String::from_utf8_lossy(body)))?;
        if m["jsonrpc"] != json!("2.0") {
            return Err(format!("an answer lacks the protocol version: {m}"));
        }
        v.push(m);
        i += h + 4 + n;
    }
    Ok(v)
}
/// responses among frames: they have an id and no method
pub fn responses(f: &[Value]) -> Vec<Value> {
    f.iter().filter(|m| m.get("method").is_none()).cloned().collect()
}
/// id and what it is: result or error
fn shape(m: &Value) -> Result<(Value, &'static str), String> {
    let k = match (m.get("result").is_some(), m.get("error").is_some()) {
        (true, false) => "result",
        (false, true) => "error",
        _ => return Err(format!("an answer must have either a result or an error: {m}")),
    };
    Ok((m.get("id").cloned().ok_or_else(|| format!("an answer lacks the id: {m}"))?, k))
}
pub fn uri(path: &str) -> String {
    let mut s = String::from("file://");
    for b in format!("{}/{}", root(), path).bytes() {
        if b.is_ascii_alphanumeric() || b"/-_.~".contains(&b) {
            s.push(b as char);
        } else {
            s.push_str(&format!("%{b:02X}"));
        }
    }
    s
}
pub fn put(path: &str, text: &str) {
    let p = std::path::Path::new(root()).join(path);
    let _ = std::fs::create_dir_all(p.parent().unwrap());
    let _ = std::fs::write(p, text);
}
pub fn request(id: Value, method: &str, params: Value) -> String {
    json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}).to_string()
}
pub fn note(method: &str, params: Value) -> String {
    json!({"jsonrpc": "2.0", "method": method, "params": params}).to_string()
}
pub fn initialize(id: i64, caps: Value) -> String {
    request(json!(id), "initialize", json!({"processId": null, "rootUri": null, "capabilities": caps}))
}
pub fn ran(r: &Run) -> Result<(), String> {
    r.result.clone().map_err(|e| format!("the server ends with an error: {e}"))
}

// ------------------------------------------------------------------------------------------------ C15
pub fn semantic(v: &Value) -> Result<bool, String> {
    let text = match v["text"].as_str() {
        Some(t) => t,
        None => return Ok(false),
    };
    put("docs/a.[]", text);
    let path = format!("{}/docs/a.[]", root());
    let tokens = match total(|| brack_tokenizer::tokenize::tokenize(&path)) {
        Ok(Ok(t)) => t,
        _ => return Ok(false),
    };
    let r = run(
        vec![
            (None, framed(&initialize(1, json!({})))),
            (None, framed(&request(json!(2), "textDocument/semanticTokens/full", json!({"textDocument": {"uri": uri("docs/a.[]")}})))),
        ],
        0,
    )?;
    ran(&r)?;
    let ans = responses(&frames(&r.all)?);
    let find = |id: i64| ans.iter().find(|m| m["id"] == json!(id)).cloned().ok_or_else(|| format!("request {id} is not answered"));
    let legend: Vec<String> = find(1)?["result"]["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
        .ok_or("no legend is announced")?;
    let data = find(2)?["result"]["data"].as_array().cloned().ok_or("no semantic tokens")?;
    let n: Vec<u64> = data.iter().map(|x| x.as_u64().unwrap_or(u64::MAX)).collect();
    if n.len() != tokens.len() * 5 {
        return Err(format!("there are {} tokens, {} numbers are sent", tokens.len(), n.len()));
    }
    let (mut line, mut col) = (0u64, 0u64);
    for (i, t) in tokens.iter().enumerate() {
        let d = &n[i * 5..i * 5 + 5];
        if d[0] > 0 {
            line += d[0];
            col = d[1];
        } else {
            col += d[1];
        }
        let l = t.get_location();
        let want = (l.start.line as u64, l.start.character as u64);
        if (line, col) != want {
            return Err(format!("token {i} ({t:?}) decodes to {:?}, starts at {want:?}", (line, col)));
        }
        if l.start.line == l.end.line && d[2] != (l.end.character - l.start.character) as u64 {
            return Err(format!("token {i} ({t:?}) decodes to length {}", d[2]));
        }
        let kind = legend.get(d[3] as usize).map(|s| s.as_str());
        let want = match t {
            Token::Module(..) => Some("namespace"),
            Token::Ident(..) => Some("variable"),
            Token::AngleBracketOpen(_) | Token::AngleBracketClose(_) => Some("macro"),
            Token::CurlyBracketOpen(_) | Token::CurlyBracketClose(_) => Some("method"),
            Token::SquareBracketOpen(_) | Token::SquareBracketClose(_) => Some("function"),
            _ => None,
        };
        if kind != want {
            return Err(format!("token {i} ({t:?}) is of type {} ({kind:?}), should be {want:?}", d[3]));
        }
        if d[4] != 0 {
            return Err(format!("token {i} ({t:?}) has modifiers {}", d[4]));
        }
    }
    Ok(tokens.len() > 2)
}

// ------------------------------------------------------------------------------------------------ C16, C17
/// what a message asks for; None: unspecified
#[derive(Clone, PartialEq, Debug)]
enum Want {
    Answer(Value),
    Error,
    Nothing,
}
fn want(content: &[u8]) -> Option<Want> {
    let m: Value = match serde_json::from_slice(content) {
        Ok(m) => m,
        Err(_) => return Some(Want::Error),
    };
    let id = m.get("id");
    let method = m.get("method");
    Some(match (id, method) {
        (Some(i), Some(x)) if (i.is_number() || i.is_string()) && x.is_string() => Want::Answer(i.clone()),
        (Some(i), None) if i.is_number() || i.is_string() => Want::Nothing,
        (None, Some(x)) if x.is_string() => Want::Nothing,
        (None, None) => Want::Error,
        _ => return None,
    })
}
struct Msg {
    head: String,
    body: Vec<u8>,
    want: Want,
}
impl Msg {
    fn bytes(&self) -> Vec<u8> {
        let mut b = self.head.clone().into_bytes();
        b.extend(&self.body);
        b
    }
}
/// messages: a content, or [content, lines before the length, lines after it]
fn messages(v: &Value) -> Option<Vec<Msg>> {
    let mut out = vec![];
    for m in v["msgs"].as_array()? {
        let (c, before, after) = match m {
            Value::String(s) => (s.clone(), vec![], vec![]),
            Value::Array(a) => {
                let lines = |v: Option<&Value>| -> Option<Vec<String>> { v.map_or(Some(vec![]), |x| x.as_array().map(|a| a.iter().filter_map(|l| l.as_str().map(|s| s.to_string())).collect())) };
                (a.first()?.as_str()?.to_string(), lines(a.get(1))?, lines(a.get(2))?)
            }
            _ => return None,
        };
        if before.iter().chain(&after).any(|l| l.is_empty() || l.contains('\r') || l.contains('\n') || l.split(": ").next() == Some("Content-Length")) {
            return None;
        }
        let body = c.replace("@URI@", &uri("docs/")).into_bytes();
        let mut lines = before;
        lines.push(format!("Content-Length: {}", body.len()));
        lines.extend(after);
        let w = want(&body)?;
        out.push(Msg { head: lines.join("\r\n") + "\r\n\r\n", body, want: w });
    }
    Some(out)
}
const DOCS: [(&str, &str); 3] = [("good.[]", "a [m.i x] b\n\n{é.🇯🇵 ]}\n"), ("odd.[]", "[a\n\n<b.c ,d"), ("bad.[]", "\\")];
fn prepare() {
    for (n, t) in DOCS {
        put(&format!("docs/{n}"), t);
    }
    let _ = std::fs::remove_file(format!("{}/Brack.toml", root()));
}
fn one_by_one(m: &[&Msg], short: usize) -> Result<Run, String> {
    let r = run(m.iter().map(|x| (None, x.bytes())).collect(), short)?;
    ran(&r)?;
    Ok(r)
}
fn check_answers(f: &[Value], m: &[Msg]) -> Result<(), String> {
    let got = responses(f);
    let mut i = 0;
    for x in m {
        match &x.want {
            Want::Nothing => {}
            w => {
                let a = got.get(i).ok_or_else(|| format!("{:?} is not answered", String::from_utf8_lossy(&x.body)))?;
                let (id, k) = shape(a)?;
                let ok = match w {
                    Want::Answer(want) => id == *want,
                    _ => id.is_null() && k == "error",
                };
                if !ok {
                    return Err(format!("{:?} is answered by {a}", String::from_utf8_lossy(&x.body)));
                }
                i += 1;
            }
        }
    }
    match got.get(i) {
        Some(a) => Err(format!("this answers nothing: {a}")),
        None => Ok(()),
    }
}
pub fn answers(v: &Value) -> Result<bool, String> {
    let m = match messages(v) {
        Some(m) => m,
        None => return Ok(false),
    };
    prepare();
    let short = v["short"].as_u64().unwrap_or(0) as usize;
    let r = one_by_one(&m.iter().collect::<Vec<_>>(), short)?;
    check_answers(&frames(&r.all)?, &m)?;
    // each answer comes before the next message is read
    for (i, x) in m.iter().enumerate() {
        let f = frames(r.parts.get(i).map(|p| p.as_slice()).unwrap_or(&[])).map_err(|e| format!("after message {i}: {e}"))?;
        let n = responses(&f).len();
        let w = (x.want != Want::Nothing) as usize;
        if n != w {
            return Err(format!("{:?} should have {w} answers, has {n}", String::from_utf8_lossy(&x.body)));
        }
    }
    Ok(m.iter().any(|x| x.want != Want::Nothing))
}
pub fn chunks(v: &Value) -> Result<bool, String> {
    let m = match messages(v) {
        Some(m) => m,
        None => return Ok(false),
    };
    prepare();
    let base = one_by_one(&m.iter().collect::<Vec<_>>(), 0)?;
    // every message that should be answered is, in order
    let f = frames(&base.all)?;
    check_answers(&f, &m)?;
    // another cut of the same bytes
    let all: Vec<u8> = m.iter().flat_map(|x| x.bytes()).collect();
    let cuts: Vec<usize> = v["cuts"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(1).max(1) as usize).collect()).unwrap_or_default();
    let mut parts: Vec<Chunk> = vec![];
    let (mut i, mut k) = (0, 0);
    while i < all.len() {
        let n = if cuts.is_empty() { all.len() } else { cuts[k % cuts.len()] }.min(all.len() - i);
        parts.push((None, all[i..i + n].to_vec()));
        i += n;
        k += 1;
    }
    let r = run(parts, 0)?;
    ran(&r).map_err(|e| format!("cut another way, {e}"))?;
    if r.all != base.all {
        let (a, b) = (frames(&base.all)?, frames(&r.all)?);
        let d = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i));
        return Err(match d {
            Some(d) => format!("cut another way, the output differs: {:?} against {:?}", a.get(d).map(|x| x.to_string()), b.get(d).map(|x| x.to_string())),
            None => "cut another way, the output differs in its bytes".into(),
        });
    }
    // the messages that are refused do not disturb the others
    let mut kept: Vec<&Msg> = vec![];
    let mut expect: Vec<u8> = vec![];
    for (i, x) in m.iter().enumerate() {
        let f = frames(&base.parts[i])?;
        let refused = x.want == Want::Error || responses(&f).iter().any(|a| a.get("error").is_some()) || f.iter().any(|a| a["method"] == json!("window/logMessage") && a["params"]["message"].as_str().is_some_and(|s| s.contains("failed")));
        if !refused {
            kept.push(x);
            expect.extend(&base.parts[i]);
        }
    }
    if kept.len() < m.len() && one_by_one(&kept, 0)?.all != expect {
        return Err("a message that is refused changes how others are handled".into());
    }
    Ok(m.len() > 1)
}

// ------------------------------------------------------------------------------------------------ C18
const MESSAGES: [(&str, &str); 14] = [
    ("AngleNotOpened", "Angle bracket not opened"),
    ("AngleNotClosed", "Angle bracket not closed"),
    ("CurlyNotOpened", "Curly bracket not opened"),
    ("CurlyNotClosed", "Curly bracket not closed"),
    ("SquareNotOpened", "Square bracket not opened"),
    ("SquareNotClosed", "Square bracket not closed"),
    ("MismatchedBracket", "Mismatched bracket"),
    ("ModuleNotFound", "Need module"),
    ("IdentifierNotFound", "Need identifier after module"),
    ("DotNotFound", "Need dot after module"),
    ("CommaNotFound", "Need comma after module"),
    ("UnexpectedDot", "Unexpected dot"),
    ("UnexpectedComma", "Unexpected comma"),
    ("InvalidBackslash", "Backslash must be followed by dot, comma, backslash, or bracket"),
];
/// message and span of a diagnostic, read off its derived Debug output: KIND(Location { start: .. line: L, character: C ..
fn diagnostic(e: &impl std::fmt::Debug) -> Option<Value> {
    let s = format!("{e:?}");
    let (kind, rest) = s.split_once('(')?;
    let m = MESSAGES.iter().find(|m| m.0 == kind)?.1;
    let n: Vec<usize> = rest.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
    match n[..] {
        [a, b, c, d] => Some(json!({"range": {"start": {"line": a, "character": b}, "end": {"line": c, "character": d}}, "message": m})),
        _ => None,
    }
}
/// what a document that parses has to report; None: it does not parse
fn diagnostics(name: &str, text: &str) -> Option<Value> {
    put(name, text);
    let path = format!("{}/{name}", root());
    let out = total(|| {
        let t = brack_tokenizer::tokenize::tokenize(&path).ok()?;
        let c = brack_parser::parse::parse(&t).ok()?;
        let (_, e) = brack_transformer::transform::transform(&c);
        let all: Vec<Value> = e.iter().map(diagnostic).collect::<Option<_>>()?;
        Some(json!(all))
    });
    out.ok().flatten()
}
pub fn saves(v: &Value) -> Result<bool, String> {
    let mut list: Vec<(String, String)> = vec![];
    for s in v["saves"].as_array().unwrap_or(&vec![]) {
        match (s[0].as_str(), s[1].as_str()) {
            (Some(n), Some(t)) if !n.is_empty() && n.len() < 40 && !n.contains(['/', '\0']) && n != "." && n != ".." => list.push((format!("docs/{n}"), t.into())),
            _ => return Ok(false),
        }
    }
    let caps = v["caps"].as_bool().unwrap_or(true);
    let want: Vec<Option<Value>> = list.iter().map(|(n, t)| diagnostics(n, t)).collect();
    let init = initialize(1, if caps { json!({"textDocument": {"publishDiagnostics": {}}}) } else { json!({}) });
    let mut steps: Vec<Chunk> = vec![(None, framed(&init))];
    for (n, t) in &list {
        let (n2, t2) = (n.clone(), t.clone());
        let m = note("textDocument/didSave", json!({"textDocument": {"uri": uri(n)}}));
        steps.push((Some(Box::new(move || put(&n2, &t2))), framed(&m)));
    }
    let r = run(steps, 0)?;
    ran(&r)?;
    let mut shown = false;
    for (i, (n, t)) in list.iter().enumerate() {
        let f = frames(r.parts.get(i + 1).map(|p| p.as_slice()).unwrap_or(&[]))?;
        let p: Vec<&Value> = f.iter().filter(|m| m["method"] == json!("textDocument/publishDiagnostics")).collect();
        let w = match &want[i] {
            Some(w) => w,
            None => continue,
        };
        if !caps {
            if !p.is_empty() {
                return Err(format!("the client takes no diagnostics and gets {}", p[0]));
            }
            continue;
        }
        if p.len() != 1 {
            return Err(format!("save {i} ({n}: {t:?}) is followed by {} publications", p.len()));
        }
        let q = &p[0]["params"];
        let got: Vec<Value> = q["diagnostics"].as_array().ok_or("no list of diagnostics")?.iter().map(|d| json!({"range": d["range"], "message": d["message"]})).collect();
        if q["uri"] != json!(uri(n)) && !same_uri(&q["uri"], &uri(n)) {
            return Err(format!("save {i} of {} publishes for {}", uri(n), q["uri"]));
        }
        if json!(got) != *w {
            return Err(format!("save {i} ({t:?}) should publish {w}, publishes {}", json!(got)));
        }
        shown = true;
    }
    Ok(shown)
}
/// two spellings of one URI
fn same_uri(a: &Value, b: &str) -> bool {
    fn plain(s: &str) -> Vec<u8> {
        let b = s.as_bytes();
        let mut out = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'%' && i + 2 < b.len() {
                if let Ok(n) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                    out.push(n);
                    i += 3;
                    continue;
                }
            }
            out.push(b[i]);
            i += 1;
        }
        out
    }
    a.as_str().is_some_and(|a| plain(a) == plain(b))
}

// ------------------------------------------------------------------------------------------------ C19
/// every hook asked for is there, of its type, and asked for once
fn loadable(plugins: &[Plug]) -> bool {
    [("document", "TBlock"), ("stmt", "TBlock"), ("expr", "TInline"), ("text", "TInline")].iter().enumerate().all(|(i, (n, k))| {
        let mut asked = 0;
        plugins.iter().filter(|p| p.hooks[i] == Some(true)).all(|p| {
            asked += 1;
            let mut c = p.commands.iter().filter(|c| c.name == *n).peekable();
            asked == 1 && c.peek().is_some() && c.all(|c| c.ret == json!(k))
        })
    })
}
pub fn completion(v: &Value) -> Result<bool, String> {
    let plugins = match Plug::list(&v["plugins"]) {
        Some(p) => p,
        None => return Ok(false),
    };
    let project = v["project"].as_bool().unwrap_or(true);
    let trigger = v["trigger"].as_str();
    let _ = std::fs::remove_dir_all(format!("{}/plugins", root()));
    put("docs/a.[]", "");
    if project {
        put("Brack.toml", &crate::proj::toml(&plugins, "html"));
    } else {
        let _ = std::fs::remove_file(format!("{}/Brack.toml", root()));
    }
    serve(&plugins, "html", &[]);
    let ctx = match trigger {
        Some(t) => json!({"triggerKind": 2, "triggerCharacter": t}),
        None => json!({"triggerKind": 1}),
    };
    let u = uri("docs/a.[]");
    let r = run(
        vec![
            (None, framed(&initialize(1, json!({})))),
            (None, framed(&note("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "brack", "version": 1, "text": ""}})))),
            (None, framed(&request(json!(2), "textDocument/completion", json!({"textDocument": {"uri": u}, "position": {"line": 0, "character": 0}, "context": ctx})))),
        ],
        0,
    )?;
    ran(&r)?;
    let f = frames(&r.all)?;
    let ans = responses(&f);
    let a = ans.iter().find(|m| m["id"] == json!(2)).ok_or("the completion is not answered")?;
    // plugins that cannot be loaded: no list that misses some of them
    let loads = !project || loadable(&plugins);
    if let Some(e) = a.get("error") {
        if !loads {
            return Ok(true);
        }
        return Err(format!("the completion fails: {e}; {:?}", f.iter().map(|m| m.to_string()).collect::<Vec<_>>()));
    }
    let items = match &a["result"] {
        Value::Null => vec![],
        Value::Array(x) => x.clone(),
        o => o["items"].as_array().cloned().ok_or_else(|| format!("no completion list: {o}"))?,
    };
    let kind = match trigger {
        Some("[") => Some(("TInline", ']')),
        Some("{") => Some(("TBlock", '}')),
        Some("<") => Some(("TAST", '>')),
        _ => None,
    };
    let mut want: Vec<(String, String)> = vec![];
    if let (true, Some((k, c))) = (project, kind) {
        for p in &plugins {
            for x in p.commands.iter().filter(|x| x.ret == json!(k)) {
                let n = format!("{}.{}", p.name, x.name);
                want.push((n.clone(), format!("{n}{c}")));
            }
        }
    }
    let mut got: Vec<(String, String)> = items
        .iter()
        .map(|i| {
            let l = i["label"].as_str().unwrap_or("").to_string();
            let t = i["insertText"].as_str().unwrap_or("").replace("$0", "").replace(' ', "");
            (l, t)
        })
        .collect();
    want.sort();
    got.sort();
    if !loads {
        return if got.is_empty() { Ok(false) } else { Err(format!("the plugins do not load, but {got:?} is offered")) };
    }
    if want != got {
        return Err(format!("after {trigger:?} there should be {want:?}, is {got:?}"));
    }
    for i in &items {
        if !i["insertText"].as_str().unwrap_or("").contains(" $0") {
            return Err(format!("the cursor is not left in the argument: {i}"));
        }
    }
    Ok(!want.is_empty() || kind.is_none())
}
