//! Adding plugins (C24) and making projects (C25).
use crate::{proj, rng::Rng, root, run};
use brack_project_manager::project::Project;
use common::{total, Gen};
use serde_json::{json, Value};
use std::collections::HashMap;

pub fn clear() {
    for e in std::fs::read_dir(root()).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            let _ = std::fs::remove_dir_all(&p);
        } else {
            let _ = std::fs::remove_file(&p);
        }
    }
}
/// OWNER, REPO and VERSION of github:OWNER/REPO@VERSION
fn parts(s: &str) -> Option<(String, String, String)> {
    let r = s.strip_prefix("github:")?;
    let (o, r) = r.split_once('/')?;
    let (r, v) = r.split_once('@')?;
    let ok = |x: &str| !x.is_empty() && !x.contains([':', '/', '@']);
    (ok(o) && ok(r) && ok(v)).then(|| (o.into(), r.into(), v.into()))
}
fn table(doc: &Value, plugins: &Value) -> Option<toml::Table> {
    let mut t = toml::Table::new();
    let s = |v: &Value| v.as_str().map(|s| toml::Value::String(s.into()));
    let mut d = toml::Table::new();
    for k in ["name", "version", "backend"] {
        d.insert(k.into(), s(&doc[k])?);
    }
    let a: Option<Vec<toml::Value>> = doc["authors"].as_array()?.iter().map(s).collect();
    d.insert("authors".into(), toml::Value::Array(a?));
    t.insert("document".into(), toml::Value::Table(d));
    if let Some(l) = plugins.as_array() {
        let mut ps = toml::Table::new();
        for p in l {
            let mut e = toml::Table::new();
            e.insert("schema".into(), toml::Value::String("github".into()));
            for k in ["owner", "repo", "version"] {
                e.insert(k.into(), s(&p[k])?);
            }
            for (i, k) in ["document_hook", "stmt_hook", "expr_hook", "text_hook"].iter().enumerate() {
                if let Some(b) = p["hooks"][i].as_bool() {
                    e.insert((*k).into(), toml::Value::Boolean(b));
                }
            }
            ps.insert(p["name"].as_str()?.into(), toml::Value::Table(e));
        }
        t.insert("plugins".into(), toml::Value::Table(ps));
    }
    Some(t)
}
fn file_ok(s: &str) -> bool {
    s.len() < 80 && !s.contains(['/', '\0']) && s != "." && s != ".."
}
pub fn add(v: &Value) -> Result<bool, String> {
    clear();
    match v["home"].as_str() {
        Some("none") => {}
        Some("bad") => {
            let _ = std::fs::write("Brack.toml", "[document\nname =");
        }
        _ => match table(&v["document"], &v["plugins"]) {
            Some(t) => {
                let _ = std::fs::write("Brack.toml", t.to_string());
            }
            None => return Ok(false),
        },
    }
    if v["made"].as_bool() == Some(true) {
        let _ = std::fs::create_dir("plugins");
        let _ = std::fs::write("plugins/std_0.wasm", "there");
    }
    let mut shown = false;
    for s in v["schemas"].as_array().unwrap_or(&vec![]) {
        let schema = match s[0].as_str() {
            Some(x) if !x.contains('\0') && !x.starts_with('-') => x,
            _ => return Ok(false),
        };
        let status = s[1].as_u64().unwrap_or(200);
        if !(200..600).contains(&status) || (300..400).contains(&status) {
            return Ok(false);
        }
        let at = parts(schema);
        let mut web: HashMap<String, (u16, Vec<u8>)> = HashMap::new();
        let mut body: Vec<u8> = vec![];
        if let Some((o, r, w)) = &at {
            if !file_ok(&format!("{r}.wasm")) {
                return Ok(false);
            }
            let u = format!("https://github.com/{o}/{r}/releases/download/{w}/{r}.wasm");
            body = u.repeat(1 + u.len() % 3).into_bytes();
            web.insert(u, (status as u16, body.clone()));
        }
        let home = std::fs::read_to_string("Brack.toml").ok();
        let old: Option<toml::Table> = home.as_deref().and_then(|t| toml::from_str(t).ok());
        let before = proj::files(root());
        let got = run(&["add", schema], &web, &[])?;
        let after = proj::files(root());
        if !got.ok {
            if after.get("Brack.toml") != before.get("Brack.toml") {
                return Err(format!("adding {schema:?} fails but changes Brack.toml"));
            }
            if got.err.trim().is_empty() {
                return Err(format!("adding {schema:?} fails without a reason"));
            }
        }
        let (o, r, w) = match at {
            Some(x) => x,
            None => {
                if got.ok && schema.split(':').next() != Some("github") {
                    return Err(format!("{schema:?} is added although its type is not known"));
                }
                if got.ok {
                    return Ok(shown);
                }
                shown = true;
                continue;
            }
        };
        let name = r.split('.').next().unwrap_or("").to_string();
        let there = old.as_ref().and_then(|t| t.get("plugins")).is_some_and(|p| p.get(&name).is_some());
        let fine = (200..300).contains(&status);
        match old {
            Some(mut t) if fine && !there => {
                if !got.ok {
                    return Err(format!("adding {schema:?} fails: {}", got.err));
                }
                let e = t.entry("plugins").or_insert(toml::Value::Table(toml::Table::new()));
                let mut p = toml::Table::new();
                for (k, x) in [("schema", "github"), ("owner", &o), ("repo", &r), ("version", &w)] {
                    p.insert(k.into(), toml::Value::String(x.into()));
                }
                if let Some(e) = e.as_table_mut() {
                    e.insert(name.clone(), toml::Value::Table(p));
                }
                let text = String::from_utf8_lossy(after.get("Brack.toml").map_or(&[][..], |b| b)).into_owned();
                let new: Option<toml::Table> = toml::from_str(&text).ok();
                if new.as_ref() != Some(&t) {
                    return Err(format!("after adding {schema:?} Brack.toml is {text:?}, should say {:?}", t.to_string()));
                }
                let mut expect = before.clone();
                expect.insert("Brack.toml".into(), text.into_bytes());
                expect.insert(format!("plugins/{r}.wasm"), body);
                if after != expect {
                    let k = after.keys().chain(expect.keys()).find(|k| after.get(*k) != expect.get(*k));
                    return Err(format!("adding {schema:?} leaves {k:?} wrong"));
                }
            }
            Some(_) | None if got.ok => {
                return Err(format!("{schema:?} is added although {}", if there { "a plugin of that name is there" } else if !fine { "its release is not" } else { "the configuration cannot be read" }));
            }
            _ => {}
        }
        shown = true;
    }
    Ok(shown)
}

fn name_ok(n: &str) -> bool {
    !n.is_empty() && n.len() < 60 && !n.contains(['/', '\0']) && n != "." && n != ".." && !n.starts_with('-')
}
pub fn new(v: &Value) -> Result<bool, String> {
    clear();
    for f in v["there"].as_array().unwrap_or(&vec![]) {
        match f[0].as_str() {
            Some(n) if name_ok(n) => {
                if f[1].as_bool() == Some(true) {
                    let _ = std::fs::create_dir(n);
                    if f[2].as_bool() == Some(true) {
                        let _ = std::fs::write(format!("{n}/Brack.toml"), "mine");
                        let _ = std::fs::create_dir(format!("{n}/docs"));
                        let _ = std::fs::write(format!("{n}/docs/main.[]"), "mine");
                    }
                } else {
                    let _ = std::fs::write(n, "mine");
                }
            }
            _ => return Ok(false),
        }
    }
    let mut shown = false;
    for n in v["names"].as_array().unwrap_or(&vec![]) {
        // NAME, FOLDER/NAME, with a slash at its end or not
        let n = match n.as_str() {
            Some(n) if n.trim_end_matches('/').split('/').count() < 3 && n.trim_end_matches('/').split('/').all(name_ok) => n,
            _ => return Ok(false),
        };
        let at = n.trim_end_matches('/');
        let alone = at.split_once('/').is_some_and(|(f, _)| !std::path::Path::new(f).is_dir());
        let there = alone || std::fs::symlink_metadata(at).is_ok();
        let before = proj::files(root());
        let got = run(&["new", "--name", n], &HashMap::new(), &[])?;
        let mut after = proj::files(root());
        if there {
            if got.ok {
                return Err(format!("{n:?} is made although it is there already or in no folder"));
            }
            if after != before {
                return Err(format!("making {n:?} fails but changes files"));
            }
        } else {
            if !got.ok {
                return Err(format!("project {n:?} is not made: {}", got.err));
            }
            let home = after.remove(&format!("{at}/Brack.toml")).unwrap_or_default();
            let home = String::from_utf8_lossy(&home).into_owned();
            let mut want: toml::Table = toml::Table::new();
            let d: toml::Table = toml::from_str("version = \"0.1.0\"\nbackend = \"\"\nauthors = [\"your name <your email>\"]").unwrap();
            want.insert("document".into(), toml::Value::Table(d));
            want["document"].as_table_mut().unwrap().insert("name".into(), toml::Value::String(n.into()));
            want.insert("plugins".into(), toml::Value::Table(toml::Table::new()));
            if toml::from_str::<toml::Table>(&home).ok().as_ref() != Some(&want) {
                return Err(format!("Brack.toml of {n:?} is {home:?}"));
            }
            let mut p = Project::new(n);
            match total(|| p.load_brack_toml().map_err(|e| e.to_string())) {
                Ok(Ok(())) if p.config.document.name == n => {}
                e => return Err(format!("the new project {n:?} cannot be loaded: {e:?}, name {:?}", p.config.document.name)),
            }
            let mut expect = before;
            expect.insert(format!("{at}/docs/main.[]"), vec![]);
            expect.insert(format!("{at}/.gitignore"), b"plugins\nout\n".to_vec());
            if after != expect {
                let k = after.keys().chain(expect.keys()).find(|k| after.get(*k) != expect.get(*k));
                return Err(format!("project {n:?}: {k:?} is wrong"));
            }
        }
        shown = true;
    }
    Ok(shown)
}

fn words(g: &Gen, max: usize) -> Vec<String> {
    g.dict.words.iter().filter(|w| !w.is_empty() && w.len() < max && !w.contains(['/', '\0'])).cloned().collect()
}
pub fn next_new(g: &mut Gen) -> Value {
    let ws = words(g, 20);
    let mut rr = Rng(g.rng.next());
    let r = &mut rr;
    let pool = ["a", "b", "my project", "q\"uote", "back\\slash", "é", "tab\t", "x.y", "line\nfeed", "[x]", "{}", "'", "\"\"\"", "'''", "name = 1", "#", "\u{7f}", "\\u0041", "a\"\nversion = \"2"];
    let mut name = |r: &mut Rng| -> String {
        if r.chance(20) && !ws.is_empty() {
            ws[r.below(ws.len())].clone()
        } else if r.chance(20) {
            format!("{}{}", pool[r.below(pool.len())], pool[r.below(pool.len())])
        } else {
            pool[r.below(pool.len())].to_string()
        }
    };
    let there: Vec<Value> = (0..r.below(3)).map(|_| json!([name(r), r.chance(50), r.chance(50)])).collect();
    let mut names: Vec<String> = (0..1 + r.below(3)).map(|_| name(r)).collect();
    if r.chance(20) {
        names.push(names[0].clone());
    }
    if r.chance(20) {
        if let Some(n) = there.first().and_then(|t| t[0].as_str()) {
            names.push(n.to_string());
        }
    }
    for n in names.iter_mut() {
        if r.chance(8) {
            let folder = match there.first().and_then(|t| t[0].as_str()) {
                Some(f) if r.chance(80) => f.to_string(),
                _ => "d".to_string(),
            };
            *n = format!("{folder}/{n}");
        }
        if r.chance(5) {
            n.push('/');
        }
    }
    json!({"there": there, "names": names})
}
pub fn next_add(g: &mut Gen) -> Value {
    let ws = words(g, 20);
    let mut rr = Rng(g.rng.next());
    let r = &mut rr;
    let text = |r: &mut Rng, v: &[&str]| -> String {
        if r.chance(8) && !ws.is_empty() {
            ws[r.below(ws.len())].clone()
        } else {
            v[r.below(v.len())].to_string()
        }
    };
    let owners = ["brack-lang", "o", "x.y", "é", "a b", "o\"q"];
    let repos = ["std", "std.html", "std.tex", "a", "b.html", "brack-std.html", ".x", "x.", "a.b.c", "é.html", "two words", "q\"r"];
    let versions = ["v1", "v1.0.0", "latest", "1", "v.", "\\n"];
    let schema = |r: &mut Rng| -> String {
        let (o, p, v) = (text(r, &owners), text(r, &repos), text(r, &versions));
        match r.below(20) {
            0 => format!("gitlab:{o}/{p}@{v}"),
            1 => format!("github:{o}/{p}"),
            2 => format!("github:{o}@{v}"),
            3 => format!("{o}/{p}@{v}"),
            4 => format!("GitHub:{o}/{p}@{v}"),
            5 => format!("github{o}/{p}@{v}"),
            6 => format!(" github:{o}/{p}@{v}"),
            7 => text(r, &["", "github", "github:", "x"]),
            _ => format!("github:{o}/{p}@{v}"),
        }
    };
    let mut schemas: Vec<Value> = (0..1 + r.below(3)).map(|_| json!([schema(r), if r.chance(85) { 200 } else { *r.pick(&[404, 500, 403, 204, 400]) }])).collect();
    if r.chance(15) {
        let s = schemas[0].clone();
        schemas.push(s);
    }
    let names = ["std", "a", "b", "x", "é", "q\"r", "brack-std", "a.b", "std.html"];
    let mut seen: Vec<String> = vec![];
    let mut plugins = vec![];
    for _ in 0..r.below(4) {
        let n = text(r, &names);
        if !seen.contains(&n) {
            let hooks: Vec<Value> = (0..4).map(|_| match r.below(3) { 0 => json!(true), 1 => json!(false), _ => Value::Null }).collect();
            plugins.push(json!({"name": n, "owner": text(r, &owners), "repo": text(r, &repos), "version": text(r, &versions), "hooks": hooks}));
            seen.push(n);
        }
    }
    json!({
        "home": *r.pick(&["", "", "", "", "", "", "", "", "none", "bad"]), "made": r.chance(50), "schemas": schemas,
        "document": {"name": text(r, &["n", "q\"", "\\"]), "version": "0.1.0", "backend": text(r, &["html", ""]), "authors": (0..r.below(3)).map(|_| text(r, &["me", "a \"b\" <c>"])).collect::<Vec<_>>()},
        "plugins": if r.chance(20) { Value::Null } else { Value::Array(plugins) },
    })
}
