//! Every command does its work; C26.
use crate::{compile, manage, proj, rng::Rng, run};
use common::Gen;
use serde_json::{json, Value};
use std::collections::HashMap;

pub fn every(v: &Value) -> Result<bool, String> {
    if v["add"].is_object() {
        return manage::add(&v["add"]);
    }
    if v["new"].is_object() {
        return manage::new(&v["new"]);
    }
    if v["compile"].is_object() {
        return compile::compile(&v["compile"]);
    }
    if v["build"].is_object() {
        manage::clear();
        return proj::build_as(&v["build"], &|plugins, backend, gone| {
            let web = proj::releases(plugins, backend, gone).into_iter().map(|(u, b)| (u, (200, b))).collect();
            match run(&["build"], &web, &[]) {
                Ok(r) if r.ok => Ok(()),
                Ok(r) => Err(r.err),
                Err(e) => panic!("{e}"),
            }
        });
    }
    if v.get("version").is_some() {
        let w = v["version"].as_str();
        if w.is_some_and(|w| w.contains('\0')) {
            return Ok(false);
        }
        let envs: Vec<(&str, &str)> = w.map(|w| ("APP_VERSION", w)).into_iter().collect();
        let r = run(&["version"], &HashMap::new(), &envs)?;
        let want = format!("Brack {}\n", w.unwrap_or("0.2.0"));
        if !r.ok || r.out != want {
            return Err(format!("brack version prints {:?}, should print {want:?}", r.out));
        }
        return Ok(true);
    }
    if let Some(id) = v["serve"].as_i64() {
        manage::clear();
        let m = json!({"jsonrpc": "2.0", "id": id, "method": "initialize", "params": {"processId": null, "rootUri": null, "capabilities": {}}}).to_string();
        let m = format!("Content-Length: {}\r\n\r\n{m}", m.len());
        let r = run(&["language-server"], &HashMap::new(), &[("AS_BRACK_IN", &m)])?;
        // whatever it notifies of, it answers the request
        let mut rest = r.out.as_str();
        let mut answered = false;
        while let Some((h, t)) = rest.split_once("\r\n\r\n") {
            let n = h.trim_start_matches("Content-Length: ").parse::<usize>().unwrap_or(0);
            let Some(m) = t.get(..n) else { break };
            let a: Value = serde_json::from_str(m).unwrap_or(Value::Null);
            answered |= a["id"] == json!(id) && a["result"]["capabilities"].is_object();
            rest = &t[n..];
        }
        if !answered {
            return Err(format!("the language server answers {:?}", r.out));
        }
        return Ok(true);
    }
    Ok(false)
}

pub fn next(g: &mut Gen) -> Value {
    let mut rr = Rng(g.rng.next());
    let r = &mut rr;
    match r.below(10) {
        0 => json!({"add": manage::next_add(g)}),
        1 => json!({"new": manage::next_new(g)}),
        2 | 3 => json!({"compile": compile::next(g)}),
        4 => json!({"serve": r.below(1000)}),
        5 => json!({"version": if r.chance(40) { Value::Null } else { json!(*r.pick(&["1.0", "", "x y", "0.3.0-beta"])) }}),
        _ => {
            let c = compile::next(g);
            let docs = |r: &mut Rng| -> Value {
                let d: Vec<Value> = (0..r.below(4)).map(|i| json!([*r.pick(&["a.[]", "b.[]", "c.d.[]", "note.txt", "é.[]", ".[]"]), if i == 0 { c["doc"].as_str().unwrap_or("x").to_string() } else { r.pick(&["text", "{a.b x}", "[std.c1 y]", "", "\n", "{std.b"]).to_string() }])).collect();
                let mut seen: Vec<Value> = vec![];
                Value::Array(d.into_iter().filter(|x| !seen.contains(&x[0]) && { seen.push(x[0].clone()); true }).collect())
            };
            let mut plugins = c["plugins"].as_array().cloned().unwrap_or_default();
            let names = ["std", "a", "em"];
            plugins.truncate(3);
            for (p, n) in plugins.iter_mut().zip(names) {
                p["name"] = json!(n);
                p["hooks"] = json!((0..4).map(|_| if r.chance(20) { json!(true) } else { Value::Null }).collect::<Vec<_>>());
            }
            let gone: Vec<&str> = if r.chance(12) { vec!["std"] } else { vec![] };
            json!({"build": {"plugins": plugins, "backend": *r.pick(&["html", "tex"]), "gone": gone, "made": r.chance(50), "rounds": [docs(r), docs(r)]}})
        }
    }
}
