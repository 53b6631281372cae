//! The unit file: which crates, which functions under which contract, which prelude text.
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct Contract {
    pub key: String,
    pub ret: String,
    pub attrs: String,
    pub spec: String,                     // requires / ensures / decreases text
    pub loops: BTreeMap<usize, String>,   // invariant text
    pub accs: std::collections::BTreeMap<usize, String>,
    pub hooks: BTreeMap<String, String>,  // hook name -> proof text
    pub external: bool,                   // trusted body
    pub as_mut: bool,                     // &self -> &mut self
    pub io: bool,                         // takes the outside world
    pub literals: Vec<String>,            // texts the unit's axioms speak about
}

#[derive(Default, Debug)]
pub struct Unit {
    pub crates: Vec<(String, String)>,
    pub prelude: String,
    pub contracts: Vec<Contract>,
    pub drop_types: Vec<String>,
    pub calls_mut: Vec<String>,
    pub inline_ok: bool,
    pub renames: Vec<(String, String)>,
    pub thread: Vec<String>,              // calls that take the outside world
    pub no_print: bool,
    pub print: bool,                      // what is printed goes to the outside world
    pub slices: bool,
    pub by_hand: Vec<String>,                    // TYPE:TRAIT written by hand and known to behave (proved in another unit, or irrelevant)
    pub json: Vec<String>,                       // derive(Serialize) yields an impl of the shim trait
}

impl Unit {
    pub fn load(path: &Path) -> Result<Unit, String> {
        let mut u = Unit { inline_ok: true, ..Default::default() };
        u.load_into(path)?;
        Ok(u)
    }

    fn load_into(&mut self, path: &Path) -> Result<(), String> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?;
        let lines: Vec<&str> = text.lines().collect();
        let mut i = 0;
        // a block is everything up to the next line that starts with '@'
        let block = |i: &mut usize| -> String {
            let mut s = String::new();
            while *i < lines.len() && !lines[*i].starts_with('@') {
                s.push_str(lines[*i]);
                s.push('\n');
                *i += 1;
            }
            s
        };
        while i < lines.len() {
            let line = lines[i];
            i += 1;
            if line.trim().is_empty() || line.starts_with("//") {
                continue;
            }
            let mut w = line.split_whitespace();
            let d = w.next().unwrap_or("");
            let rest: Vec<&str> = w.collect();
            match d {
                "@include" => {
                    let p = path.parent().unwrap().join(rest[0]);
                    if rest[0].ends_with(".vx") {
                        self.load_into(&p)?;
                    } else {
                        let mark = format!("// ---- {}\n", rest[0]);
                        if !self.prelude.contains(&mark) {
                            let t = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p.display(), e))?;
                            self.prelude.push_str(&mark);
                            self.prelude.push_str(&t);
                            self.prelude.push('\n');
                        }
                    }
                }
                "@crate" => self.crates.push((rest[0].into(), rest[1].into())),
                "@drop-type" => self.drop_types.extend(rest.iter().map(|s| s.to_string())),
                "@rename" => self.renames.push((rest[0].into(), rest[1].into())),
                "@thread" => self.thread.extend(rest.iter().map(|s| s.to_string())),
                "@no-print" => self.no_print = true,
                "@print" => {
                    self.print = true;
                    self.no_print = true;
                }
                "@slices" => self.slices = true,
                "@by-hand" => self.by_hand.extend(rest.iter().map(|s| s.to_string())),
                "@derive-json" => self.json.extend(rest.iter().map(|s| s.to_string())),
                "@mut-call" => self.calls_mut.extend(rest.iter().map(|s| s.to_string())),
                "@no-inline" => self.inline_ok = false,
                "@prelude" => {
                    let t = block(&mut i);
                    self.prelude.push_str(&t);
                }
                "@fn" => {
                    let mut c = Contract { key: rest[0].into(), ret: "r".into(), ..Default::default() };
                    for x in &rest[1..] {
                        match *x {
                            "external" => c.external = true,
                            "mut" => c.as_mut = true,
                            "io" => c.io = true,
                            y => {
                                if let Some(r) = y.strip_prefix("ret=") {
                                    c.ret = r.into();
                                } else if let Some(r) = y.strip_prefix("attr=") {
                                    c.attrs.push_str(&format!("#[{r}]\n"));
                                } else {
                                    return Err(format!("bad @fn option {y}"));
                                }
                            }
                        }
                    }
                    c.spec = block(&mut i);
                    self.contracts.retain(|k| k.key != c.key);
                    self.contracts.push(c);
                }
                "@like" => {
                    let o = self.contracts.iter().find(|c| c.key == rest[0]).cloned().ok_or(format!("no {}", rest[0]))?;
                    let c = self.contracts.last_mut().ok_or("like before fn")?;
                    c.loops.extend(o.loops);
                    c.accs.extend(o.accs);
                    c.hooks.extend(o.hooks);
                }
                "@loop" => {
                    let k: usize = rest[0].parse().map_err(|_| format!("bad loop {line}"))?;
                    let t = block(&mut i);
                    let c = self.contracts.last_mut().ok_or("loop before fn")?;
                    // what the loop gathers, should it be written as a `collect`
                    if let Some(a) = rest.get(1).and_then(|x| x.strip_prefix("acc=")) {
                        c.accs.insert(k, a.into());
                    }
                    c.loops.insert(k, t);
                }
                "@literal" => {
                    // \n stands for a line feed; quotes keep the spaces at the ends
                    let t = line.trim_start_matches("@literal").trim();
                    let t = t.strip_prefix('"').and_then(|t| t.strip_suffix('"')).unwrap_or(t).replace("\\n", "\n");
                    self.contracts.last_mut().ok_or("literal before fn")?.literals.push(t);
                }
                "@hook" => {
                    let t = block(&mut i);
                    self.contracts.last_mut().ok_or("hook before fn")?.hooks.insert(rest.join(" "), t);
                }
                _ => return Err(format!("{}: bad line {line}", path.display())),
            }
        }
        Ok(())
    }
}
