//! Shared driver of the harnesses whose cases are JSON values.
//! BIN PROP SEED BUDGET_MS DICT STATE   (or: BIN PROP --replay FILE); prints one JSON line.
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::{Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
}

/// the code under test may print: what it prints goes to /dev/null, what the harness says to the real output
static OUT: AtomicI32 = AtomicI32::new(-1);
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
pub fn mute() {
    use std::os::fd::AsRawFd;
    if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
        unsafe {
            let d = dup(1);
            if d >= 0 && dup2(f.as_raw_fd(), 1) >= 0 {
                OUT.store(d, Ordering::Relaxed);
            }
        }
    }
}
fn say(s: &str) {
    let d = OUT.load(Ordering::Relaxed);
    if d >= 0 {
        let _ = std::io::stdout().flush();
        unsafe {
            dup2(d, 1);
        }
    }
    println!("{s}");
}

static STEP: AtomicU64 = AtomicU64::new(0);
pub fn tick() {
    STEP.fetch_add(1, Ordering::Relaxed);
}

pub fn total<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panic: {m}")
    })
}

pub struct Dict {
    pub words: Vec<String>,
    pub ints: Vec<usize>,
}
impl Dict {
    fn load(p: &str) -> Dict {
        let t = std::fs::read_to_string(p).unwrap_or_default();
        let mut d = Dict { words: vec![], ints: vec![] };
        for l in t.lines() {
            if let Some(w) = l.strip_prefix("s ") {
                d.words.push(w.replace("\\n", "\n"));
            } else if let Some(w) = l.strip_prefix("i ") {
                d.ints.extend(w.parse::<usize>());
            }
        }
        d
    }
}

/// smaller variants of a case
fn smaller(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::Array(a) => {
            if a.len() > 3 {
                out.push(Value::Array(a[..a.len() / 2].to_vec()));
                out.push(Value::Array(a[a.len() / 2..].to_vec()));
            }
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                out.push(Value::Array(b));
            }
            for x in a {
                if x.is_array() {
                    out.push(x.clone());
                }
            }
            for i in 0..a.len() {
                for s in smaller(&a[i]) {
                    let mut b = a.clone();
                    b[i] = s;
                    out.push(Value::Array(b));
                }
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                for s in smaller(x) {
                    let mut b = o.clone();
                    b.insert(k.clone(), s);
                    out.push(Value::Object(b));
                }
            }
        }
        Value::String(s) => {
            let c: Vec<char> = s.chars().collect();
            if c.len() > 8 {
                out.push(json!(c[..c.len() / 2].iter().collect::<String>()));
                out.push(json!(c[c.len() / 2..].iter().collect::<String>()));
            }
            for i in 0..c.len().min(60) {
                let mut d = c.clone();
                d.remove(i);
                out.push(json!(d.into_iter().collect::<String>()));
            }
        }
        Value::Bool(true) => out.push(json!(false)),
        Value::Number(n) if n.as_u64().unwrap_or(0) > 0 => {
            out.push(json!(n.as_u64().unwrap() / 2));
            out.push(json!(n.as_u64().unwrap() - 1));
        }
        _ => {}
    }
    out
}

fn shrink(check: &dyn Fn(&str, &Value) -> Result<bool, String>, prop: &str, v: &Value) -> Value {
    let start = Instant::now();
    let mut cur = v.clone();
    'again: while start.elapsed() < Duration::from_secs(8) {
        for s in smaller(&cur) {
            tick();
            if start.elapsed() > Duration::from_secs(8) {
                break;
            }
            if check(prop, &s).is_err() {
                cur = s;
                continue 'again;
            }
        }
        break;
    }
    cur
}

pub struct Gen<'a> {
    pub prop: &'a str,
    pub rng: Rng,
    pub dict: Dict,
    /// how many cases were asked for so far
    pub n: usize,
}

/// check: Ok(nontrivial), or what is wrong.  next: the n-th case; fixed: how many cases are not random.
pub fn drive(check: fn(&str, &Value) -> Result<bool, String>, next: fn(&mut Gen) -> Value) {
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || run(check, next)).unwrap();
    let _ = h.join();
}

fn run(check: fn(&str, &Value) -> Result<bool, String>, next: fn(&mut Gen) -> Value) {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].as_str();
    if a[2] == "--replay" {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[3]).unwrap()).unwrap();
        match check(prop, &v) {
            Ok(_) => say("holds"),
            Err(e) => {
                say(&format!("fails: {e}"));
                std::process::exit(1);
            }
        }
        return;
    }
    let seed: u64 = a[2].parse().unwrap_or(1);
    let budget = Duration::from_millis(a[3].parse().unwrap_or(5000));
    let dict = Dict::load(&a[4]);
    let mut state = std::fs::File::create(&a[5]).expect("state file");
    let start = Instant::now();
    std::thread::spawn(|| {
        let mut last = 0;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let s = STEP.load(Ordering::Relaxed);
            if s != last {
                last = s;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(30) {
                std::process::exit(97);
            }
        }
    });
    let mut g = Gen { prop, rng: Rng(seed.wrapping_mul(0x1234567)), dict, n: 0 };
    let (mut evals, mut nontrivial) = (0u64, 0u64);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut fail: Option<(Value, String)> = None;
    while start.elapsed() < budget {
        let v = next(&mut g);
        g.n += 1;
        let text = v.to_string();
        let _ = state.rewind();
        let _ = state.write_all(format!("{}\n", text.len()).as_bytes());
        let _ = state.write_all(text.as_bytes());
        tick();
        evals += 1;
        match check(prop, &v) {
            Ok(true) => {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                text.hash(&mut h);
                if seen.insert(h.finish()) {
                    nontrivial += 1;
                    if samples.len() < 4 && nontrivial % 301 == 1 {
                        samples.push(text.chars().take(400).collect());
                    }
                }
            }
            Ok(false) => {}
            Err(e) => {
                fail = Some((v, e));
                break;
            }
        }
    }
    let failure = match fail {
        None => Value::Null,
        Some((v, _)) => {
            let s = shrink(&check, prop, &v);
            let e = check(prop, &s).err().unwrap_or_default();
            json!({"input": s.to_string(), "what": e.chars().take(3000).collect::<String>()})
        }
    };
    say(&format!("{}", json!({"evaluations": evals, "distinct_nontrivial": nontrivial, "samples": samples, "failure": failure})));
}
