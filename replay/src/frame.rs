//! Search for an input on which the real code leaves a contract.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        match c {
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            b'\\' => s.push_str("\\\\"),
            b'"' => s.push_str("\\\""),
            32..=126 => s.push(c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    s
}
pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Fail {
    pub case: String,
    pub what: String,
}
pub struct Rec {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub deadline: Instant,
    pub known: Vec<String>,
    pub known_hit: Vec<String>,
    pub seed: u64,
    pub prop: String,
    pub exhaustive: Vec<String>,
    cur: Arc<Mutex<String>>,
    tick: Arc<AtomicU64>,
    trace: Option<String>,
}
impl Rec {
    pub fn new(prop: &str, seed: u64, ms: u64, known: Vec<String>, trace: Option<String>, hang_out: Option<String>) -> Rec {
        let cur = Arc::new(Mutex::new(String::new()));
        let tick = Arc::new(AtomicU64::new(0));
        let (c, t, p) = (cur.clone(), tick.clone(), prop.to_string());
        std::thread::spawn(move || {
            let mut last = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let n = t.load(Ordering::SeqCst);
                if n != last.0 {
                    last = (n, Instant::now());
                } else if n % 2 == 1 && last.1.elapsed() > Duration::from_secs(20) {
                    let s = c.lock().unwrap().clone();
                    let o = format!(
                        "{{\"property\":{},\"violation\":{{\"case\":{},\"what\":\"no result after 20 s (hang)\"}}}}\n",
                        json(&p),
                        json(&s)
                    );
                    if let Some(f) = &hang_out {
                        let _ = std::fs::write(f, &o);
                    }
                    println!("{}", o);
                    std::process::exit(0);
                }
            }
        });
        Rec {
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            deadline: Instant::now() + Duration::from_millis(ms),
            known,
            known_hit: vec![],
            seed,
            prop: prop.to_string(),
            exhaustive: vec![],
            cur,
            tick,
            trace,
        }
    }
    /// f within a third of the time that is left
    pub fn third<F: FnOnce(&mut Rec) -> Result<(), Fail>>(&mut self, f: F) -> Result<(), Fail> {
        let full = self.deadline;
        let now = Instant::now();
        if full > now {
            self.deadline = now + (full - now) / 3;
        }
        let r = f(self);
        self.deadline = full;
        r
    }
    pub fn time_left(&self) -> bool {
        Instant::now() < self.deadline
    }
    /// run one case; `nontrivial` by the property's rule
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, case: &str, nontrivial: bool, f: F) -> Result<(), Fail> {
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            case.hash(&mut h);
            let fresh = self.distinct.insert(h.finish());
            if fresh && (self.samples.len() < 3 || (self.samples.len() < 8 && self.evals.is_power_of_two())) {
                let mut c = case.to_string();
                if c.len() > 300 {
                    let mut n = 300;
                    while !c.is_char_boundary(n) {
                        n -= 1;
                    }
                    c.truncate(n);
                    c.push_str("...");
                }
                self.samples.push(c);
            }
        }
        {
            let mut c = self.cur.lock().unwrap();
            c.clear();
            c.push_str(case);
        }
        if let Some(t) = &self.trace {
            let _ = std::fs::write(t, case);
        }
        self.tick.fetch_add(1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.tick.fetch_add(1, Ordering::SeqCst);
        let what = match r {
            Ok(Ok(())) => return Ok(()),
            Ok(Err(e)) => e,
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or(p.downcast_ref::<&str>().map(|x| x.to_string()))
                    .unwrap_or_default();
                format!("panic: {}", m)
            }
        };
        if let Some(k) = self.known.iter().find(|k| !k.is_empty() && case == k.as_str()) {
            if !self.known_hit.contains(k) {
                self.known_hit.push(k.clone());
            }
            return Ok(());
        }
        Err(Fail {
            case: case.to_string(),
            what,
        })
    }
}
/// whether running f panics
pub fn panics<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
pub fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T) -> Result<(), String> {
    if got == exp {
        Ok(())
    } else {
        let (mut g, mut e) = (format!("{:?}", got), format!("{:?}", exp));
        if g.len() > 1500 {
            g = g.chars().take(1500).collect();
        }
        if e.len() > 1500 {
            e = e.chars().take(1500).collect();
        }
        Err(format!("{}: got {}, the contract says {}", what, g, e))
    }
}
pub fn want_b(what: &str, got: &[u8], exp: &[u8]) -> Result<(), String> {
    if got == exp {
        Ok(())
    } else {
        let cut = |b: &[u8]| {
            let s = show(&b[..b.len().min(600)]);
            if b.len() > 600 {
                format!("{}... ({} bytes)", s, b.len())
            } else {
                s
            }
        };
        Err(format!("{}: got \"{}\", the contract says \"{}\"", what, cut(got), cut(exp)))
    }
}

/// command line, report
pub fn frame_main(f: fn(&str, &mut Rec, &mut Rng) -> Option<(&'static str, Result<(), Fail>)>) {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let mut seed = 1u64;
    let mut ms = 5000u64;
    let mut out = None;
    let mut trace = None;
    let mut known = vec![];
    let mut i = 2;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--seed" => seed = a[i + 1].parse().unwrap_or(1),
            "--ms" => ms = a[i + 1].parse().unwrap(),
            "--out" => out = Some(a[i + 1].clone()),
            "--trace" => trace = Some(a[i + 1].clone()),
            "--known" => known.push(a[i + 1].clone()),
            x => panic!("bad argument {}", x),
        }
        i += 2;
    }
    if std::env::var("LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    // deep recursion in the code under test must not be an artefact of a small stack
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let mut rec = Rec::new(&prop, seed, ms, known, trace, out.clone());
            let mut rng = Rng::new(seed);
            let (rule, r) = match f(&prop, &mut rec, &mut rng) {
                Some(x) => x,
                None => {
                    eprintln!("no search for {}", prop);
                    std::process::exit(4)
                }
            };
    let viol = match r {
        Ok(()) => "null".to_string(),
        Err(f) => format!("{{\"case\":{},\"what\":{}}}", json(&f.case), json(&f.what)),
    };
    let o = format!(
        "{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"exhaustive\":[{}],\"samples\":[{}],\"known_hit\":[{}],\"violation\":{}}}\n",
        json(&prop),
        rec.evals,
        rec.distinct.len(),
        json(rule),
        rec.exhaustive.iter().map(|s| json(s)).collect::<Vec<_>>().join(","),
        rec.samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(","),
        rec.known_hit.iter().map(|s| json(s)).collect::<Vec<_>>().join(","),
        viol
    );
    if let Some(f) = out {
        std::fs::write(f, &o).unwrap();
    }
    print!("{}", o);
    std::process::exit(0);
        })
        .unwrap();
    h.join().unwrap();
}
