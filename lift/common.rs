// Shared by every replay binary (bounded stand-ins): CLI, random numbers, JSON output, watchdog.
// Protocol: `replay <PROP> <seed> <tier>`; the last line printed is one JSON object.
#[allow(dead_code)]
pub mod vx {
    use std::collections::HashSet;
    use std::io::Write;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::sync::Mutex;
    use std::time::{Duration, Instant};

    pub fn js(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (c as u32) < 0x20 || c as u32 == 0x7f || (0xd800..0xe000).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }

    #[derive(Clone)]
    pub struct Rng(pub u64);
    impl Rng {
        pub fn next(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        /// 0..n
        pub fn below(&mut self, n: usize) -> usize {
            if n == 0 { 0 } else { (self.next() % n as u64) as usize }
        }
        pub fn range(&mut self, a: usize, b: usize) -> usize {
            a + self.below(b - a + 1)
        }
        pub fn chance(&mut self, num: usize, den: usize) -> bool {
            self.below(den) < num
        }
        pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
            &xs[self.below(xs.len())]
        }
    }

    struct Current {
        since: Instant,
        what: String,
    }
    static CURRENT: Mutex<Option<Current>> = Mutex::new(None);

    /// the case announced last
    pub fn current() -> String {
        CURRENT.lock().unwrap().as_ref().map(|c| c.what.clone()).unwrap_or_default()
    }

    pub struct Ctx {
        pub prop: String,
        pub seed: u64,
        pub thorough: bool,
        pub rng: Rng,
        pub dir: std::path::PathBuf,
        pub known: Vec<String>,
        pub deadline: Instant,
        pub rule: String,
        pub evaluations: u64,
        distinct: HashSet<u64>,
        samples: Vec<String>,
        fail: Option<String>,
        known_hit: Vec<String>,
        quiet: bool,
    }

    fn hash(s: &str) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h
    }

    impl Ctx {
        pub fn new() -> Ctx {
            let a: Vec<String> = std::env::args().collect();
            let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
            let budget: u64 = std::env::var("VX_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(30);
            let prop = a.get(1).cloned().unwrap_or_default();
            std::panic::set_hook(Box::new(|_| {}));
            std::thread::spawn(watchdog);
            Ctx {
                rng: Rng(seed.wrapping_mul(0x9E37_79B9).wrapping_add(hash(&prop))),
                seed,
                thorough: a.get(3).map(|s| s == "thorough").unwrap_or(false),
                dir: std::env::var("VX_DIR").map(Into::into).unwrap_or_else(|_| std::env::temp_dir()),
                known: std::env::var("VX_KNOWN").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_owned()).collect(),
                deadline: Instant::now() + Duration::from_secs(budget),
                prop,
                rule: String::new(),
                evaluations: 0,
                distinct: HashSet::new(),
                samples: vec![],
                fail: None,
                known_hit: vec![],
                quiet: false,
            }
        }
        pub fn time_left(&self) -> bool {
            Instant::now() < self.deadline
        }
        pub fn failed(&self) -> bool {
            self.fail.is_some()
        }
        /// go on: nothing failed, the wanted number of cases is not reached, time is left
        pub fn more(&self, n: u64, quick: u64, thorough: u64) -> bool {
            !self.failed() && self.time_left() && n < if self.thorough { thorough } else { quick }
        }
        /// announce a case: what the watchdog and a crash report name
        pub fn case(&mut self, what: &str) {
            *CURRENT.lock().unwrap() = Some(Current { since: Instant::now(), what: what.to_owned() });
        }
        /// the same, also left in a file in case the process dies
        pub fn risky(&mut self, what: &str) {
            let _ = std::fs::write(self.dir.join("case"), what);
            self.case(what);
        }
        pub fn done(&mut self) {
            *CURRENT.lock().unwrap() = None;
        }
        /// a case was judged; `key` tells distinct non-trivial cases apart (empty: trivial)
        pub fn eval(&mut self, key: &str) {
            self.evaluations += 1;
            if !key.is_empty() && self.distinct.insert(hash(key)) && (self.samples.len() < 2 || (self.samples.len() < 5 && self.distinct.len() % 97 == 0)) {
                self.samples.push(key.chars().take(300).collect());
            }
        }
        pub fn fail(&mut self, what: &str, input: &str, expected: &str, got: &str) {
            if self.fail.is_none() {
                let cut = |s: &str| s.chars().take(4000).collect::<String>();
                self.fail = Some(format!(
                    "{{\"what\":{},\"input\":{},\"expected\":{},\"got\":{}}}",
                    js(&cut(what)), js(&cut(input)), js(&cut(expected)), js(&cut(got))
                ));
            }
        }
        /// a failure with an identity: a listed finding is reported as such
        pub fn fail_key(&mut self, key: &str, what: &str, input: &str, expected: &str, got: &str) {
            if self.known.iter().any(|k| k == key) {
                if !self.known_hit.iter().any(|k| k == key) {
                    self.known_hit.push(key.to_owned());
                }
            } else {
                self.fail(what, input, expected, got)
            }
        }
        /// run code under test; a panic in it is a failure of the case
        pub fn guard<T>(&mut self, what: &str, input: &str, f: impl FnOnce() -> T) -> Option<T> {
            match catch_unwind(AssertUnwindSafe(f)) {
                Ok(t) => Some(t),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    self.fail(&format!("{what}: panicked"), input, "no panic", &m);
                    None
                }
            }
        }
        pub fn finish(mut self) -> ! {
            self.done();
            let known: Vec<String> = self.known_hit.iter().map(|k| format!("{{\"key\":{}}}", js(k))).collect();
            let samples: Vec<String> = self.samples.iter().map(|s| js(s)).collect();
            let out = format!(
                "{{\"status\":\"{}\",\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"fail\":{},\"known\":[{}]}}",
                if self.fail.is_some() { "fail" } else { "ok" },
                self.evaluations,
                self.distinct.len(),
                js(&self.rule),
                samples.join(","),
                self.fail.clone().unwrap_or("null".into()),
                known.join(",")
            );
            emit(&out)
        }
    }

    fn emit(out: &str) -> ! {
        let so = std::io::stdout();
        let mut so = so.lock();
        let _ = writeln!(so, "\n{out}");
        let _ = so.flush();
        std::process::exit(0)
    }

    fn watchdog() {
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CURRENT.lock().unwrap();
            if let Some(c) = &*c {
                if c.since.elapsed() > Duration::from_secs(60) {
                    emit(&format!(
                        "{{\"status\":\"fail\",\"evaluations\":0,\"distinct_nontrivial\":0,\"rule\":\"\",\"samples\":[],\"fail\":{{\"what\":\"no answer within 60 s (hang)\",\"input\":{}}},\"known\":[]}}",
                        js(&c.what.chars().take(4000).collect::<String>())
                    ));
                }
            }
        }
    }
}
