// Shared by all replay/conformance harnesses: deterministic generator, reporting.
#[allow(dead_code)]
pub mod common {
    use std::cell::RefCell;
    pub struct Rng(u64);
    impl Rng {
        pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
        pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
        pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
        pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len() as u64) as usize; &v[i] }
        pub fn chance(&mut self, pct: u64) -> bool { self.below(100) < pct }
        pub fn string(&mut self, alphabet: &[char], max: u64) -> String { let n = self.below(max + 1); (0..n).map(|_| *self.pick(alphabet)).collect() }
    }
    pub struct Report { pub cases: u64, pub violations: u64, pub sets: Vec<(String, u64)> }
    thread_local! { static R: RefCell<Report> = RefCell::new(Report { cases: 0, violations: 0, sets: vec![] }); }
    pub fn esc(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
        o.push('"'); o
    }
    /// one executed case
    pub fn case() { R.with(|r| r.borrow_mut().cases += 1) }
    pub fn cases(n: u64) { R.with(|r| r.borrow_mut().cases += n) }
    /// a violated contract: `key` identifies the class (known findings are matched on it)
    pub fn violation(key: &str, input: &str, expected: &str, got: &str) {
        let n = R.with(|r| { let mut r = r.borrow_mut(); r.violations += 1; r.violations });
        if n <= 50 { println!("{{\"violation\":{{\"key\":{},\"input\":{},\"expected\":{},\"got\":{}}}}}", esc(key), esc(input), esc(expected), esc(got)); }
    }
    pub fn set(name: &str) { let n = R.with(|r| { let mut r = r.borrow_mut(); let c = r.cases; let prev: u64 = r.sets.iter().map(|x| x.1).sum(); r.sets.push((name.into(), c - prev)); c - prev }); let _ = n; }
    pub fn done() {
        R.with(|r| { let r = r.borrow(); let s: Vec<String> = r.sets.iter().map(|(n, c)| format!("{}:{}", esc(n), c)).collect(); println!("{{\"done\":{{\"cases\":{},\"violations\":{},\"sets\":{{{}}}}}}}", r.cases, r.violations, s.join(",")); });
    }
    /// run f, turning a panic into Err(message)
    pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| std::panic::set_hook(Box::new(|_| {})));
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into()))
    }
    pub fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
    pub fn thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }
    pub fn prop() -> String { std::env::args().nth(1).unwrap_or_default() }
}
