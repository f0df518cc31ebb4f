// Shared by every harness binary: seeded generator, failure reports, watchdog.
#![allow(dead_code)]
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.usize(v.len())] }
    /// integers with the corners over-represented
    pub fn edge(&mut self) -> i64 {
        match self.below(6) {
            0 => *self.pick(&[0i64, 1, -1, i64::MIN, i64::MAX, i32::MIN as i64, i32::MAX as i64, u32::MAX as i64, i16::MIN as i64, i16::MAX as i64, -128, 127, 255, 256, 65535, 65536, 1 << 32, (1 << 32) - 1, (1 << 32) + 1]),
            1 => self.range(-10, 10),
            2 => 1i64 << self.below(63),
            3 => (1i64 << self.below(63)) - 1,
            4 => self.next() as u32 as i64,
            _ => self.next() as i64,
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.usize(i + 1); v.swap(i, j); } }
}

static CUR: Mutex<(String, String, Option<Instant>)> = Mutex::new((String::new(), String::new(), None));

pub struct Ctx { pub seed: u64, pub thorough: bool, pub cases: u64, pub fails: u64, pub only: Option<String>, pub name: String, pub limit: Duration, t0: Instant, pub distinct: std::collections::HashSet<String> }

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o
}

pub type Res = Result<(), String>;

impl Ctx {
    pub fn new() -> Ctx {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let secs = std::env::var("VP_CASE_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
        let c = Ctx { seed, thorough, cases: 0, fails: 0, only: std::env::var("VP_ONLY").ok(), name: String::new(), limit: Duration::from_secs(secs), t0: Instant::now(), distinct: Default::default() };
        std::panic::set_hook(Box::new(|_| {}));
        let lim = c.limit;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let g = CUR.lock().unwrap();
            if let Some(t) = g.2 {
                if t.elapsed() > lim {
                    println!("FAIL {{\"group\":\"{}\",\"input\":\"{}\",\"what\":\"did not return within {} s\",\"key\":\"hang\"}}", esc(&g.0), esc(&g.1), lim.as_secs());
                    println!("DONE {{\"hang\":true}}");
                    std::process::exit(0);
                }
            }
        });
        c
    }
    /// true when this group is to run
    pub fn group(&mut self, n: &str) -> bool {
        if let Some(o) = &self.only { if !o.split(',').any(|x| x == n) { return false; } }
        self.name = n.to_string();
        true
    }
    /// n cases in the quick tier, k*n in the thorough one
    pub fn n(&self, n: u64) -> u64 { if self.thorough { n * 20 } else { n } }
    /// One case. `input` must describe the case fully; f returns Err(what differs).
    pub fn case<F: FnOnce() -> Res>(&mut self, input: String, f: F) -> bool {
        self.cases += 1;
        { let mut g = CUR.lock().unwrap(); g.0 = self.name.clone(); g.1 = input.clone(); g.2 = Some(Instant::now()); }
        let r = catch_unwind(AssertUnwindSafe(f));
        { let mut g = CUR.lock().unwrap(); g.2 = None; }
        let what = match r {
            Ok(Ok(())) => return true,
            Ok(Err(e)) => e,
            Err(p) => { let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); format!("panic: {m}") }
        };
        self.fail(&input, &what);
        false
    }
    pub fn fail(&mut self, input: &str, what: &str) {
        self.fails += 1;
        // at most a few reports per group and message class
        let key: String = what.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
        if self.distinct.insert(format!("{}|{}", self.name, key)) && self.distinct.len() < 60 {
            println!("FAIL {{\"group\":\"{}\",\"input\":\"{}\",\"what\":\"{}\",\"key\":\"{}\"}}", esc(&self.name), esc(input), esc(what), esc(&key));
        }
    }
    pub fn done(&self) {
        println!("DONE {{\"cases\":{},\"fails\":{},\"seconds\":{:.2}}}", self.cases, self.fails, self.t0.elapsed().as_secs_f64());
        use std::io::Write;
        std::io::stdout().flush().ok();
        std::process::exit(0);
    }
}

#[macro_export]
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }
#[macro_export]
macro_rules! ckeq { ($a:expr, $b:expr, $w:expr) => { let (a, b) = (&$a, &$b); if a != b { return Err(format!("{}: got {:?}, want {:?}", $w, a, b)); } } }
/// what another property's check reports ends the case quietly
pub fn mine(p: &str) -> bool { std::env::var("VP_PROP").map(|v| v == p).unwrap_or(true) }
#[macro_export]
macro_rules! ckp { ($p:expr, $c:expr, $($a:tt)*) => { if !($c) { return if mine($p) { Err(format!($($a)*)) } else { Ok(()) }; } } }
